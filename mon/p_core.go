package main

func baseOpt(c *Case) genOpt {
	o := genOpt{MinT: 1, MaxT: 8, PStart: 0.15, PJoin: 0.4, PPar: 0.05, Kinds: 0.5, EHMax: 3}
	switch c.R.Intn(4) {
	case 0:
		o.MaxT = 4
	case 1:
		o.MaxT = 12
	}
	return o
}

func oneOf(c *Case, v ...float64) float64 { return v[c.R.Intn(len(v))] }

func size(quick bool, a, b int) int {
	if quick {
		return a
	}
	return b
}

func anyRun(n int) func(c *Case, o *oracle) bool {
	return func(c *Case, o *oracle) bool { return o.execs >= n }
}

func statRun(keys ...string) func(c *Case, o *oracle) bool {
	return func(c *Case, o *oracle) bool {
		for _, k := range keys {
			if o.stats[k] > 0 {
				return true
			}
		}
		return false
	}
}

func mixOpt(c *Case) genOpt {
	o := baseOpt(c)
	o.PErr, o.PErrLink, o.PErrLinkOK, o.PEH = 0.1, 0.6, 0.08, 0.4
	o.PStart = oneOf(c, 0.05, 0.2, 0.5)
	o.PPost = oneOf(c, 0, 0.3)
	o.PSub, o.Depth, o.SubFail = 0.15, c.R.Intn(3), 0.25
	o.PRet, o.PReply = oneOf(c, 0, 0.06), oneOf(c, 0, 0.05)
	o.PLinkErr, o.PSilent = 0.03, 0.04
	o.PIter, o.PDoW, o.PRetry, o.PAccum = 0.08, 0.08, 0.06, 0.4
	o.PBadCond, o.PLoopErr = 0.05, 0.1
	o.Data, o.PSet = c.R.Intn(3), oneOf(c, 0, 0.1)
	o.RetrySub, o.PWatch = 0.3, oneOf(c, 0, 0.2)
	o.PNoMeta = oneOf(c, 0, 0.1)
	if concMode() {
		calm(&o)
	}
	return o
}

// debugLog: with all the log lines
var debugLog = []string{"FLOGO_LOG_LEVEL=DEBUG", "FLOGO_LOG_CTX=true"}

func init() {
	// C01
	genFamily("gate", func(c *Case) genOpt {
		o := baseOpt(c)
		o.PErr, o.PErrLink, o.PErrLinkOK, o.PEH = 0.12, 0.8, 0.1, 0.4
		o.PStart = oneOf(c, 0.05, 0.2, 0.5)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth, o.SubFail = 0.15, c.R.Intn(3), 0.2
		o.PRet = oneOf(c, 0, 0.06)
		o.PLinkErr, o.PSilent = 0.03, 0.03
		return o
	}, func(c *Case, o *oracle) { o.noData, o.noPrio = true, true }, anyRun(2))
	genFamily("gatebig", func(c *Case) genOpt {
		o := baseOpt(c)
		o.MinT, o.MaxT = 10, 40
		o.PErr, o.PErrLink, o.PErrLinkOK = 0.06, 1, 0.15
		o.PJoin, o.PPar = oneOf(c, 0.2, 0.5, 0.7), oneOf(c, 0, 0.2)
		o.PStart = oneOf(c, 0.02, 0.2)
		o.Kinds = oneOf(c, 0.3, 0.6, 0.9)
		return o
	}, func(c *Case, o *oracle) { o.noData, o.noPrio = true, true }, anyRun(2))
	genFamily("gatemix", mixOpt, func(c *Case, o *oracle) { o.noData, o.noPrio = true, true }, anyRun(2))
	props["C01"] = &PropDef{ID: "C01", Rule: "random acyclic flows (fan-out, joins, parallel links, skips, subflows, failures, loops) executed by the real engine; a case is non-trivial if at least two activities ran, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "gate", N: size(q, 12000, 300000)}, {Fam: "gatebig", N: size(q, 2500, 60000)}, {Fam: "gatemix", N: size(q, 4000, 150000)},
				{Fam: "gatemix", Arg: "debug", N: size(q, 600, 10000), Env: debugLog}}
		}}

	// C02
	genFamily("links", func(c *Case) genOpt {
		o := baseOpt(c)
		o.Kinds = oneOf(c, 0.6, 0.85, 0.95)
		o.PErr, o.PErrLink, o.PErrLinkOK = 0.1, 1, 0.2
		o.PJoin = oneOf(c, 0, 0.2, 0.4)
		o.PPar = oneOf(c, 0, 0.2)
		o.PStart = 0.03
		o.PLinkErr = oneOf(c, 0, 0.04)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth = 0.08, c.R.Intn(2)
		return o
	}, func(c *Case, o *oracle) { o.noData = true }, func(c *Case, o *oracle) bool { return o.execs >= 2 && o.stats["linkkinds"] > 1 })
	props["C02"] = &PropDef{ID: "C02", Rule: "random flows with links of all kinds under both priority settings; non-trivial if at least two link kinds left executed tasks, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			n := size(q, 8000, 200000)
			return []Batch{{Fam: "links", N: n}, {Fam: "links", N: n / 2, Arg: "prio", Env: []string{"FLOGO_TASK_PRIORITIZE_EXPR_LINK=true"}}}
		}}

	// C03
	errOpt := func(c *Case) genOpt {
		o := baseOpt(c)
		o.MaxT = imin(o.MaxT, 8)
		o.PErr, o.PErrLink, o.PErrLinkOK, o.PEH = oneOf(c, 0.15, 0.35), oneOf(c, 0.3, 0.7), 0.12, oneOf(c, 0.3, 0.8)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth, o.SubFail = 0.2, c.R.Intn(4), 0.5
		o.PLinkErr, o.PSilent = oneOf(c, 0, 0.1), oneOf(c, 0.03, 0.12)
		o.PIter, o.PDoW = 0.05, 0.05
		o.PBadCond, o.PLoopErr = 0.25, 0.3
		o.PStart = oneOf(c, 0.05, 0.3)
		o.PEmpty = oneOf(c, 0, 0.05)
		o.PRetry, o.RetrySub = 0.05, 0.2
		return o
	}
	genFamily("errors", errOpt, func(c *Case, o *oracle) { o.noData, o.noPrio = true, true }, statRun("err", "silentfail", "linkerr"))
	props["C03"] = &PropDef{ID: "C03", Rule: "random flows with failures of every kind (activity errors, panics, mapping, settings, loop and link expressions, subflows, failures inside handlers); non-trivial if something failed, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "errors", N: size(q, 12000, 400000)}} }}

	// C04
	genFamily("ends", func(c *Case) genOpt {
		o := mixOpt(c)
		o.PEmpty = oneOf(c, 0, 0.06)
		if c.R.Intn(3) == 0 {
			o.PErr, o.SubFail, o.PEH = 0.35, 0.5, 0.7
		}
		if c.R.Intn(3) == 0 {
			o.Kinds, o.PJoin, o.PErrLinkOK = 0.9, 0.6, 0.3
		}
		return o
	}, func(c *Case, o *oracle) { o.noData, o.noPrio = true, true }, anyRun(1))
	props["C04"] = &PropDef{ID: "C04", Rule: "random flows of all features with failures, panics, early returns and skips at every position; the caller's handler is monitored until the engine has nothing left to do; non-trivial if an activity ran, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "ends", N: size(q, 12000, 400000)}} }}

	// C05
	genFamily("data", func(c *Case) genOpt {
		o := baseOpt(c)
		o.Data = 2 + c.R.Intn(5)
		o.PSet = oneOf(c, 0, 0.3)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth = 0.2, c.R.Intn(3)
		o.PErr, o.PErrLink = 0.08, 1
		o.PIter, o.PDoW, o.PAccum = 0.06, 0.05, 0.5
		o.PWatch = oneOf(c, 0, 0.3)
		o.PRet = oneOf(c, 0, 0.05)
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, anyRun(2))
	props["C05"] = &PropDef{ID: "C05", Rule: "random flows whose tasks map flow inputs, defaults, outputs of earlier tasks, assigned values, expressions and object templates; every input seen by an activity and every result is compared with the reference evaluator; non-trivial if at least two activities ran, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "data", N: size(q, 10000, 300000)}} }}

	// C06
	genFamily("returns", func(c *Case) genOpt {
		o := baseOpt(c)
		o.PRet, o.PReply = oneOf(c, 0.08, 0.25), oneOf(c, 0, 0.15)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth = 0.25, c.R.Intn(3)
		o.PErr, o.PErrLink, o.PEH, o.SubFail = 0.06, 0.7, 0.3, 0.1
		o.PStart = oneOf(c, 0.05, 0.3)
		o.Data, o.PSet = 2, oneOf(c, 0, 0.2)
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, func(c *Case, o *oracle) bool { return o.stats["return"] > 0 || len(o.expReply) > 0 })
	props["C06"] = &PropDef{ID: "C06", Rule: "random flows with returns and replies at random positions, in top-level flows, subflows and error handlers; non-trivial if a return or reply was executed, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "returns", N: size(q, 12000, 300000)}} }}

	// C07
	loopOpt := func(c *Case) genOpt {
		o := baseOpt(c)
		o.MaxT = imin(o.MaxT, 8)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth = oneOf(c, 0.1, 0.4), c.R.Intn(3)
		o.PErr, o.PErrLink, o.PEH, o.SubFail = 0.05, 0.8, 0.3, 0.1
		o.PAccum = oneOf(c, 0.2, 0.6)
		o.Data = 1 + c.R.Intn(4)
		o.PWatch = oneOf(c, 0, 0.4)
		o.PSilent = oneOf(c, 0, 0.04)
		return o
	}
	genFamily("iter", func(c *Case) genOpt {
		o := loopOpt(c)
		o.PIter = 0.45
		o.PLoopErr = oneOf(c, 0, 0.15)
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("iterator"))
	props["C07"] = &PropDef{ID: "C07", Rule: "random flows with iterator tasks over counts, lists, objects, outputs of other tasks, empty and wrong values, with plain and subflow bodies, with and without collected outputs; non-trivial if an iterator executed its body, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "iter", N: size(q, 10000, 300000)}} }}

	// C08
	genFamily("dowhile", func(c *Case) genOpt {
		o := loopOpt(c)
		o.PDoW = 0.45
		o.PBadCond, o.PLoopErr = oneOf(c, 0, 0.15), oneOf(c, 0, 0.15)
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("doWhile"))
	props["C08"] = &PropDef{ID: "C08", Rule: "random flows with do-while tasks whose conditions depend on the index, on outputs of the body and on flow data, with plain and subflow bodies; non-trivial if a do-while body executed, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "dowhile", N: size(q, 10000, 300000)}} }}

	// C09
	genFamily("retry", func(c *Case) genOpt {
		o := baseOpt(c)
		o.MaxT = imin(o.MaxT, 8)
		o.PRetry, o.RetrySub = 0.5, 0.7
		o.PWatch = oneOf(c, 0, 0.3)
		o.PErr, o.PErrLink, o.PEH = 0.1, 0.6, 0.4
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth, o.SubFail = 0.3, c.R.Intn(3), 0.6
		o.Data = c.R.Intn(3)
		o.PIter, o.PDoW, o.PLoopErr = oneOf(c, 0, 0.1), oneOf(c, 0, 0.1), 0.5
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("retry"))
	props["C09"] = &PropDef{ID: "C09", Rule: "random flows whose tasks fail with retriable and other errors under random retry settings (literal and computed counts, intervals), including subflow calls; non-trivial if an execution was repeated, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "retry", N: size(q, 8000, 200000)}} }}

	// C10
	genFamily("sub", func(c *Case) genOpt {
		o := baseOpt(c)
		o.MaxT = imin(o.MaxT, 6)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth, o.SubFail = oneOf(c, 0.3, 0.6), 1+c.R.Intn(3), oneOf(c, 0, 0.3)
		o.PErr, o.PErrLink, o.PEH = 0.06, 0.6, 0.4
		o.Data, o.PSet = 1+c.R.Intn(4), oneOf(c, 0, 0.2)
		o.PRet = oneOf(c, 0, 0.08, 0.2)
		o.PIter, o.PDoW = oneOf(c, 0, 0.1), oneOf(c, 0, 0.1)
		o.PAccum = oneOf(c, 0, 0.5)
		o.PStart = oneOf(c, 0.1, 0.4)
		o.PNoMeta = oneOf(c, 0, 0.15)
		o.PEmpty = oneOf(c, 0, 0.05)
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("sub"))
	props["C10"] = &PropDef{ID: "C10", Rule: "random trees of subflow calls (repeated, parallel, nested, in loops, with retries, failing, returning early); every run's inputs, outputs, identity and parentage are compared with the reference; non-trivial if a subflow ran, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "sub", N: size(q, 8000, 200000)}, {Fam: "subloop", N: size(q, 5000, 120000)}}
		}}
	// calls in loops whose runs return something else each time
	genFamily("subloop", func(c *Case) genOpt {
		o := baseOpt(c)
		o.MaxT = imin(o.MaxT, 4)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth, o.SubFail = 0.7, 1, oneOf(c, 0, 0.1)
		o.PErr, o.PErrLink, o.PEH = 0.03, 0.6, 0.3
		o.Data, o.PSet = 4, oneOf(c, 0, 0.2)
		o.PRet = oneOf(c, 0.15, 0.4)
		o.PIter, o.PDoW, o.PAccum, o.PWatch = 0.5, oneOf(c, 0.2, 0.5), 0.7, 0.7
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("sub"))

	// C11
	genFamily("detached", func(c *Case) genOpt {
		o := baseOpt(c)
		o.MaxT = imin(o.MaxT, 6)
		o.PPost = oneOf(c, 0, 0.3)
		o.PSub, o.Depth, o.SubFail, o.PDet = 0.4, 1+c.R.Intn(2), 0.3, 0.7
		o.PErr, o.PErrLink, o.PEH = 0.08, 0.6, 0.4
		o.Data = 1 + c.R.Intn(3)
		o.PRet = oneOf(c, 0, 0.08)
		o.PSleep = oneOf(c, 0, 0.3)
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("detached"))
	props["C11"] = &PropDef{ID: "C11", Rule: "random flows that call subflows in detached mode (failing, returning, slower or faster than the caller, nested); caller and detached runs are checked separately against the reference; non-trivial if a detached run executed, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "detached", N: size(q, 2500, 40000)}} }}

	// C24
	genFamily("errobj", func(c *Case) genOpt {
		o := errOpt(c)
		o.PErrLink = oneOf(c, 0.5, 1)
		o.PEH = 0.7
		o.PRetry = 0.1
		return o
	}, func(c *Case, o *oracle) { o.noPrio = true }, statRun("err", "silentfail"))
	props["C24"] = &PropDef{ID: "C24", Rule: "random flows with failures whose handling tasks map the error object and its fields; everything they see is compared with the failure observed; non-trivial if something failed, distinct by flow structure and event order",
		Batches: func(q bool) []Batch { return []Batch{{Fam: "errobj", N: size(q, 12000, 300000)}} }}
}
