package main

import (
	"fmt"
	"strings"
)

// pretty renders a scenario compactly for people.
func pretty(sc *Scenario, evs []Ev) string {
	var sb strings.Builder
	for _, f := range sc.Flows {
		fmt.Fprintf(&sb, "flow %s in=%s out=%s\n", f.Name, js(f.In), js(f.Out))
		for gi, g := range f.graphs() {
			if gi == 1 {
				sb.WriteString("  -- error handler\n")
			}
			for _, t := range g.Tasks {
				fmt.Fprintf(&sb, "  %s %s", t.ID, t.Type)
				if t.Sub != "" {
					fmt.Fprintf(&sb, " call %s det=%v", t.Sub, t.Det)
				}
				if t.Iter != nil {
					fmt.Fprintf(&sb, " iter=%s", t.Iter.src())
				}
				if t.IterLit != nil {
					fmt.Fprintf(&sb, " iterlit=%s", js(t.IterLit))
				}
				if t.Cond != nil {
					fmt.Fprintf(&sb, " while=%s", t.Cond.src())
				}
				if t.Retry != nil {
					fmt.Fprintf(&sb, " retry=%s", t.Retry.src())
				}
				if t.SetExpr != nil {
					fmt.Fprintf(&sb, " set=%s", t.SetExpr.src())
				}
				if t.Accum {
					sb.WriteString(" accum")
				}
				for k, e := range t.In {
					if e.K == "raw" || e.K == "obj" {
						fmt.Fprintf(&sb, " %s:%s", k, js(e.mapping()))
					} else {
						fmt.Fprintf(&sb, " %s=%s", k, e.src())
					}
				}
				fmt.Fprintf(&sb, " scripts=%s\n", js(t.Scripts))
			}
			for _, l := range g.Links {
				fmt.Fprintf(&sb, "    %s -%s-> %s", l.From, l.Type, l.To)
				if l.Cond != nil {
					fmt.Fprintf(&sb, " [%s]", l.Cond.src())
				}
				sb.WriteString("\n")
			}
		}
	}
	fmt.Fprintf(&sb, "inputs %s\n", js(sc.Inputs))
	for _, e := range evs {
		fmt.Fprintf(&sb, "  %s run=%s %s/%s#%d", e.K, e.Run, e.Inst, e.Task, e.N)
		if e.K == "start" {
			fmt.Fprintf(&sb, " in=%s", js(e.In))
		}
		if e.O != nil {
			fmt.Fprintf(&sb, " %s", e.O.K)
		}
		if e.K == "result" || e.K == "reply" || (e.K == "end" && e.O != nil && strings.HasPrefix(e.O.K, "return")) {
			fmt.Fprintf(&sb, " data=%s", js(e.Data))
		}
		if e.Err != nil {
			fmt.Fprintf(&sb, " err=%s", js(e.Err))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
