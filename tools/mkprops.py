#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})

p("C01","Tasks run exactly when their incoming links allow it, and at most once",
 "In every run of an acyclic flow, a task starts only after every link into it has been decided and at least one of them was taken (a task with no incoming link always may start), no such task is left out of a run that completes, and no task is executed a second time. Tasks none of whose incoming links was taken never run, and that decision propagates through everything downstream of them. No task of a flow runs after that flow has completed or failed.",
 ["programs","inputs","schedules"],"all acyclic flow graphs (fan-out, joins, diamonds, parallel links, nested skips), all link outcomes, all orders in which start tasks and branches are processed",
 "The tests run a handful of linear flows; joins whose inputs are partly skipped, parallel links and skip cascades with other work pending are never combined.",
 ["model/simple/taskbehavior.go","instance/ind_instance.go","model/simple/flowbehavior.go","instance/instance.go"],
 [("readiness of a task from link statuses","model/simple/taskbehavior.go Enter"),("skip propagation and scheduling","instance/ind_instance.go enterTasks/handleTaskDone/execTask"),("completion detection","model/simple/flowbehavior.go TaskDone")],
 ["start/finish events of instrumented activities per flow instance","result handler calls"])

p("C02","Outgoing links are selected by type and condition, in the documented priority",
 "When a task succeeds, dependency and label links out of it are taken, an expression link is taken exactly when its condition is true, an otherwise link is taken exactly when the task has expression links and none of them was taken, and error links are not taken. Among the branches started by the same task, label branches start before otherwise branches, those before expression branches and those before plain dependency branches; with the expression-priority setting on, the order is expression, otherwise, label, dependency.",
 ["programs","inputs","configurations"],"all combinations of outgoing link kinds and condition outcomes of a task, and both values of the priority setting",
 "The tests exercise single link kinds with one outcome each; combinations of kinds, outcomes and the priority switch are a product space.",
 ["model/simple/taskbehavior.go","instance/taskinst.go","support/env.go"],
 [("link decision after a task is done","model/simple/taskbehavior.go Done"),("condition evaluation","instance/taskinst.go EvalLink"),("priority codes and ordering","model/simple/taskbehavior.go getEnterCode/SortTaskEntries")],
 ["set and order of successor activity executions"])

p("C03","A failure goes to the error links, else the error handler, else fails the flow",
 "When a task fails (activity error, panic, input that cannot be resolved, bad loop or settings expression), its error links and only those are taken if it has any; otherwise the flow's error handler runs if the flow has one and is not already handling an error; otherwise the flow fails and its caller receives that error. While and after an error handler runs, no further task of the main part of that flow is started, and a failure inside the handler that has no error link fails the flow with that failure. A link condition that cannot be evaluated is treated as a failure of the flow (handler, else failed flow), never as a silently untaken link.",
 ["programs","inputs","fault_sequences"],"all flow graphs, all failing positions and failure kinds, including failures inside handlers and inside nested subflows",
 "Error tests cover one failing activity in one flow; the position and kind of failure, nesting and double faults are unbounded.",
 ["instance/ind_instance.go","instance/taskinst.go","model/simple/taskbehavior.go","model/simple/iteratorbehavior.go"],
 [("task error routing","model/simple/taskbehavior.go Error; instance/ind_instance.go handleTaskError"),("flow level handler","instance/ind_instance.go HandleGlobalError"),("panic containment","instance/taskinst.go EvalActivity/EvalLink, instance/ind_instance.go execTask")],
 ["activity executions in main part and handler","error delivered to the result handler"])

p("C04","Every run ends: exactly one final outcome, completion signalled exactly once",
 "Every started flow whose activities return reaches a final outcome: the caller's result handler gets exactly one final result or error and its completion signal exactly once, after which it gets nothing more and no activity of the flow runs. A run is never left pending or ended without an outcome, whichever tasks fail, panic, are skipped, return early or sit inside subflows.",
 ["programs","inputs","fault_sequences","schedules"],"all terminating flows with at least one task, all failure positions including panics in activities, conditions and mappings, with and without handlers, nested subflows and early returns",
 "A test sees only that one flow finished; stalls need specific graph shapes, failure points and pending work.",
 ["action.go","instance/ind_instance.go"],
 [("run loop and final result","action.go Run"),("completion of nested flows resumes the host","instance/ind_instance.go handleTaskDone/handleTaskError/HandleGlobalError")],
 ["HandleResult and Done calls on the result handler","activity events after completion"])

p("C05","Data reaches tasks and results unchanged, from the right producer",
 "The inputs an activity sees are exactly what its mappings evaluate to over the flow's inputs, the outputs of the tasks it refers to and values assigned during the run, as they stand when it starts. A flow input not supplied takes its declared default, and one supplied replaces the default. A flow that completes without an explicit return delivers, for each declared output, the declared default (for a scalar type without one, its zero value) or else the current flow value of that name.",
 ["programs","inputs"],"all mapping expressions over inputs, upstream outputs, nested values, literals of every type, and all values flowing through them",
 "Tests check a few fixed mappings; provenance across joins, loops, branches and overwritten values needs unique values and many graphs.",
 ["instance/util.go","instance/instance.go","instance/taskinst.go","definition/mapper.go","definition/resolve.go","instance/ind_instance.go"],
 [("input mapping","instance/util.go applyInputMapper"),("default output mapping","definition/mapper.go Apply"),("flow inputs and defaults","instance/ind_instance.go startInstance"),("flow outputs","instance/instance.go GetReturnData")],
 ["inputs received by instrumented activities","result data"])

p("C06","Return ends the flow with that result; Reply answers without ending it",
 "When a task performs a return, its flow completes with exactly the returned data and error and none of its tasks that had not started yet ever runs, in a top-level flow as well as in a subflow, where the caller task receives the data and the rest of the calling flow goes on. A reply delivers its data to the caller at once and the flow continues to its end, where the replied data is the final result. A return in one flow instance has no effect on any other.",
 ["programs","inputs"],"all positions of returns and replies in main flows, handlers and subflows at any depth, with arbitrary other work pending",
 "The tests have no return with pending sibling branches, nested or repeated replies.",
 ["instance/instance.go","instance/ind_instance.go","action.go"],
 [("Return/Reply","instance/instance.go Return/Reply"),("forced completion","instance/ind_instance.go handleTaskDone")],
 ["result handler calls in order","activity events after the return"])

p("C07","An iterator runs its activity once per element, in order, with that element",
 "An iterator task executes its activity exactly once for each element of the collection (or each number below a count), in order for lists and counts and covering every entry exactly once for objects, and every execution sees the key, value and index of its own element. Collecting outputs yields one entry per iteration in iteration order; the task's successors start only after the last iteration, once, also when the activity is a subflow; with a delay configured, the next iteration starts no earlier than that after the last one. An empty or absent collection runs nothing and continues; a value that is no collection is an error.",
 ["inputs","programs"],"all collection kinds and sizes including empty, literals and expressions, plain activities and subflows, with and without accumulation, failing at any iteration",
 "Tests use one or two fixed collections and no asynchronous (subflow) body.",
 ["model/simple/iteratorbehavior.go","instance/taskinst.go","instance/ind_instance.go"],
 [("iteration","model/simple/iteratorbehavior.go Eval/PostEval"),("accumulation","instance/taskinst.go handleAccumulation"),("repeat scheduling","instance/ind_instance.go execTask")],
 ["activity executions and inputs per iteration","accumulated outputs seen downstream"])

p("C08","A do-while task repeats exactly while its condition holds",
 "A do-while task executes its activity at least once and then again exactly as long as its condition, evaluated after each execution over that execution's outputs and iteration index, is true; the index counts up from 0, and with a delay configured the next execution starts no earlier than that after the last one. Its successors start once, after the last execution, also when the body is a subflow. A condition that cannot be evaluated or is not a boolean is reported as a failure of the task.",
 ["inputs","programs"],"all conditions over index, outputs and flow values, all iteration counts, plain and subflow bodies, with accumulation",
 "Tests run one loop with one bound.",
 ["model/simple/dowhilebehavior.go","instance/taskinst.go"],
 [("loop","model/simple/dowhilebehavior.go Eval/PostEval/evaluateCondition"),("index","model/simple/dowhilebehavior.go updateDoWhileIndex")],
 ["activity executions, inputs, index"])

p("C09","A retriable failure is retried up to the configured count, then reported",
 "A task configured to retry is executed again after a retriable error until it succeeds or has been executed 1+count times, waiting at least the configured interval between executions; if it succeeds the flow goes on as if nothing had failed, and if not, the last error is routed like any task failure. Errors that are not retriable, panics, and tasks without retry configuration are never retried. A subflow call that fails with an activity error is retried the same way, each attempt being a new subflow run.",
 ["inputs","fault_sequences"],"all sequences of failures and successes, counts (including 0 and expressions), error kinds, in main flows, handlers and subflow calls",
 "Tests cover one activity failing a fixed number of times.",
 ["model/simple/retry.go","model/simple/taskbehavior.go","definition/definition.go"],
 [("retry decision","model/simple/taskbehavior.go evalActivity/PostEval"),("retry budget","model/simple/retry.go"),("configuration","definition/definition_ser.go getRetryOnErrCfg")],
 ["number and timing of activity executions","final routing"])

p("C10","A subflow call behaves like a function call",
 "A task that calls a subflow starts one new run of it with exactly the mapped inputs, and completes only when that run has completed, with the run's outputs as its own; each call of the same subflow is a separate run with its own data. If the run fails, the calling task fails with that error and is routed by the calling flow's rules. Names of tasks, values and errors in a subflow never leak into or shadow those of the caller or of sibling runs, and each run sees its own flow name and id and its direct parent's name and id.",
 ["programs","inputs","fault_sequences"],"all nestings of flows up to any depth, repeated and looped calls, handlers at any level, failing anywhere",
 "The tests call one subflow once, without failures, handlers or siblings.",
 ["instance/util.go","instance/ind_instance.go","activity/subflow/activity.go","instance/instance.go"],
 [("start","instance/util.go StartSubFlow; activity/subflow/activity.go Eval"),("completion and failure of the embedded run","instance/ind_instance.go handleTaskDone/handleTaskError/HandleGlobalError"),("isolated scope","instance/instance.go GetValue/SetValue")],
 ["activity events by flow instance id, inputs and outputs"])

p("C11","A detached subflow runs independently of its caller",
 "A task that calls a subflow in detached mode completes at once without waiting for it; the subflow runs exactly once as a separate top-level run with exactly the mapped inputs and the originating event id. Failure, return or length of the detached run never changes the caller's outcome, and the end of the caller never stops the detached run.",
 ["programs","schedules","fault_sequences"],"all callers and detached flows, any failure in either, callers ending before, during or after the detached run",
 "No test runs a detached subflow together with its caller.",
 ["instance/util.go","activity/subflow/activity.go","action.go"],
 [("start","instance/util.go StartDetachedSubFlow"),("no reply expected","action.go Run (detached execution)")],
 ["events of both runs","caller's result"])

p("C12","Runs of the same flow at the same time do not affect each other",
 "Any number of runs, of the same or different flows, executing at the same time each produce the outcome and the activity executions they would produce alone. No data, status, error or iteration state of one run becomes visible in another, and running them concurrently involves no data race in the engine.",
 ["schedules","inputs","programs"],"all sets of simultaneously executing runs and their interleavings, including first use of shared definitions, subflow metadata and caches",
 "Tests run one flow at a time.",
 ["action.go","instance/ind_instance.go","activity/subflow/activity.go","support/manager.go"],
 [("per-run state","instance/ind_instance.go NewIndependentInstance"),("shared definitions are read-only","definition/definition.go"),("lazy subflow metadata","activity/subflow/activity.go Metadata")],
 ["race detector reports","per-run outcome and unique-value provenance"])

p("C13","Concurrent task execution gives the same results as sequential execution",
 "With concurrent task execution enabled, a run in which every failure is handled by an error link executes exactly the tasks sequential execution would, each as often, with the same data and final result, and joins wait for all their branches; its events, spans and coverage are the same too, apart from their order. If a failure is unhandled or a task returns, the outcome is the one of a failure or return that really happened: tasks already executing may end, but nothing else of that flow starts, and the result is settled once. Independent branches (also those in subflows, loops and retries) can execute at the same time; the run ends with exactly one final result and one completion signal, after every activity has ended; runs can be restarted; and the engine involves no data race, also with recorders, event listeners, tracers and interceptors attached.",
 ["schedules","programs","inputs"],"all interleavings of the goroutines executing independent tasks of a run, for all flows (excluding returns combined with an error handler and flow values assigned by concurrent tasks)",
 "The only test runs a small flow once under one schedule, without the race detector.",
 ["instance/ind_instance.go","instance/instance.go","instance/instance_chg.go","instance/taskinst.go","instance/util.go","action.go"],
 [("dispatch","instance/ind_instance.go DoStepInLoop"),("scheduling lock","instance/ind_instance.go execTask"),("flow state locks","instance/instance.go")],
 ["race detector reports","activity events with overlap","result handler calls"])

p("C14","Recorded steps are a faithful, complete history of the run",
 "With step recording on and tasks executed sequentially, the recorder receives one start record with the run's inputs, then steps numbered consecutively (from 0, or from the step the run is restarted at) that all carry the run's id, then one done record with the final status and outputs; all of them tell truly when they happened, and start and done records also the user, application and host. Replaying the recorded changes reproduces, step by step, the statuses, values, tasks, links and queued work the run really had, including those of its live subflows, also for restarted runs (starting from the restored state) and runs stopped by the step limit; values recorded earlier are not altered by later execution. In debugger mode the steps also hold the inputs of the tasks executed and the data the flow returned. A recorder that returns errors never changes the run's outcome, steps and snapshots are only recorded in the modes that ask for them, and an unknown recording mode is refused.",
 ["programs","inputs","histories","fault_sequences"],"all flows and runs, all recording modes (including the deprecated settings), and recorders returning errors at any call",
 "Tests check the number of steps of one flow.",
 ["instance/instance_chg.go","instance/recorder.go","action.go","state/recorder.go"],
 [("change tracking","instance/instance_chg.go SimpleChangeTracker"),("emission","instance/recorder.go RecordState; action.go Run"),("isolation of recorded values","util/util.go DeepCopy")],
 ["calls received by a recorder service"])

p("C15","A snapshot, recorded or rebuilt from steps, equals the state it stands for",
 "A snapshot recorded during a run contains the run's identity, status, values, live tasks and links, and one entry for each live subflow with the same content. A snapshot rebuilt from the steps recorded up to some point has the same status, values, live tasks and links for the flow and its live subflows and the same pending work in the same order as the run had at that point. Recorded snapshots are not altered by later execution, and rebuilding does not alter the steps.",
 ["programs","histories"],"all flows and every prefix of their recorded steps, with nested subflows, overwritten values and finished tasks",
 "One test feeds a few hand-written steps; it never compares with a real run.",
 ["state/util.go","instance/ind_instance.go","state/snapshot.go"],
 [("live snapshot","instance/ind_instance.go Snapshot"),("reconstruction","state/util.go StepsToSnapshot")],
 ["RecordSnapshot and RecordStep arguments at each step"])

p("C16","A run saved after any step and restored continues to the same outcome",
 "A run serialized between any two steps, while no subflow call and no loop is in progress, and restarted or resumed from that state executes exactly the tasks that had not been executed yet, in the same order and with the same data, and ends with the same outcome as the uninterrupted run; it can be saved and restored again any number of times. Serializing does not change the run, and the restored state serializes to the same content. A state with a subflow call in progress, one that does not match the flow, or a malformed one is refused with an error, not a crash, and executes nothing.",
 ["crash_points","programs","inputs"],"all flows of plain tasks, branches and joins (no loop or subflow in progress at the save point), and every step as the save point",
 "No test restores a run.",
 ["instance/instance_ser.go","instance/ind_instance.go","action.go"],
 [("serialization","instance/instance_ser.go MarshalJSON/UnmarshalJSON"),("restart","instance/ind_instance.go Restart/init; action.go Run OpRestart")],
 ["JSON of the instance at every step","events and result of the restarted run"])

p("C17","Flow and task events tell the true life cycle of every run",
 "Listeners receive, for every flow run including subflows, a started event, then exactly one of completed, failed, or (for a subflow whose caller ended or abandoned the call) cancelled, and nothing of that flow afterwards. Every task a run enters is reported as scheduled, then skipped, or started, waiting if it waits, and exactly one of completed or failed; a task in progress when its flow ends or goes to its error handler has no final event, and tasks that would be skipped after that have none either. Events come in an order consistent with execution (a task starts to run after its started event and after the final events of the tasks before it, and has run when its final event is posted), one per change, and carry the right flow, parent flow, host task, task and activity names and ids; a completed event carries the inputs the activity saw and the outputs it produced (for flows: the data returned), and exactly the failed events carry the error. Attaching a listener, even one that fails or panics, never changes what a run does or returns.",
 ["programs","inputs","histories"],"all flows and runs, with and without listeners",
 "No test compares the event stream with what was executed.",
 ["instance/flowevents.go","instance/taskevents.go","support/event/flowevents.go","instance/instance.go"],
 [("flow events","instance/flowevents.go postFlowEvent"),("task events","instance/taskevents.go postTaskEvent")],
 ["core event listener for flow and task events","activity events"])

p("C18","Mocks, assertions and coverage affect and report exactly the chosen tasks",
 "A mocked task (the interceptor of '<flow name>-<task id>' mocks it and skips its execution) is not executed and its successors see the mock's outputs; a mocked exception is routed like a real one; overridden inputs (keyed by the plain task id, for every flow of the run) replace only the named inputs; a task marked to be skipped completes without being executed; tasks without an interceptor run unchanged. Assertions report pass exactly when their expression is true of the run at the end of the task's last execution (of the run, for the flow's outputs), and coverage lists exactly the tasks executed to their end, links taken and subflows entered, attributed to the flow, and to the main part or error handler, they belong to. Without interceptors none of this has any effect.",
 ["programs","inputs"],"all flows, choices of intercepted tasks (also in subflows), mock values and assertion outcomes",
 "A few tests cover one mock or assertion in one flow.",
 ["instance/util.go","instance/taskinst.go","support/interceptor.go","instance/ind_instance.go","instance/linkinst.go","action.go"],
 [("mocks","instance/util.go applyOutputInterceptor/hasOutputInterceptor/applyInputInterceptor"),("assertions","instance/util.go applyAssertionInterceptor; action.go applyAssertionInterceptor"),("coverage","instance/ind_instance.go addActivityToCoverage; instance/linkinst.go addLinkToCoverage")],
 ["interceptor contents after the run","activity events"])

p("C19","Tracing spans are balanced and properly nested",
 "With a tracer registered, every flow run, every subflow run and every execution of a task's activity opens exactly one span and closes it exactly once, no later than the end of the run, with an error exactly when that execution failed. A task span's parent is the span of its flow run and a subflow span's parent is the span of the calling task; the trace and span ids visible to the flow are those of its own span. Tracing does not change outcomes.",
 ["programs","fault_sequences"],"all flows with loops, retries, subflows, handlers, failures and panics anywhere",
 "No test counts spans.",
 ["instance/taskinst.go","instance/ind_instance.go","action.go","model/simple/taskbehavior.go"],
 [("task spans","instance/taskinst.go EvalActivity; instance/ind_instance.go handleTaskDone/handleTaskError/execTask"),("flow spans","action.go Run; instance/ind_instance.go newEmbeddedInstance")],
 ["calls received by a registered tracer"])

p("C20","The step limit stops runaway runs and only those",
 "A run that needs more than the configured number of steps ends with an error naming the limit, delivered exactly once, after at most that many activity executions (retries of one execution not counted); a run that needs fewer steps is never affected by the limit. This holds for plain, looping and subflow-heavy flows; when a run is restarted at a later step, the steps before it count too.",
 ["configurations","programs"],"all limits and all flows around the limit boundary",
 "No test sets a limit.",
 ["action.go","util/util.go","instance/ind_instance.go"],
 [("limit","action.go Run; instance/ind_instance.go DoStepInLoop"),("configuration","util/util.go GetMaxStepCount")],
 ["result handler calls and number of executions"])

p("C21","A flow definition is loaded faithfully or refused with an error",
 "Loading a valid definition yields exactly the described flow: every task, link, link kind, loop, retry and handler behaves as written and literal inputs have the declared types. A definition that refers to unknown tasks, activities or task types, or contains expressions or loop, retry or input values that cannot be compiled or converted, is refused with an error naming the problem; no input, however malformed, makes loading panic or silently yields a different flow.",
 ["inputs","programs"],"all JSON documents: valid definitions, single and multiple mutations of them, and arbitrary byte strings",
 "Tests load a few hand-written definitions.",
 ["definition/definition_ser.go","definition/definition.go","support/resource.go","support/manager.go","util/modelvalidator.go"],
 [("construction and validation","definition/definition_ser.go NewDefinition/createTask/createLink"),("panic containment","definition/definition_ser.go NewDefinition")],
 ["loader result or error","structure reported by the loaded definition, its executions"])

p("C22","Flows fetched by URI are loaded once, shared safely, and errors are not cached",
 "A flow identified by a file or http URI, plain or compressed, yields the definition stored there; it is fetched once and every later or simultaneous request gets the same definition. A fetch or parse failure (missing file, error status, truncated, empty or corrupt content) is returned as an error to that request, does not crash, and does not prevent a later request from succeeding or affect other flows.",
 ["inputs","schedules","fault_sequences"],"all contents and encodings, all sequences of server and file faults, any number of concurrent requesters",
 "Tests load one valid file and one valid http resource.",
 ["support/manager.go","support/definition.go"],
 [("cache","support/manager.go FlowManager.GetFlow"),("fetch and decode","support/manager.go BasicRemoteFlowProvider.GetFlow")],
 ["returned definitions and errors, number of requests seen by a local server"])

p("C23","An on-demand flow package runs like the same deployed flow",
 "Running a flow package on demand maps the package's inputs from the request, executes the contained flow with the same semantics as a deployed flow, delivers its result or error exactly once plus, for flows without an explicit reply, a first answer carrying the run's id, and signals completion once. A missing, malformed or invalid package is refused with an error and starts nothing.",
 ["programs","inputs","fault_sequences"],"all flow packages, inputs and failures, including failing subflows and handlers",
 "There is no test of on-demand execution.",
 ["ondemand/action.go","instance/ind_instance.go"],
 [("package run","ondemand/action.go Run"),("input mapping","ondemand/action.go ApplyMappings")],
 ["result handler calls, activity events"])

p("C24","Error details seen by handlers describe the failure that happened",
 "When a failure is handled, by an error link or by an error handler, the error object visible to the handling tasks carries the message, code, data and originating activity of that failure, both under the failing task's name and, in an error handler, as the current error. It is the details of the failure being handled, not of an earlier or concurrent one, and failures in one flow run are invisible to another.",
 ["inputs","programs","fault_sequences"],"all failure kinds and positions, sequences of handled failures before the one observed, nested subflows",
 "Tests read one message of one failure.",
 ["instance/taskinst.go","instance/ind_instance.go","definition/resolve.go"],
 [("error object","instance/taskinst.go getErrorObject/appendErrorData/setTaskError"),("resolution","definition/resolve.go ErrorResolver")],
 ["inputs mapped from the error in handling tasks"])

p("C25","The test service starts, restarts and reports flows over HTTP reliably",
 "Every start, restart or resume request for a known flow starts (or continues) exactly one run with the given data and is answered with its id, which is unique, once the run has ended; a request that is malformed, lacks its state or names an unknown flow gets an error status, starts nothing and leaves the service working. A stopped server accepts no more requests, on new or open connections, but lets accepted ones finish, and can be waited for; starting a started or stopping a stopped server is an error, whatever the number of simultaneous clients.",
 ["inputs","schedules","histories"],"all request bodies, any number of concurrent clients, all sequences of start, stop and requests",
 "No test drives the service.",
 ["tester/service.go","tester/request.go","tester/server.go"],
 [("handlers","tester/service.go StartFlow/RestartFlow"),("processing","tester/request.go StartFlow/RestartFlow"),("lifecycle","tester/server.go")],
 ["HTTP responses, activity events per run"])

p("C26","Reconfiguring or disposing a flow reaches exactly the activities concerned",
 "Reconfiguring a flow delivers the new settings once to every reconfigurable activity of the main part and of the error handler whose settings are given, and to no other, and an activity that refuses does not prevent the others; runs started afterwards use the new settings. Disposing a flow cleans up each of its activity instances, in the main part and in the error handler, exactly once, even if some cleanup fails, and touches no activity of other flows.",
 ["programs","fault_sequences"],"all flows with any mix of reconfigurable, disposable and plain activities and any subset of them failing",
 "Tests reconfigure one activity.",
 ["definition/definition.go"],
 [("Reconfigure","definition/definition.go Reconfigure/reconfigureTaskSettings"),("Cleanup","definition/definition.go Cleanup")],
 ["calls received by instrumented activities"])

p("C27","Declared schemas are enforced",
 "With schema support and validation enabled, the values mapped to the inputs of a task are validated against the schemas its definition or activity declares before the activity runs: values that do not satisfy them fail the task with the error of the validation, routed like any failure, and the activity is not executed. The outputs of a completed activity or called subflow are validated likewise: a violation fails the task and the refused outputs are not visible as its results. Nothing is refused for values without a declared schema, for activities that validate their data themselves, or when validation is disabled or schema support is off. Activities see the declared schemas, and a declaration that names an unknown type or is malformed is refused when the flow is loaded, if schema support is enabled.",
 ["inputs","programs","fault_sequences"],"all flows with any mix of schemas on inputs and outputs of plain, iterated, repeated, retried and calling tasks, any values satisfying or violating them, also validators that panic, in the three settings of the schema support",
 "Tests check one schema is parsed; nothing validates a value.",
 ["definition/definition.go","definition/definition_ser.go","definition/definition_util.go","instance/taskinst.go","instance/util.go","instance/instance.go"],
 [("inputs","instance/util.go applyInputMapper, instance/taskinst.go EvalActivity"),("outputs","instance/taskinst.go, instance/instance.go return of a subflow to its caller"),("declarations","definition/definition_ser.go schemas of a task")],
 ["activity events with their inputs, routing of the resulting failures, schemas seen by activities"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
