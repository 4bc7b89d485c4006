From 9de3f28767b83cb2e336ad3512773d2ee59569db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 01/83] fix: fail an instance properly when its error handler
 fails or cannot proceed

---
 instance/ind_instance.go | 85 ++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 56 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..17fb3a4 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -412,12 +412,8 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			// todo: useful for debugging
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if !taskInst.flowInst.isHandlingError {
-
-				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
-			}
-			// else what should we do?
+			taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -628,36 +624,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 
 		containerInst.releaseTask(taskInst.Task())
 	} else {
-		if containerInst.isHandlingError {
-			//fail
-			containerInst.SetStatus(model.FlowStatusFailed)
-
-			if containerInst != inst.Instance {
-				// Complete SubflowCreated trace
-				if containerInst.tracingCtx != nil {
-					_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-				}
-
-				//Finished Subflow with error
-				if containerInst != nil && containerInst.master != nil {
-					containerInst.master.RecordState(time.Now().UTC())
-				}
-				// spawned from task instance
-				host, ok := containerInst.host.(*TaskInst)
-
-				if ok {
-					host.returnError = err
-					inst.scheduleEval(host)
-				}
-			} else {
-				taskInst.appendErrorData(err)
-			}
-
-		} else {
-			taskInst.appendErrorData(err)
-			inst.HandleGlobalError(containerInst, err)
-		}
-		return
+		taskInst.appendErrorData(err)
+		inst.HandleGlobalError(containerInst, err)
 	}
 
 }
@@ -666,8 +634,8 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err error) {
 
 	if containerInst.isHandlingError {
-		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
+		// the error handler failed too, so the instance fails
+		inst.failInstance(containerInst, err)
 		return
 	}
 
@@ -681,7 +649,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
@@ -693,27 +661,32 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	} else {
 		// Print error message if no error handler
 		inst.logger.Error(err)
-		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.failInstance(containerInst, err)
+	}
+}
 
-		if containerInst != inst.Instance {
+// failInstance fails the specified instance and reports the error to its host
+func (inst *IndependentInstance) failInstance(containerInst *Instance, err error) {
 
-			// Complete SubflowCreated trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-			}
+	containerInst.returnError = err
+	containerInst.SetStatus(model.FlowStatusFailed)
 
-			if containerInst != nil && containerInst.master != nil {
-				containerInst.master.RecordState(time.Now().UTC())
-			}
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
+	if containerInst != inst.Instance {
 
-			if ok {
-				host.returnError = err
-				inst.scheduleEval(host)
-			}
-		} else {
-			inst.returnError = err
+		// Complete SubflowCreated trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
+		}
+
+		if containerInst.master != nil {
+			containerInst.master.RecordState(time.Now().UTC())
+		}
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.returnError = err
+			inst.scheduleEval(host)
 		}
 	}
 }
-- 
2.43.0


From ae1ab53b1f48445fd383089a39753e42fa80f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 02/83] fix: do not execute tasks of flows that have ended

---
 instance/ind_instance.go | 18 ++++++++++++++++++
 instance/instance.go     |  9 +++++++++
 instance/taskinst.go     | 15 +++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 17fb3a4..86ae0b9 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -417,6 +417,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	if !taskInst.isCurrent() {
+		// the flow ended or abandoned the task since it was scheduled
+		return
+	}
+
 	var err error
 	var evalResult model.EvalResult
 
@@ -428,6 +433,14 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		evalResult, err = behavior.Eval(taskInst)
 	}
 
+	if !taskInst.isCurrent() {
+		// the flow ended or abandoned the task while it was executing
+		if taskInst.traceContext != nil {
+			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
+		}
+		return
+	}
+
 	if err != nil {
 		//taskInst.returnError = err
 		inst.handleTaskError(behavior, taskInst, err)
@@ -473,6 +486,11 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 
 	containerInst := taskInst.flowInst
 
+	if containerInst.Status() != model.FlowStatusActive {
+		// the flow has already ended, so there is nothing left to complete
+		return
+	}
+
 	if taskInst.Status() == model.TaskStatusSkipped {
 		notifyFlow, taskEntries, propagateSkip = taskBehavior.Skip(taskInst)
 
diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..b0890b1 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -100,6 +100,15 @@ func (inst *Instance) FindOrCreateTaskInst(task *definition.Task) (taskInst *Tas
 	return taskInst, created
 }
 
+// getTaskInst returns the TaskInst of the task if the instance has one
+func (inst *Instance) getTaskInst(taskId string) *TaskInst {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.taskInsts[taskId]
+}
+
 // FindOrCreateLinkData finds an existing LinkInst or creates ones if not found for the
 // specified link the task environment
 func (inst *Instance) FindOrCreateLinkData(link *definition.Link) (linkInst *LinkInst, created bool) {
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..001ae4c 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -208,6 +208,21 @@ func (ti *TaskInst) Task() *definition.Task {
 	return ti.task
 }
 
+// isCurrent indicates if the task still takes part in the execution of its flow, it doesn't if the
+// flow (or one of the flows that host it) has ended or has released the task
+func (ti *TaskInst) isCurrent() bool {
+	for {
+		if ti.flowInst.Status() != model.FlowStatusActive || ti.flowInst.getTaskInst(ti.taskID) != ti {
+			return false
+		}
+		host, ok := ti.flowInst.host.(*TaskInst)
+		if !ok {
+			return true
+		}
+		ti = host
+	}
+}
+
 func (ti *TaskInst) FlowLogger() log.Logger {
 	return ti.flowInst.logger
 }
-- 
2.43.0


From 11ca96c8d8c9930af686303c0d42d023cfb91bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 03/83] fix: enter every task once and report failures of its
 settings mappings

---
 instance/ind_instance.go | 17 ++++++++++++++---
 instance/instance.go     | 15 +++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 86ae0b9..06c21cc 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -716,12 +716,22 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		defer inst.actSchedLock.Unlock()
 	}
 
+	handlingError := activeInst.isHandlingError
+
 	for _, taskEntry := range taskEntries {
+		if activeInst.Status() != model.FlowStatusActive || activeInst.isHandlingError != handlingError {
+			// the flow ended or moved on to its error handler, so the remaining tasks are abandoned
+			break
+		}
+		if activeInst.isReleased(taskEntry.Task) {
+			// the task was reached another way while entering the previous ones and is already done with
+			continue
+		}
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
-		if inst.concurrentExec && taskInst.scheduled {
-			//task is already scheduled by other goroutine. Lets skip this task
+		if taskInst.scheduled {
+			//task is already scheduled. Lets skip this task
 			continue
 		}
 		taskInst.id = taskInst.taskID
@@ -729,7 +739,8 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		if enterResult == model.EREval {
 			err := applySettingsMapper(taskInst)
 			if err != nil {
-				return err
+				inst.handleTaskError(behavior, taskInst, NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error()))
+				continue
 			}
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
diff --git a/instance/instance.go b/instance/instance.go
index b0890b1..7da3dd1 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -129,6 +129,21 @@ func (inst *Instance) FindOrCreateLinkData(link *definition.Link) (linkInst *Lin
 	return linkInst, created
 }
 
+// isReleased indicates if the task has been entered and released already, a task that is still to be
+// entered has a LinkInst for at least one of the links that lead to it
+func (inst *Instance) isReleased(task *definition.Task) bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	for _, link := range task.FromLinks() {
+		if _, ok := inst.linkInsts[link.ID()]; ok {
+			return false
+		}
+	}
+	return len(task.FromLinks()) > 0
+}
+
 func (inst *Instance) releaseTask(task *definition.Task) {
 	if inst.lock != nil {
 		inst.lock.Lock()
-- 
2.43.0


From 3c5a34d8505e54392c4aca3a74e5f8ba0ea0907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 04/83] fix: return the outputs of flows that end without an
 explicit return

---
 instance/ind_instance.go |  3 ++-
 instance/instance.go     | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 06c21cc..63ec7c0 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -538,7 +538,8 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			host, ok := containerInst.host.(*TaskInst)
 
 			if ok {
-				host.SetOutputs(containerInst.returnData)
+				returnData, _ := containerInst.GetReturnData()
+				host.SetOutputs(returnData)
 				// Reset error if any
 				host.returnError = nil
 				//Sub flow done
diff --git a/instance/instance.go b/instance/instance.go
index 7da3dd1..0c38aac 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -191,27 +191,29 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
+	returnData := inst.returnData
 
-		//construct returnData from instance attributes
+	if returnData == nil {
+
+		//construct returnData from instance attributes, it isn't kept since the attributes can still change
 		md := inst.flowDef.Metadata()
 
 		if md != nil && md.Output != nil {
 
-			inst.returnData = make(map[string]interface{})
+			returnData = make(map[string]interface{})
 			for name := range md.Output {
 				piAttr, exists := inst.attrs[name]
 				if exists {
-					inst.returnData[name] = piAttr
+					returnData[name] = piAttr
 				}
 				if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
+					returnData[name] = md.Output[name].Value()
 				}
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From 1da204d02d2f5cb14a07b1f3b66361a3b5c54e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 05/83] fix: keep the defaults of subflow inputs that are not
 mapped

---
 activity/subflow/activity.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/activity/subflow/activity.go b/activity/subflow/activity.go
index 5c16b2c..981bb65 100755
--- a/activity/subflow/activity.go
+++ b/activity/subflow/activity.go
@@ -94,7 +94,10 @@ func (a *SubFlowActivity) Eval(ctx activity.Context) (done bool, err error) {
 	if md.IOMetadata != nil {
 
 		for name := range md.Input {
-			input[name] = ctx.GetInput(name)
+			// inputs that aren't set are left out, so that the subflow uses their defaults
+			if value := ctx.GetInput(name); value != nil {
+				input[name] = value
+			}
 		}
 	}
 
-- 
2.43.0


From c27526c9c9a03aad6e4781b81d5cf70879c87fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 06/83] fix: report panics of link expressions as errors

---
 instance/taskinst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 001ae4c..3efb785 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -286,7 +286,7 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
+			if err == nil {
 				err = fmt.Errorf("%v", r)
 			}
 		}
-- 
2.43.0


From 0a60bf758bc13e43729c990ea20d8dd657b0519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 07/83] fix: continue loops over subflows with their next
 iteration

---
 model/simple/dowhilebehavior.go  | 8 ++++++--
 model/simple/iteratorbehavior.go | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..b5cf57b 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -63,9 +63,13 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 	defer dw.updateDoWhileIndex(ctx)
-	return dw.checkDoWhileCondition(ctx)
+	evalResult, err = dw.checkDoWhileCondition(ctx)
+	if evalResult == model.EvalRepeat {
+		// ready for its next iteration
+		ctx.SetStatus(model.TaskStatusReady)
+	}
+	return evalResult, err
 }
 
 func (dw *DoWhileTaskBehavior) checkDoWhileCondition(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..7acf93e 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -161,12 +161,13 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		// ready for its next iteration
+		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
 	}
 
-- 
2.43.0


From 1c0e6996f20c4d1dcb9f840703ef22dfc6033045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 08/83] fix: do not report the result of detached executions to
 the caller

---
 action.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index bb95e26..78cda53 100644
--- a/action.go
+++ b/action.go
@@ -344,6 +344,12 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	hasWork := true
 
+	done := handler.Done
+	if detachExecution {
+		// Nobody waits for the result of a detached execution, so it is not reported to the caller
+		handler = &detachedResultHandler{}
+	}
+
 	inst.SetResultHandler(handler)
 	if stateRecorder != nil {
 		//We don't need record step 0 if restart from activity
@@ -358,9 +364,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	go func() {
 		if detachExecution {
 			// In detached mode, no reply expected. So, notifying handler.
-			handler.Done()
+			done()
 		} else {
-			defer handler.Done()
+			defer done()
 		}
 
 		if retID {
@@ -445,6 +451,18 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
+// detachedResultHandler discards the results of detached executions
+type detachedResultHandler struct {
+}
+
+// HandleResult implements action.ResultHandler.HandleResult
+func (*detachedResultHandler) HandleResult(map[string]interface{}, error) {
+}
+
+// Done implements action.ResultHandler.Done
+func (*detachedResultHandler) Done() {
+}
+
 func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstance, assertType int) bool {
 
 	if !inst.HasInterceptor() {
-- 
2.43.0


From 2d16988e8807b51183a2780d3d210369b0c90302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 09/83] fix: refuse loop settings that cannot be converted
 instead of panicking or ignoring them

---
 definition/definition_ser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 010a65a..3187bc3 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -515,8 +515,11 @@ func getLoopCfg(settings map[string]interface{}, taskType string, ef expression.
 		loopConfig, err = getLoopCfgDef(setting, ef)
 	} else if setting, ok := settings["doWhile"]; ok {
 		loopConfig, err = getLoopCfgDef(setting, ef)
-		if accum, ok := settings["accumulate"]; loopConfig != nil && ok {
-			loopConfig.accumulate, _ = coerce.ToBool(accum)
+		if accum, ok := settings["accumulate"]; err == nil && loopConfig != nil && ok {
+			loopConfig.accumulate, err = coerce.ToBool(accum)
+			if err != nil {
+				return nil, fmt.Errorf("loop accumulate must be boolean")
+			}
 		}
 	} else {
 		loopConfig, err = getLoopCfgDef(settings, ef)
@@ -542,8 +545,11 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 
 	loopConf := &LoopConfig{}
 	condition, exist := settingMap["condition"]
-	if exist && len(condition.(string)) > 0 {
-		conditionStr := condition.(string)
+	conditionStr, isStr := condition.(string)
+	if exist && condition != nil && !isStr {
+		return nil, fmt.Errorf("loop condition must be an expression")
+	}
+	if len(conditionStr) > 0 {
 		if conditionStr[0] == '=' {
 			conditionStr = conditionStr[1:]
 		}
@@ -563,7 +569,7 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 	if exist && iterateOn != nil {
 		iteraterOnStr, ok := iterateOn.(string)
 		if ok {
-			if iteraterOnStr[0] == '=' {
+			if len(iteraterOnStr) > 0 && iteraterOnStr[0] == '=' {
 				iteraterOnStr = iteraterOnStr[1:]
 			}
 			conditionExpr, err := ef.NewExpr(iteraterOnStr)
@@ -594,7 +600,10 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 
 	accumulateOutput, ok := settingMap["accumulate"]
 	if ok {
-		loopConf.accumulate, _ = coerce.ToBool(accumulateOutput)
+		loopConf.accumulate, err = coerce.ToBool(accumulateOutput)
+		if err != nil {
+			return nil, fmt.Errorf("loop accumulate must be boolean")
+		}
 	}
 
 	if loopConf.condition == nil && loopConf.iterateOn == nil {
-- 
2.43.0


From 69bae3472a7be820bbeb95038fd23eb3f227c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 10/83] fix: do not evaluate the condition of a loop before its
 first iteration

---
 definition/definition_ser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 3187bc3..0c83bff 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -143,6 +143,22 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 	return def, nil
 }
 
+// settingsToMap returns the settings that are evaluated when the task is entered, the condition
+// of a loop can only be evaluated after an iteration
+func settingsToMap(settings map[string]interface{}, loopCfg *LoopConfig) map[string]interface{} {
+	if loopCfg == nil || loopCfg.condition == nil {
+		return settings
+	}
+
+	toMap := make(map[string]interface{}, len(settings))
+	for name, value := range settings {
+		if name != "condition" {
+			toMap[name] = value
+		}
+	}
+	return toMap
+}
+
 func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, error) {
 	var err error
 	task := &Task{}
@@ -169,7 +185,7 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		return nil, err
 	}
 
-	task.settingsMapper, err = mf.NewMapper(rep.Settings)
+	task.settingsMapper, err = mf.NewMapper(settingsToMap(rep.Settings, task.loopCfg))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 336f6a77c4e41d11b1d7d2a96165e831a100995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 11/83] fix: report doWhile conditions that are not boolean as
 task failures

---
 model/simple/dowhilebehavior.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index b5cf57b..7c5f3b9 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -1,6 +1,7 @@
 package simple
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/project-flogo/core/activity"
@@ -88,7 +89,11 @@ func (dw *DoWhileTaskBehavior) evaluateCondition(ctx model.TaskContext, conditio
 		if err != nil {
 			return model.EvalFail, err
 		}
-		if result.(bool) {
+		repeat, ok := result.(bool)
+		if !ok {
+			return model.EvalFail, fmt.Errorf("doWhile condition of task '%s' did not evaluate to a boolean: %v", ctx.Task().Name(), result)
+		}
+		if repeat {
 			delay := ctx.Task().LoopConfig().Delay()
 			if delay > 0 {
 				ctx.FlowLogger().Infof("Dowhile Task[%s] execution delaying for %d milliseconds...", ctx.Task().ID(), delay)
-- 
2.43.0


From c1af0355da245ccaa52a54a9b13b9ba0fcd6ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 12/83] fix: route panics while evaluating a task like its
 other failures

---
 instance/ind_instance.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 63ec7c0..de7af5f 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -426,11 +426,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	var evalResult model.EvalResult
 
 	if taskInst.status == model.TaskStatusWaiting {
-		evalResult, err = behavior.PostEval(taskInst)
+		evalResult, err = evalBehavior(behavior.PostEval, taskInst)
 	} else if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
 		return
 	} else {
-		evalResult, err = behavior.Eval(taskInst)
+		evalResult, err = evalBehavior(behavior.Eval, taskInst)
 	}
 
 	if !taskInst.isCurrent() {
@@ -476,6 +476,20 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	}
 }
 
+// evalBehavior evaluates the task, a panic (e.g. in an expression) is a failure of the task
+func evalBehavior(eval func(model.TaskContext) (model.EvalResult, error), taskInst *TaskInst) (evalResult model.EvalResult, err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			taskInst.logger.Errorf("unhandled Error executing task '%s' : %v", taskInst.task.ID(), r)
+			evalResult = model.EvalFail
+			err = NewActivityEvalError(taskInst.task.Name(), "unhandled", fmt.Sprintf("unhandled Error executing task '%s' : %v", taskInst.task.ID(), r))
+		}
+	}()
+
+	return eval(taskInst)
+}
+
 // handleTaskDone handles the completion of a task in the Flow Instance
 func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior, taskInst *TaskInst) {
 
-- 
2.43.0


From 35224c2c23707ece87946bde634d97570186fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 13/83] fix: report the failure of a flow that fails at its
 last allowed step

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 78cda53..df74e82 100644
--- a/action.go
+++ b/action.go
@@ -399,7 +399,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				if inst.TracingContext() != nil {
 					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..fcd3476 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -250,7 +250,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
-- 
2.43.0


From 33d36f89e1555be9a00cb06656e746f4f7106654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 14/83] fix: do not deadlock when a remote flow calls a remote
 flow

---
 instance/util.go      | 11 +------
 support/definition.go | 20 ++++++++++++
 support/manager.go    | 71 +++++++++++++++++++++++++++++++++++--------
 3 files changed, 80 insertions(+), 22 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index 1749626..8c05c2e 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -338,16 +338,7 @@ func applyOutputMapper(taskInst *TaskInst) (bool, error) {
 }
 
 func GetFlowIOMetadata(flowURI string) (*metadata.IOMetadata, error) {
-
-	def, _, err := support.GetDefinition(flowURI)
-	if err != nil {
-		return nil, err
-	}
-	if def == nil {
-		return nil, errors.New("unable to resolve subflow: " + flowURI)
-	}
-
-	return def.Metadata(), nil
+	return support.GetDefinitionMetadata(flowURI)
 }
 
 func StartSubFlow(ctx activity.Context, flowURI string, inputs map[string]interface{}) error {
diff --git a/support/definition.go b/support/definition.go
index 2eaa433..d72681c 100644
--- a/support/definition.go
+++ b/support/definition.go
@@ -3,6 +3,7 @@ package support
 import (
 	"fmt"
 	"github.com/project-flogo/core/app/resource"
+	"github.com/project-flogo/core/data/metadata"
 	"github.com/project-flogo/flow/definition"
 	"strings"
 )
@@ -44,6 +45,25 @@ func GetDefinition(flowURI string) (*definition.Definition, bool, error) {
 	return nil, false, nil
 }
 
+// GetDefinitionMetadata gets the metadata of the specified flow. The flow itself might not be available
+// yet, a remote flow that calls itself for example refers to its own metadata when it is created
+func GetDefinitionMetadata(flowURI string) (*metadata.IOMetadata, error) {
+
+	if !strings.HasPrefix(flowURI, resource.UriScheme) {
+		return flowManager.GetFlowMetadata(flowURI)
+	}
+
+	def, _, err := GetDefinition(flowURI)
+	if err != nil {
+		return nil, err
+	}
+	if def == nil {
+		return nil, fmt.Errorf("unable to resolve subflow: %s", flowURI)
+	}
+
+	return def.Metadata(), nil
+}
+
 func SetResource(resources []*resource.Config) error {
 	for _, resConfig := range resources {
 		resType, err := resource.GetTypeFromID(resConfig.ID)
diff --git a/support/manager.go b/support/manager.go
index 558495d..084c82c 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/project-flogo/core/data/metadata"
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/core/support/log"
 	"github.com/project-flogo/flow/definition"
@@ -23,8 +24,10 @@ const (
 
 type FlowManager struct {
 	//todo switch to cache
+	loadMu       sync.Mutex // held while a flow is materialized
 	rfMu         sync.Mutex // protects the flow maps
 	remoteFlows  map[string]*definition.Definition
+	remoteReps   map[string]*definition.DefinitionRep // fetched, but not materialized yet
 	flowProvider definition.Provider
 }
 
@@ -43,31 +46,75 @@ func NewFlowManager(flowProvider definition.Provider) *FlowManager {
 
 func (fm *FlowManager) GetFlow(uri string) (*definition.Definition, error) {
 
+	fm.loadMu.Lock()
+	defer fm.loadMu.Unlock()
+
+	flow, defRep, err := fm.fetchFlow(uri)
+	if err != nil || flow != nil {
+		return flow, err
+	}
+
+	// rfMu isn't held here, since the subflow activities of the flow get the metadata of the flows they call
+	flow, err = materializeFlow(defRep)
+
 	fm.rfMu.Lock()
 	defer fm.rfMu.Unlock()
 
+	delete(fm.remoteReps, uri)
+	if err != nil {
+		return nil, err
+	}
+
 	if fm.remoteFlows == nil {
 		fm.remoteFlows = make(map[string]*definition.Definition)
 	}
+	fm.remoteFlows[uri] = flow
 
-	flow, exists := fm.remoteFlows[uri]
+	return flow, nil
+}
 
-	if !exists {
+// GetFlowMetadata gets the metadata of the specified flow, without materializing the flow
+func (fm *FlowManager) GetFlowMetadata(uri string) (*metadata.IOMetadata, error) {
 
-		defRep, err := fm.flowProvider.GetFlow(uri)
-		if err != nil {
-			return nil, err
-		}
+	flow, defRep, err := fm.fetchFlow(uri)
+	if err != nil {
+		return nil, err
+	}
+	if flow != nil {
+		return flow.Metadata(), nil
+	}
 
-		flow, err = materializeFlow(defRep)
-		if err != nil {
-			return nil, err
-		}
+	return defRep.Metadata, nil
+}
+
+// fetchFlow gets the specified flow if it has been materialized already, its representation otherwise
+func (fm *FlowManager) fetchFlow(uri string) (*definition.Definition, *definition.DefinitionRep, error) {
 
-		fm.remoteFlows[uri] = flow
+	fm.rfMu.Lock()
+	defer fm.rfMu.Unlock()
+
+	if flow, exists := fm.remoteFlows[uri]; exists {
+		return flow, nil, nil
 	}
 
-	return flow, nil
+	if defRep, exists := fm.remoteReps[uri]; exists {
+		return nil, defRep, nil
+	}
+
+	defRep, err := fm.flowProvider.GetFlow(uri)
+	if err != nil {
+		return nil, nil, err
+	}
+	if defRep == nil {
+		return nil, nil, fmt.Errorf("no flow definition found at uri '%s'", uri)
+	}
+
+	if fm.remoteReps == nil {
+		fm.remoteReps = make(map[string]*definition.DefinitionRep)
+	}
+	fm.remoteReps[uri] = defRep
+
+	return nil, defRep, nil
 }
 
 type BasicRemoteFlowProvider struct {
-- 
2.43.0


From a4045d5e93d63b5a767b7cd583986e0244885a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 15/83] fix: do not share the names read from the environment
 between runs unguarded

---
 support/env.go | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/support/env.go b/support/env.go
index 540332f..dda34eb 100644
--- a/support/env.go
+++ b/support/env.go
@@ -20,25 +20,15 @@ const (
 	PrioritizeExprLinkDefault bool = false
 )
 
-var username, hostName, appName, appVersion string
-
 func GetUserName() string {
-	if len(username) > 0 {
-		return username
-	}
-	username = os.Getenv(UserName)
-	if len(username) > 0 {
+	if username := os.Getenv(UserName); len(username) > 0 {
 		return username
 	}
 	return "flogo"
 }
 
 func GetHostId() string {
-	if len(hostName) > 0 {
-		return hostName
-	}
-	hostName = os.Getenv(HostName)
-	if len(hostName) > 0 {
+	if hostName := os.Getenv(HostName); len(hostName) > 0 {
 		return hostName
 	}
 	h, _ := os.Hostname()
@@ -46,25 +36,17 @@ func GetHostId() string {
 }
 
 func GetAppName() string {
-	if len(appName) > 0 {
+	if appName := os.Getenv(AppName); len(appName) > 0 {
 		return appName
 	}
-	appName = os.Getenv(AppName)
-	if len(appName) <= 0 {
-		return engine.GetAppName()
-	}
-	return appName
+	return engine.GetAppName()
 }
 
 func GetAppVerison() string {
-	if len(appVersion) > 0 {
+	if appVersion := os.Getenv(AppVersion); len(appVersion) > 0 {
 		return appVersion
 	}
-	appVersion = os.Getenv(AppVersion)
-	if len(appVersion) <= 0 {
-		return engine.GetAppVersion()
-	}
-	return appVersion
+	return engine.GetAppVersion()
 }
 
 func GetPropagateSkip() bool {
-- 
2.43.0


From f37d101ebd4b16b91a73a10cc4095816fc03e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 16/83] fix: post one event for each status change of a task

---
 instance/taskinst.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 3efb785..c978793 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -173,9 +173,12 @@ func (ti *TaskInst) Status() model.TaskStatus {
 
 // SetStatus implements flow.TaskContext.SetStatus
 func (ti *TaskInst) SetStatus(status model.TaskStatus) {
+	changed := ti.status != status
 	ti.status = status
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
-	postTaskEvent(ti)
+	if changed {
+		postTaskEvent(ti)
+	}
 }
 
 // UpdateTaskToTracker update task to tracker
-- 
2.43.0


From 45cea7f3658c513788e5a77eb8a7ff8ce7aba76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 17/83] fix: report the error of a failed task in its event

---
 instance/ind_instance.go         | 1 +
 model/simple/dowhilebehavior.go  | 2 --
 model/simple/iteratorbehavior.go | 2 --
 3 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index de7af5f..f64477f 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -637,6 +637,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
 	}
 	// Set task status to failed for subflow activity
+	taskInst.returnError = err
 	taskInst.SetStatus(model.TaskStatusFailed)
 
 	inst.addActivityToCoverage(taskInst, err)
diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 7c5f3b9..e91bc39 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -39,7 +39,6 @@ func (dw *DoWhileTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Eva
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
@@ -61,7 +60,6 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 	defer dw.updateDoWhileIndex(ctx)
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 7acf93e..abe8a60 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -127,7 +127,6 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 		if err != nil {
 			ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 			ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-			ctx.SetStatus(model.TaskStatusFailed)
 			return model.EvalFail, err
 		}
 
@@ -158,7 +157,6 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
-- 
2.43.0


From 51c8017f88cac8b18b8bc08b233f6db24e5431b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 18/83] fix: report the data a flow returned in its completed
 event

---
 instance/flowevents.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 764886d..2af4060 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -92,12 +92,14 @@ func postFlowEvent(inst *Instance) {
 		if fe.status != event.CREATED {
 			attrs := inst.attrs
 			outData, _ := inst.GetReturnData()
+			if fe.status == event.COMPLETED {
+				for name, value := range outData {
+					fe.output[name] = value
+				}
+			}
 			if attrs != nil && len(attrs) > 0 {
 				for name, attVal := range attrs {
 					if outData != nil && outData[name] != nil {
-						if fe.status == event.COMPLETED {
-							fe.output[name] = attVal
-						}
 						// Since same attribute map is used for input and output, filter output attributes
 						continue
 					}
-- 
2.43.0


From e0371429eb23dd9d9dc7ddbd892f77683e0181cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 19/83] fix: name the calling flow as the parent of a nested
 subflow

---
 instance/flowevents.go   | 7 ++-----
 instance/ind_instance.go | 6 +++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 2af4060..72b08cb 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -74,13 +74,10 @@ func postFlowEvent(inst *Instance) {
 		fe.time = time.Now()
 		fe.name = inst.Name()
 		fe.id = inst.ID()
-		if inst.master != nil && inst.master.id != inst.ID() {
-			fe.parentName = inst.master.Name()
-			fe.parentId = inst.master.ID()
-		}
-
 		taskInst, ok := inst.host.(*TaskInst)
 		if ok {
+			fe.parentName = taskInst.flowInst.Name()
+			fe.parentId = taskInst.flowInst.ID()
 			fe.hostTask = event.HostTask{TaskName: taskInst.Name(), TaskInstanceId: taskInst.InstanceId()}
 		}
 
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index f64477f..b5b32bc 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -972,9 +972,9 @@ func (inst *Instance) SpanConfig() trace.Config {
 	config.Tags = make(map[string]interface{})
 	config.Tags["flow_id"] = inst.ID()
 	config.Tags["flow_name"] = inst.Name()
-	if inst.master != nil && inst.master.id != inst.ID() {
-		config.Tags["parent_flow_id"] = inst.master.ID()
-		config.Tags["parent_flow_name"] = inst.master.Name()
+	if host, ok := inst.host.(*TaskInst); ok {
+		config.Tags["parent_flow_id"] = host.flowInst.ID()
+		config.Tags["parent_flow_name"] = host.flowInst.Name()
 	}
 	return config
 }
-- 
2.43.0


From cc24fe45552bc7538d2507b899f61a7732168fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 20/83] fix: post the events of tasks whose activity has no
 input and output metadata

---
 instance/taskevents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/taskevents.go b/instance/taskevents.go
index 46a30f8..f812548 100644
--- a/instance/taskevents.go
+++ b/instance/taskevents.go
@@ -129,7 +129,7 @@ func postTaskEvent(taskInstance *TaskInst) {
 
 			actConfig := taskInstance.Task().ActivityConfig()
 
-			if actConfig != nil && actConfig.Activity != nil && actConfig.Activity.Metadata() != nil {
+			if actConfig != nil && actConfig.Activity != nil && actConfig.Activity.Metadata() != nil && actConfig.Activity.Metadata().IOMetadata != nil {
 				metadata := actConfig.Activity.Metadata()
 				if metadata.Input != nil && len(metadata.Input) > 0 && taskInstance.Task().IsScope() {
 
-- 
2.43.0


From 19eec66a20ee7725a003c0b0a46f46cb5b445f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 21/83] fix: treat a panic in the settings of a task as a
 failure of the task

---
 instance/util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index 8c05c2e..c901aef 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -23,7 +23,13 @@ import (
 
 const EventIdAttr = "event.id"
 
-func applySettingsMapper(taskInst *TaskInst) error {
+func applySettingsMapper(taskInst *TaskInst) (err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("unhandled Error evaluating settings of task '%s' : %v", taskInst.task.ID(), r)
+		}
+	}()
 
 	// get the input mapper
 	settingsMapper := taskInst.task.SettingsMapper()
@@ -32,7 +38,6 @@ func applySettingsMapper(taskInst *TaskInst) error {
 
 		taskInst.logger.Debug("Applying SettingsMapper")
 
-		var err error
 		taskInst.settings, err = settingsMapper.Apply(taskInst.flowInst)
 
 		if err != nil {
-- 
2.43.0


From 72496d73b599dcd6367d6d00ccc9dbd45dc40329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 22/83] fix: cancel the subflows of tasks that are abandoned

---
 instance/ind_instance.go | 57 ++++++++++++++++++++++++++++++++++++----
 instance/instance.go     | 15 +++++++++++
 2 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b5b32bc..4c37d58 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -539,6 +539,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		flowBehavior := inst.flowModel.GetFlowBehavior()
 		flowBehavior.Done(containerInst)
 		flowDone = true
+		inst.abandonTasks(containerInst)
 		containerInst.SetStatus(model.FlowStatusCompleted)
 
 		if containerInst != inst.Instance {
@@ -577,11 +578,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 			//}
 
 			// flow has completed so remove it
-			if inst.subFlowLock != nil {
-				inst.subFlowLock.Lock()
-				defer inst.subFlowLock.Unlock()
-			}
-			delete(inst.subflows, containerInst.subflowId)
+			inst.removeSubflow(containerInst)
 		} else {
 			containerInst.master.GetChanges().FlowDone(inst)
 		}
@@ -683,6 +680,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
+		inst.abandonTasks(containerInst)
 		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
@@ -703,6 +701,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 func (inst *IndependentInstance) failInstance(containerInst *Instance, err error) {
 
 	containerInst.returnError = err
+	inst.abandonTasks(containerInst)
 	containerInst.SetStatus(model.FlowStatusFailed)
 
 	if containerInst != inst.Instance {
@@ -722,7 +721,55 @@ func (inst *IndependentInstance) failInstance(containerInst *Instance, err error
 			host.returnError = err
 			inst.scheduleEval(host)
 		}
+
+		// flow has failed so remove it
+		inst.removeSubflow(containerInst)
+	}
+}
+
+// abandonTasks ends what the tasks of the specified instance are still waiting for, since the instance
+// ended or moved on to its error handler
+func (inst *IndependentInstance) abandonTasks(containerInst *Instance) {
+
+	for _, taskInst := range containerInst.waitingTaskInsts() {
+		for _, subflow := range inst.hostedSubflows(taskInst) {
+			if subflow.Status() == model.FlowStatusActive {
+				inst.abandonTasks(subflow)
+				subflow.SetStatus(model.FlowStatusCancelled)
+				if subflow.tracingCtx != nil {
+					_ = trace.GetTracer().FinishTrace(subflow.tracingCtx, nil)
+				}
+			}
+			inst.removeSubflow(subflow)
+		}
+		if taskInst.traceContext != nil {
+			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, nil)
+			taskInst.traceContext = nil
+		}
+	}
+}
+
+// hostedSubflows returns the subflows that were started by the specified task
+func (inst *IndependentInstance) hostedSubflows(taskInst *TaskInst) []*Instance {
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
+	}
+	var subflows []*Instance
+	for _, subflow := range inst.subflows {
+		if subflow.host == taskInst {
+			subflows = append(subflows, subflow)
+		}
+	}
+	return subflows
+}
+
+func (inst *IndependentInstance) removeSubflow(subflow *Instance) {
+	if inst.subFlowLock != nil {
+		inst.subFlowLock.Lock()
+		defer inst.subFlowLock.Unlock()
 	}
+	delete(inst.subflows, subflow.subflowId)
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
diff --git a/instance/instance.go b/instance/instance.go
index 0c38aac..88e3872 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -109,6 +109,21 @@ func (inst *Instance) getTaskInst(taskId string) *TaskInst {
 	return inst.taskInsts[taskId]
 }
 
+// waitingTaskInsts returns the TaskInsts that wait for something, e.g. for a subflow
+func (inst *Instance) waitingTaskInsts() []*TaskInst {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	var taskInsts []*TaskInst
+	for _, taskInst := range inst.taskInsts {
+		if taskInst.status == model.TaskStatusWaiting {
+			taskInsts = append(taskInsts, taskInst)
+		}
+	}
+	return taskInsts
+}
+
 // FindOrCreateLinkData finds an existing LinkInst or creates ones if not found for the
 // specified link the task environment
 func (inst *Instance) FindOrCreateLinkData(link *definition.Link) (linkInst *LinkInst, created bool) {
-- 
2.43.0


From f92f3d21eeb9d84e0d9a6ccea8a22c2038059201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 23/83] fix: fail the instance that exceeds the step limit

---
 action.go                | 16 +++++-----------
 instance/ind_instance.go |  5 +++++
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/action.go b/action.go
index df74e82..b3d4121 100644
--- a/action.go
+++ b/action.go
@@ -381,13 +381,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent flow execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil && inst.Status() != model.FlowStatusCompleted {
+			if err != nil && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+				// the execution can't go on, so the instance fails without running its error handler
+				inst.Fail(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -401,11 +398,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			}
 			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
-				handler.HandleResult(nil, err)
-				return
+				// the execution can't go on, so the instance fails without running its error handler
+				inst.Fail(err)
 			}
 		}
 
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4c37d58..a5da047 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -697,6 +697,11 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	}
 }
 
+// Fail fails the instance without running its error handler
+func (inst *IndependentInstance) Fail(err error) {
+	inst.failInstance(inst.Instance, err)
+}
+
 // failInstance fails the specified instance and reports the error to its host
 func (inst *IndependentInstance) failInstance(containerInst *Instance, err error) {
 
-- 
2.43.0


From 4698c905ce98cf916f38dad0b9148982c2ea9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 24/83] fix: do not fail subflows whose span could not be
 started

---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index a5da047..dd98390 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -181,7 +181,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	_ = toStart.SetValue(flowCtxPrefix+appVersion, flowsupport.GetAppVerison())
 
 	// If tracing is enabled, inject traceId and spanId in flow context
-	if trace.Enabled() {
+	if toStart.tracingCtx != nil {
 		_ = toStart.SetValue(flowCtxPrefix+traceId, toStart.tracingCtx.TraceID())
 		_ = toStart.SetValue(flowCtxPrefix+spanId, toStart.tracingCtx.SpanID())
 	} else {
@@ -192,7 +192,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	if inst.logger.DebugEnabled() {
 		inst.logger.Debugf("Flow Name: %s", toStart.Name())
 		inst.logger.Debugf("Flow Id: %s", toStart.ID())
-		if trace.Enabled() {
+		if toStart.tracingCtx != nil {
 			inst.logger.Debugf("Trace Id: %s", toStart.tracingCtx.TraceID())
 			inst.logger.Debugf("Span Id: %s", toStart.tracingCtx.SpanID())
 		}
-- 
2.43.0


From 278d61446cf7b32e542cd176db9cb3c48f72dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 25/83] fix: do not fail runs with an interceptor that does not
 ask for the coverage

---
 support/interceptor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..e7ecd35 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -55,14 +55,26 @@ func (pi *Interceptor) GetTaskInterceptor(taskID string) *TaskInterceptor {
 }
 
 func (pi *Interceptor) AddToActivityCoverage(coverage ActivityCoverage) {
+	if pi.Coverage == nil {
+		// the coverage was not asked for
+		return
+	}
 	pi.Coverage.ActivityCoverage = append(pi.Coverage.ActivityCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToSubFlowCoverage(coverage SubFlowCoverage) {
+	if pi.Coverage == nil {
+		// the coverage was not asked for
+		return
+	}
 	pi.Coverage.SubFlowCoverage = append(pi.Coverage.SubFlowCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToLinkCoverage(coverage TransitionCoverage) {
+	if pi.Coverage == nil {
+		// the coverage was not asked for
+		return
+	}
 	pi.Coverage.TransitionCoverage = append(pi.Coverage.TransitionCoverage, &coverage)
 }
 
-- 
2.43.0


From 1e859a0ac2988d199a78e0db233455a625ed9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 26/83] fix: report one result for failed flows whose failure
 is asserted

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index b3d4121..c10d980 100644
--- a/action.go
+++ b/action.go
@@ -425,8 +425,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
-- 
2.43.0


From 7741220ddb95fa3a01ef847a42db16f9fab9c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 27/83] fix: attribute the coverage of subflow tasks to the
 subflow's main part or error handler

---
 instance/ind_instance.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index dd98390..b706d8b 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -834,8 +834,8 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 	if inst.GetInterceptor().CollectIO {
 		outputs := taskInst.outputs
 		if outputs == nil {
-			if inst.returnData != nil {
-				outputs = inst.returnData
+			if taskInst.flowInst.returnData != nil {
+				outputs = taskInst.flowInst.returnData
 			}
 		}
 		coverage = flowsupport.ActivityCoverage{
@@ -846,13 +846,13 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 			Outputs:      outputs,
 			Error:        errorObj,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	} else {
 		coverage = flowsupport.ActivityCoverage{
 			ActivityName: taskInst.taskID,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	}
 
-- 
2.43.0


From d6eac5a8b14d43b09eed51fa5219cd6fdbc42b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 28/83] fix: mock activities without input and output metadata

---
 instance/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index c901aef..b8d2fc1 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -100,7 +100,10 @@ func applyInputInterceptor(taskInst *TaskInst) bool {
 
 			if len(taskInterceptor.Inputs) > 0 {
 				// override input attributes
-				mdInputs := taskInst.task.ActivityConfig().Activity.Metadata().Input
+				var mdInputs map[string]data.TypedValue
+				if md := taskInst.task.ActivityConfig().Activity.Metadata(); md != nil && md.IOMetadata != nil {
+					mdInputs = md.Input
+				}
 				var err error
 				for name, value := range taskInterceptor.Inputs {
 
@@ -238,7 +241,10 @@ func applyOutputInterceptor(taskInst *TaskInst) error {
 		if taskInterceptor != nil && len(taskInterceptor.Outputs) > 0 {
 
 			if taskInterceptor.Type == support.MockActivity {
-				mdOutput := taskInst.task.ActivityConfig().Activity.Metadata().Output
+				var mdOutput map[string]data.TypedValue
+				if md := taskInst.task.ActivityConfig().Activity.Metadata(); md != nil && md.IOMetadata != nil {
+					mdOutput = md.Output
+				}
 				var err error
 
 				// override output attributes
-- 
2.43.0


From 414d9cef61a9f10e6bc69677e204fb2b800c7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 29/83] fix: refuse flows with duplicate task ids

---
 definition/definition_ser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 0c83bff..01d140b 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -81,6 +81,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 			if err != nil {
 				return nil, fmt.Errorf("error creating task [%s] in flow [%s]: %s", taskRep.ID, rep.Name, err.Error())
 			}
+			if _, exists := def.tasks[task.id]; exists {
+				return nil, fmt.Errorf("error creating task [%s] in flow [%s]: duplicate task id", taskRep.ID, rep.Name)
+			}
 			def.tasks[task.id] = task
 		}
 	}
@@ -120,6 +123,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 				if err != nil {
 					return nil, fmt.Errorf("error creating task [%s] in flow [%s]'s error handler:%s", taskRep.ID, rep.Name, err.Error())
 				}
+				if _, exists := errorHandler.tasks[task.id]; exists {
+					return nil, fmt.Errorf("error creating task [%s] in flow [%s]'s error handler: duplicate task id", taskRep.ID, rep.Name)
+				}
 				errorHandler.tasks[task.id] = task
 			}
 		}
-- 
2.43.0


From fee9a8c560cee517d25b011f6cef681591d9194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 30/83] fix: refuse flows whose metadata cannot be decoded
 instead of panicking

---
 support/resource.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/resource.go b/support/resource.go
index 6cb1d98..375f3c0 100644
--- a/support/resource.go
+++ b/support/resource.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/project-flogo/core/app/resource"
+	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/flow/definition"
 )
 
@@ -15,13 +16,17 @@ const (
 type FlowLoader struct {
 }
 
-func (*FlowLoader) LoadResource(config *resource.Config) (*resource.Resource, error) {
+func (*FlowLoader) LoadResource(config *resource.Config) (res *resource.Resource, err error) {
+
+	// the metadata of a malformed flow can make its decoding panic
+	defer support.HandlePanic("LoadResource", &err)
+
 	var flowDefBytes []byte
 
 	flowDefBytes = config.Data
 
 	var defRep *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &defRep)
+	err = json.Unmarshal(flowDefBytes, &defRep)
 	if err != nil {
 		return nil, fmt.Errorf("error loading flow resource with id '%s': %s", config.ID, err.Error())
 	}
-- 
2.43.0


From 10a2768044c504528fb981d8c397ac888275cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 31/83] fix: read compressed flow files, do not panic on files
 of less than three bytes

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 084c82c..50d4256 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -138,7 +138,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) > 1 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From 6c423b5bf019a8850d83ced9db9e2f7178479dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 32/83] fix: report flow URIs that cannot be requested instead
 of panicking

---
 support/manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/manager.go b/support/manager.go
index 50d4256..75b649a 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -152,6 +152,11 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 	} else if strings.HasPrefix(flowURI, uriSchemeHttp) {
 		req, err := http.NewRequest("GET", flowURI, nil)
+		if err != nil {
+			reqErr := fmt.Errorf("error getting flow with uri '%s', %s", flowURI, err.Error())
+			logger.Errorf(reqErr.Error())
+			return nil, reqErr
+		}
 		client := &http.Client{}
 		resp, err := client.Do(req)
 		if err != nil {
-- 
2.43.0


From cc010efa162859f047d54ebdb19a500affa861be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 33/83] fix: report flows with corrupt base64 content

---
 support/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 75b649a..b153580 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -210,7 +210,10 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 
 func decodeAndUnzip(encoded string) ([]byte, error) {
 
-	decoded, _ := base64.StdEncoding.DecodeString(encoded)
+	decoded, err := base64.StdEncoding.DecodeString(encoded)
+	if err != nil {
+		return nil, err
+	}
 	return unzip(decoded)
 }
 
-- 
2.43.0


From eca50c61194d6cef8c06c253bcbc9607c4a91cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 34/83] fix: report fetched flows whose metadata cannot be
 decoded instead of panicking

---
 support/manager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/manager.go b/support/manager.go
index b153580..83cc9be 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -121,7 +121,10 @@ type BasicRemoteFlowProvider struct {
 	logger log.Logger
 }
 
-func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.DefinitionRep, error) {
+func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (defRep *definition.DefinitionRep, err error) {
+
+	// the metadata of a malformed flow can make its decoding panic
+	defer support.HandlePanic("GetFlow", &err)
 
 	logger := fp.logger
 
@@ -199,7 +202,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 	}
 
 	var flow *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &flow)
+	err = json.Unmarshal(flowDefBytes, &flow)
 	if err != nil {
 		logger.Errorf(err.Error())
 		return nil, fmt.Errorf("error marshalling flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From 9471b6b04b0b13bddd41c02858b5e8ddc0fc8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 35/83] fix: complete flows and error handlers without tasks

---
 instance/ind_instance.go | 41 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b706d8b..7c36c8c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -253,6 +253,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 			//todo review how we should handle an error encountered here
 			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
 		}
+		if len(taskEntries) == 0 {
+			// there is nothing to execute
+			inst.completeInstance(toStart)
+		}
 	}
 
 	return ok
@@ -536,9 +540,26 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 
 	if flowDone || containerInst.forceCompletion {
 		//flow completed or return was called explicitly, so lets complete the flow
+		inst.completeInstance(containerInst)
+	} else if !propagateSkip {
+		// not done, so enter tasks specified by the Done behavior call
+		err := inst.enterTasks(containerInst, taskEntries)
+		if err != nil {
+			//todo review how we should handle an error encountered here
+			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
+		}
+	}
+
+	// task is done, so we can release it
+	containerInst.releaseTask(task)
+}
+
+// completeInstance completes the specified instance and reports its return data to its host
+func (inst *IndependentInstance) completeInstance(containerInst *Instance) {
+
+	if containerInst.Status() == model.FlowStatusActive {
 		flowBehavior := inst.flowModel.GetFlowBehavior()
 		flowBehavior.Done(containerInst)
-		flowDone = true
 		inst.abandonTasks(containerInst)
 		containerInst.SetStatus(model.FlowStatusCompleted)
 
@@ -582,21 +603,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		} else {
 			containerInst.master.GetChanges().FlowDone(inst)
 		}
-
-	} else {
-
-		if !propagateSkip {
-			// not done, so enter tasks specified by the Done behavior call
-			err := inst.enterTasks(containerInst, taskEntries)
-			if err != nil {
-				//todo review how we should handle an error encountered here
-				log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
-			}
-		}
 	}
-
-	// task is done, so we can release it
-	containerInst.releaseTask(task)
 }
 
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
@@ -689,6 +696,10 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 			//todo review how we should handle an error encountered here
 			log.RootLogger().Errorf("encountered error when entering tasks: %v", err)
 		}
+		if len(taskEntries) == 0 {
+			// there is nothing to execute
+			inst.completeInstance(containerInst)
+		}
 
 	} else {
 		// Print error message if no error handler
-- 
2.43.0


From f8e903658ba0ed176e2444c2c5bae0d5174786cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 36/83] fix: do not record the state of instances without a
 recorder

---
 instance/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..df4a4bb 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,11 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil || inst.instRecorder.externalRecorder == nil {
+		// there is nothing to record the state with
+		return nil
+	}
+
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
-- 
2.43.0


From 16420eaade4ab51e0e9e9c178803a40a52d73730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 37/83] fix: report errors of the input mappings of flow
 packages

---
 ondemand/action.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index fcd3476..b137870 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -287,7 +287,5 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 
 	inScope := data.NewSimpleScope(inputs, nil)
 
-	out, _ := m.Apply(inScope)
-
-	return out, nil
+	return m.Apply(inScope)
 }
-- 
2.43.0


From 341105ceaa29e5682d65798b396d5f13e5bb5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 38/83] fix: run flow packages without input mappings

---
 ondemand/action.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ondemand/action.go b/ondemand/action.go
index b137870..bdc169a 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -285,6 +285,11 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 		return nil, err
 	}
 
+	if m == nil {
+		// there is nothing to map
+		return nil, nil
+	}
+
 	inScope := data.NewSimpleScope(inputs, nil)
 
 	return m.Apply(inScope)
-- 
2.43.0


From 54d489994ed548580e7a3a0ea9a9e6df6f4efa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 39/83] fix: reject flow packages of an unsupported type
 instead of panicking

---
 ondemand/action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index bdc169a..fc7196a 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -179,7 +179,10 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if exists {
 
-		raw := fpAttr.(json.RawMessage)
+		raw, ok := fpAttr.(json.RawMessage)
+		if !ok {
+			return fmt.Errorf("unsupported flow package type: %T", fpAttr)
+		}
 		err := json.Unmarshal(raw, flowPackage)
 		if err != nil {
 			return err
-- 
2.43.0


From f504fb1f90540d207aac00407290134136b172ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 40/83] fix: answer with the id of the on-demand flow instance

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index fc7196a..38976d9 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -231,7 +231,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
-- 
2.43.0


From 39bda4d9bbc43f87ab723a33bbf8a98f7f0d5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 41/83] fix: fail on-demand flow instances that reach the step
 limit

---
 ondemand/action.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 38976d9..7f58ed6 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -239,8 +239,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		if instance.IsConcurrentTaskExcutionEnabled() {
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
-			if err != nil {
-				handler.HandleResult(nil, err)
+			if err != nil && inst.Status() < model.FlowStatusCompleted {
+				// the execution can't go on, so the instance fails without running its error handler
+				inst.Fail(err)
 			}
 		} else {
 			for hasWork && inst.Status() < model.FlowStatusCompleted && stepCount < maxStepCount {
@@ -254,7 +255,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 				}
 			}
 			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
-				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
+				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
+				// the execution can't go on, so the instance fails without running its error handler
+				inst.Fail(err)
 			}
 		}
 
-- 
2.43.0


From 460b581aba8a595e4445b0ba4a5d6b84c72b8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 42/83] fix: clean up the activities of the error handler

---
 definition/definition.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 8f6808f..ad4fac6 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -84,12 +84,16 @@ func (d *Definition) GetAttr(attrName string) (attr *data.Attribute, exists bool
 }
 
 func (d *Definition) Cleanup() error {
-	for id, task := range d.tasks {
+	tasks := d.Tasks()
+	if d.errorHandler != nil {
+		tasks = append(tasks, d.errorHandler.Tasks()...)
+	}
+	for _, task := range tasks {
 		if !activity.IsSingleton(task.activityCfg.Activity) {
 			if needsDisposal, ok := task.activityCfg.Activity.(support.NeedsCleanup); ok {
 				err := needsDisposal.Cleanup()
 				if err != nil {
-					log.RootLogger().Warnf("Error disposing activity '%s' : ", id, err)
+					log.RootLogger().Warnf("Error disposing activity '%s' : %v", task.ID(), err)
 				}
 			}
 		}
-- 
2.43.0


From fd08f7944ec34f11fe3e80c79557631d67fabd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 43/83] fix: reconfigure and dispose flows that have tasks
 without an activity

---
 definition/definition.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index ad4fac6..0b9a430 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -89,6 +89,9 @@ func (d *Definition) Cleanup() error {
 		tasks = append(tasks, d.errorHandler.Tasks()...)
 	}
 	for _, task := range tasks {
+		if task.activityCfg == nil {
+			continue
+		}
 		if !activity.IsSingleton(task.activityCfg.Activity) {
 			if needsDisposal, ok := task.activityCfg.Activity.(support.NeedsCleanup); ok {
 				err := needsDisposal.Cleanup()
@@ -121,8 +124,11 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Main flow tasks
 	if def.Tasks != nil {
 		for _, taskRep := range def.Tasks {
+			if taskRep == nil {
+				continue
+			}
 			task := d.tasks[taskRep.ID]
-			if task != nil && len(task.activityCfg.settings) > 0 {
+			if task != nil && task.activityCfg != nil && len(task.activityCfg.settings) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
 				if err != nil {
 					log.RootLogger().Errorf("%s", err.Error())
@@ -134,8 +140,11 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 	// Error handler tasks
 	if def.ErrorHandler != nil && d.errorHandler != nil {
 		for _, taskRep := range def.ErrorHandler.Tasks {
+			if taskRep == nil {
+				continue
+			}
 			task := d.errorHandler.tasks[taskRep.ID]
-			if task != nil && len(task.activityCfg.settings) > 0 {
+			if task != nil && task.activityCfg != nil && len(task.activityCfg.settings) > 0 {
 				err = task.reconfigureTaskSettings(taskRep, ef)
 				if err != nil {
 					log.RootLogger().Errorf("%s", err.Error())
@@ -150,6 +159,10 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 
 func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factory) error {
 	var err error
+	if taskRep.ActivityCfgRep == nil {
+		// no settings are given
+		return nil
+	}
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
 		for name, value := range taskRep.ActivityCfgRep.Settings {
-- 
2.43.0


From 77baa222626057da0ae446533ab20d58883e8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 44/83] fix: do not change some settings of an activity when
 others are invalid

---
 definition/definition.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/definition/definition.go b/definition/definition.go
index 0b9a430..65236e3 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -165,12 +165,17 @@ func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factor
 	}
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
+		settings := make(map[string]interface{}, len(task.activityCfg.settings))
+		for name, value := range task.activityCfg.settings {
+			settings[name] = value
+		}
 		for name, value := range taskRep.ActivityCfgRep.Settings {
-			task.activityCfg.settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
+			settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
 			if err != nil {
 				return fmt.Errorf("unable to resolve setting [%s]'s value [%s]:%s", name, value, err.Error())
 			}
 		}
+		task.activityCfg.settings = settings
 		err = reconfigurable.Reconfigure(task.activityCfg.settings)
 		if err != nil {
 			return fmt.Errorf("failed to reconfigure activity [%s] due to error:%v", task.ID(), err)
-- 
2.43.0


From b3459b5bd67b763f910dd3e8506b07f99490e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 45/83] fix: reconfigure activities that had no settings before

---
 definition/definition.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 65236e3..3aa2fe6 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -128,7 +128,7 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 				continue
 			}
 			task := d.tasks[taskRep.ID]
-			if task != nil && task.activityCfg != nil && len(task.activityCfg.settings) > 0 {
+			if task != nil && task.activityCfg != nil {
 				err = task.reconfigureTaskSettings(taskRep, ef)
 				if err != nil {
 					log.RootLogger().Errorf("%s", err.Error())
@@ -144,7 +144,7 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 				continue
 			}
 			task := d.errorHandler.tasks[taskRep.ID]
-			if task != nil && task.activityCfg != nil && len(task.activityCfg.settings) > 0 {
+			if task != nil && task.activityCfg != nil {
 				err = task.reconfigureTaskSettings(taskRep, ef)
 				if err != nil {
 					log.RootLogger().Errorf("%s", err.Error())
@@ -159,7 +159,7 @@ func (d *Definition) Reconfigure(config *resource.Config) error {
 
 func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factory) error {
 	var err error
-	if taskRep.ActivityCfgRep == nil {
+	if taskRep.ActivityCfgRep == nil || len(task.activityCfg.settings)+len(taskRep.ActivityCfgRep.Settings) == 0 {
 		// no settings are given
 		return nil
 	}
-- 
2.43.0


From ea139cbb20fb791b1e742e946a24cb4cd591ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 46/83] fix: keep the order of the work queue of restored
 instances

---
 instance/instance_ser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 2f56db3..a0083c2 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -113,8 +113,10 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 	inst.workItemQueue = support.NewSyncQueue()
 
-	for _, workItem := range ser.WorkQueue {
+	// the queue is a stack, so the items are pushed in reverse to keep their order
+	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
 
+		workItem := ser.WorkQueue[i]
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-- 
2.43.0


From d8678ac11174dad18cb43359a0ee9a7d1f90e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 47/83] fix: serialize restored instances that were not
 restarted yet

---
 instance/instance_ser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index a0083c2..fb64396 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -216,7 +216,7 @@ func (ti *TaskInst) MarshalJSON() ([]byte, error) {
 		TaskID string `json:"id"`
 		Status int    `json:"status"`
 	}{
-		TaskID: ti.task.ID(),
+		TaskID: ti.taskID,
 		Status: int(ti.status),
 	})
 }
@@ -329,7 +329,7 @@ func (li *LinkInst) MarshalJSON() ([]byte, error) {
 		LinkID int `json:"linkId"`
 		Status int `json:"status"`
 	}{
-		LinkID: li.link.ID(),
+		LinkID: li.id,
 		Status: int(li.status),
 	})
 }
-- 
2.43.0


From 3bbe2a5fa35c305ba786f8c632a14b3ac5aadd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 48/83] fix: do not save the work items of abandoned tasks

---
 instance/instance_ser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index fb64396..243b21f 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -23,10 +23,13 @@ type serIndependentInstance struct {
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
 func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
-	queue := make([]*WorkItem, inst.workItemQueue.List.Len())
+	queue := make([]*WorkItem, 0, inst.workItemQueue.List.Len())
 
-	for i, e := 0, inst.workItemQueue.List.Front(); e != nil; i, e = i+1, e.Next() {
-		queue[i], _ = e.Value.(*WorkItem)
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		// items of tasks that were abandoned since they were scheduled have no effect
+		if workItem, ok := e.Value.(*WorkItem); ok && !inst.isAbandoned(workItem) {
+			queue = append(queue, workItem)
+		}
 	}
 
 	attrs := make(map[string]interface{}, len(inst.attrs))
@@ -61,6 +64,21 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 	})
 }
 
+// isAbandoned indicates if the task of the work item no longer takes part in its flow
+func (inst *IndependentInstance) isAbandoned(workItem *WorkItem) bool {
+
+	flowInst := workItem.taskInst.flowInst
+
+	if flowInst == nil {
+		// the instance was restored but not restarted yet
+		return false
+	}
+	if flowInst.taskInsts[workItem.TaskID] != workItem.taskInst {
+		return true
+	}
+	return workItem.SubFlowID > 0 && inst.subflows[workItem.SubFlowID] != flowInst
+}
+
 // UnmarshalJSON overrides the default UnmarshalJSON for FlowInstance
 func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
-- 
2.43.0


From 283d5bc77954ed2a35557981804582e927925db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 49/83] fix: restore instances that were saved while handling
 an error

---
 definition/definition.go | 5 +++++
 instance/ind_instance.go | 3 +++
 instance/instance_ser.go | 5 +++++
 instance/taskinst.go     | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/definition/definition.go b/definition/definition.go
index 3aa2fe6..493681c 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -537,3 +537,8 @@ func (eh *ErrorHandler) Tasks() []*Task {
 func (eh *ErrorHandler) GetTask(taskID string) *Task {
 	return eh.tasks[taskID]
 }
+
+// GetLink returns the link with the specified ID
+func (eh *ErrorHandler) GetLink(linkID int) *Link {
+	return eh.links[linkID]
+}
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 7c36c8c..5e00846 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1021,6 +1021,9 @@ func (inst *IndependentInstance) init(flowInst *Instance) {
 	for _, linkInst := range flowInst.linkInsts {
 		linkInst.flowInst = flowInst
 		linkInst.link = flowInst.flowDef.GetLink(linkInst.id)
+		if errorHandler := flowInst.flowDef.GetErrorHandler(); linkInst.link == nil && errorHandler != nil {
+			linkInst.link = errorHandler.GetLink(linkInst.id)
+		}
 	}
 }
 
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 243b21f..b6ac318 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -18,6 +18,8 @@ type serIndependentInstance struct {
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
+
+	HandlingError bool `json:"handlingError,omitempty"`
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -61,6 +63,8 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		TaskInsts: tis,
 		LinkInsts: lis,
 		SubFlows:  sfs,
+
+		HandlingError: inst.isHandlingError,
 	})
 }
 
@@ -91,6 +95,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	inst.id = ser.ID
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
+	inst.isHandlingError = ser.HandlingError
 
 	inst.attrs = make(map[string]interface{}, len(ser.Attrs))
 
diff --git a/instance/taskinst.go b/instance/taskinst.go
index c978793..2fb96ac 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -37,6 +37,10 @@ func NewTaskInst(flowInst *Instance, task *definition.Task) *TaskInst {
 
 func initTaskInst(taskInst *TaskInst, flowInst *Instance, task *definition.Task) {
 
+	if task == nil && flowInst.isHandlingError && flowInst.flowDef.GetErrorHandler() != nil {
+		task = flowInst.flowDef.GetErrorHandler().GetTask(taskInst.taskID)
+	}
+
 	if task == nil {
 		task = flowInst.flowDef.GetTask(taskInst.taskID)
 	}
-- 
2.43.0


From da2412ae0f4a53eef24e91846d1f6e3d918247be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 50/83] fix: refuse invalid states of flow instances instead of
 panicking

---
 instance/instance_ser.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index b6ac318..301d041 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -2,6 +2,9 @@ package instance
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
+
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/flow/model"
 )
@@ -108,12 +111,18 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	inst.taskInsts = make(map[string]*TaskInst, len(ser.TaskInsts))
 
 	for _, taskInst := range ser.TaskInsts {
+		if taskInst == nil {
+			return errors.New("invalid task in the state of the flow instance")
+		}
 		inst.taskInsts[taskInst.taskID] = taskInst
 	}
 
 	inst.linkInsts = make(map[int]*LinkInst, len(ser.LinkInsts))
 
 	for _, linkInst := range ser.LinkInsts {
+		if linkInst == nil {
+			return errors.New("invalid link in the state of the flow instance")
+		}
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
@@ -124,6 +133,9 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.subflows = make(map[int]*Instance, len(ser.SubFlows))
 
 		for _, value := range ser.SubFlows {
+			if value == nil {
+				return errors.New("invalid subflow in the state of the flow instance")
+			}
 			inst.subflows[value.subflowId] = value
 
 			if value.subflowId > subFlowCtr {
@@ -140,13 +152,23 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
 
 		workItem := ser.WorkQueue[i]
+		if workItem == nil {
+			return errors.New("invalid work item in the state of the flow instance")
+		}
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-			taskInsts = inst.subflows[workItem.SubFlowID].taskInsts
+			subflow := inst.subflows[workItem.SubFlowID]
+			if subflow == nil {
+				return fmt.Errorf("work item for task [%s] of unknown subflow [%d]", workItem.TaskID, workItem.SubFlowID)
+			}
+			taskInsts = subflow.taskInsts
 		}
 
 		workItem.taskInst = taskInsts[workItem.TaskID]
+		if workItem.taskInst == nil {
+			return fmt.Errorf("work item for unknown task [%s]", workItem.TaskID)
+		}
 		inst.workItemQueue.Push(workItem)
 	}
 
@@ -217,12 +239,18 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	inst.taskInsts = make(map[string]*TaskInst, len(ser.TaskInsts))
 
 	for _, taskInst := range ser.TaskInsts {
+		if taskInst == nil {
+			return errors.New("invalid task in the state of the flow instance")
+		}
 		inst.taskInsts[taskInst.taskID] = taskInst
 	}
 
 	inst.linkInsts = make(map[int]*LinkInst, len(ser.LinkInsts))
 
 	for _, linkInst := range ser.LinkInsts {
+		if linkInst == nil {
+			return errors.New("invalid link in the state of the flow instance")
+		}
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-- 
2.43.0


From 48fadf496ad97c6f289299a8334aee1c1464575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 51/83] fix: refuse to restart instances whose state does not
 match the flow

---
 instance/ind_instance.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 5e00846..6c4bb2a 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -968,8 +968,15 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	if err != nil {
 		return err
 	}
+	if len(inst.subflows) > 0 {
+		// the tasks that wait for the subflows are not part of the state
+		return fmt.Errorf("unable to restart instance [%s], it has subflows in progress", id)
+	}
 	inst.master = inst
-	inst.init(inst.Instance)
+	err = inst.init(inst.Instance)
+	if err != nil {
+		return err
+	}
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
@@ -1010,9 +1017,14 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	return nil
 }
 
-func (inst *IndependentInstance) init(flowInst *Instance) {
+func (inst *IndependentInstance) init(flowInst *Instance) error {
+
+	errorHandler := flowInst.flowDef.GetErrorHandler()
 
 	for _, taskInst := range flowInst.taskInsts {
+		if flowInst.flowDef.GetTask(taskInst.taskID) == nil && (errorHandler == nil || errorHandler.GetTask(taskInst.taskID) == nil) {
+			return fmt.Errorf("unable to find task [%s] in flow [%s]", taskInst.taskID, flowInst.flowURI)
+		}
 		initTaskInst(taskInst, flowInst, nil)
 		//v.flowInst = flowInst
 		//v.task = flowInst.flowDef.GetTask(v.taskID)
@@ -1021,10 +1033,15 @@ func (inst *IndependentInstance) init(flowInst *Instance) {
 	for _, linkInst := range flowInst.linkInsts {
 		linkInst.flowInst = flowInst
 		linkInst.link = flowInst.flowDef.GetLink(linkInst.id)
-		if errorHandler := flowInst.flowDef.GetErrorHandler(); linkInst.link == nil && errorHandler != nil {
+		if linkInst.link == nil && errorHandler != nil {
 			linkInst.link = errorHandler.GetLink(linkInst.id)
 		}
+		if linkInst.link == nil {
+			return fmt.Errorf("unable to find link [%d] in flow [%s]", linkInst.id, flowInst.flowURI)
+		}
 	}
+
+	return nil
 }
 
 func (inst *IndependentInstance) SetTracingContext(tracingCtx trace.TracingContext) {
-- 
2.43.0


From 37c80370166c07501a7922564140ddf2ad42a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 52/83] fix: do not reuse the ids of the work items of restored
 instances

---
 instance/instance_ser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 301d041..3564ae7 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -170,6 +170,10 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 			return fmt.Errorf("work item for unknown task [%s]", workItem.TaskID)
 		}
 		inst.workItemQueue.Push(workItem)
+
+		if workItem.ID > inst.wiCounter {
+			inst.wiCounter = workItem.ID
+		}
 	}
 
 	return nil
-- 
2.43.0


From 9b04a29c7725cf8d0b5a8a5e9de671e32cc77bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 53/83] fix: do not schedule the queued tasks of restored
 instances again

---
 instance/instance_ser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 3564ae7..37bebe5 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -169,6 +169,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		if workItem.taskInst == nil {
 			return fmt.Errorf("work item for unknown task [%s]", workItem.TaskID)
 		}
+		workItem.taskInst.scheduled = true
 		inst.workItemQueue.Push(workItem)
 
 		if workItem.ID > inst.wiCounter {
-- 
2.43.0


From 0e9eb94298510cdd49cd1d75102a1698c39dbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 54/83] fix: do not deadlock when the attributes of a
 concurrent instance are updated

---
 instance/instance.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index 88e3872..eb3b050 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -315,10 +315,6 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
-	if inst.lock != nil {
-		inst.lock.Lock()
-		defer inst.lock.Unlock()
-	}
 
 	if len(attrs) > 0 {
 		for name, value := range attrs {
-- 
2.43.0


From dcd3182e85e32dcf02c9fa65a8c846aa671a3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 55/83] fix: track the attribute changes of restarted instances

---
 instance/ind_instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6c4bb2a..1a676e8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -978,6 +978,9 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		return err
 	}
 
+	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
+		inst.trackingChanges = true
+	}
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
 	// Set flow status to active
-- 
2.43.0


From 2fdfa6f3bdd7e6ea93cf4589867c53e8f0d29ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 56/83] fix: execute the tasks of restarted instances
 concurrently if that is enabled

---
 instance/ind_instance.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 1a676e8..7242454 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -82,14 +82,19 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.linkInsts = make(map[int]*LinkInst)
 
 	inst.instRecorder = instRecorder
-	if IsConcurrentTaskExcutionEnabled() {
+	inst.initConcurrentExec()
+
+	return inst, nil
+}
+
+// initConcurrentExec prepares the instance for concurrent execution if that is enabled
+func (inst *IndependentInstance) initConcurrentExec() {
+	if IsConcurrentTaskExcutionEnabled() && !inst.concurrentExec {
 		inst.Instance.lock = &sync.RWMutex{}
 		inst.Instance.actSchedLock = &sync.Mutex{}
 		inst.Instance.subFlowLock = &sync.Mutex{}
 		inst.concurrentExec = true
 	}
-
-	return inst, nil
 }
 
 func (inst *IndependentInstance) SetInstanceRecorder(stateRecorder *stateInstanceRecorder) {
@@ -972,6 +977,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		// the tasks that wait for the subflows are not part of the state
 		return fmt.Errorf("unable to restart instance [%s], it has subflows in progress", id)
 	}
+	inst.initConcurrentExec()
 	inst.master = inst
 	err = inst.init(inst.Instance)
 	if err != nil {
-- 
2.43.0


From 41920ff9e28eddc5f4d7867aee55a1e3a061221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 57/83] fix: restart instances when context logging is enabled

---
 action.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index c10d980..80fc85e 100644
--- a/action.go
+++ b/action.go
@@ -269,7 +269,14 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			instLogger := logger
 			if log.CtxLoggingEnabled() {
-				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
+				flowDef, _, err := flowsupport.GetDefinition(inst.FlowURI())
+				if err != nil {
+					return err
+				}
+				if flowDef == nil {
+					return errors.New("unable to resolve flow: " + inst.FlowURI())
+				}
+				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", flowDef.Name()), log.FieldString("flowId", instanceID))
 			}
 			inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
 			//Engine should set init step id one step before current restart step
-- 
2.43.0


From 76f59421788821001274e55853e3e1e491b7c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 58/83] fix: resume instances from deserialized states instead
 of panicking

---
 action.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/action.go b/action.go
index 80fc85e..2b03632 100644
--- a/action.go
+++ b/action.go
@@ -299,6 +299,15 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			//	instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
 			//}
 
+			if inst.FlowDefinition() == nil {
+				// the state was deserialized, so the instance has to be bound to its flow
+				inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
+				err := inst.Restart(logger, inst.ID(), -1)
+				if err != nil {
+					return err
+				}
+			}
+
 		} else {
 			return errors.New("unable to resume instance, initial state not provided")
 		}
-- 
2.43.0


From c6f1c2b1b09b69a3e8692f2e6b67266028ac4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 59/83] fix: refuse to restart instances that have yet to take
 the outcome of a subflow

---
 instance/ind_instance.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 7242454..4096af5 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -977,6 +977,13 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		// the tasks that wait for the subflows are not part of the state
 		return fmt.Errorf("unable to restart instance [%s], it has subflows in progress", id)
 	}
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		restarted := initStepId+1 > 0 && e == inst.workItemQueue.List.Front()
+		if wi, ok := e.Value.(*WorkItem); ok && wi.taskInst.status == model.TaskStatusWaiting && !restarted {
+			// the outcome of the subflow is not part of the state
+			return fmt.Errorf("unable to restart instance [%s], task [%s] has to continue after its subflow", id, wi.TaskID)
+		}
+	}
 	inst.initConcurrentExec()
 	inst.master = inst
 	err = inst.init(inst.Instance)
-- 
2.43.0


From 144215607196e72d8e3e4386ca7890d75ea663b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 60/83] fix: identify restored instances before they are
 restarted

---
 instance/instance_ser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 37bebe5..734ea15 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -95,6 +95,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	}
 
 	inst.Instance = &Instance{}
+	inst.master = inst
 	inst.id = ser.ID
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
-- 
2.43.0


From a4594a557520a737aae451b7ca5dca979536e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 61/83] fix: do not reuse the ids of subflows in restored
 instances

---
 instance/instance_ser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 734ea15..687d203 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -23,6 +23,7 @@ type serIndependentInstance struct {
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
 
 	HandlingError bool `json:"handlingError,omitempty"`
+	SubFlowCtr    int  `json:"subFlowCtr,omitempty"`
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -68,6 +69,7 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		SubFlows:  sfs,
 
 		HandlingError: inst.isHandlingError,
+		SubFlowCtr:    inst.subflowCtr,
 	})
 }
 
@@ -127,7 +129,8 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-	subFlowCtr := 0
+	subFlowCtr := ser.SubFlowCtr
+	inst.subflowCtr = subFlowCtr
 
 	if len(ser.SubFlows) > 0 {
 
-- 
2.43.0


From defcdad47f0abaea4006300f473bb12b80695e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 62/83] fix: refuse restart and resume requests without a state

---
 tester/request.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tester/request.go b/tester/request.go
index f2a0af1..8053349 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -2,6 +2,7 @@ package tester
 
 import (
 	"context"
+	"errors"
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/engine/runner"
@@ -93,6 +94,10 @@ func (rp *RequestProcessor) RestartFlow(restartRequest *RestartRequest) (results
 
 	logger.Debugf("Tester restarting flow")
 
+	if restartRequest.InitialState == nil {
+		return nil, errors.New("unable to restart flow, initial state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":restartRequest.InitialState.FlowURI()}
 
@@ -130,6 +135,10 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 
 	logger.Debugf("Tester resuming flow")
 
+	if resumeRequest.State == nil {
+		return nil, errors.New("unable to resume flow, state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
 
-- 
2.43.0


From 63a62d5622ca5f7ed2b5612fbf388b28772376ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 63/83] fix: report resume requests that could not be processed
 as failed

---
 tester/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tester/service.go b/tester/service.go
index 3b5b69a..32ade69 100644
--- a/tester/service.go
+++ b/tester/service.go
@@ -207,6 +207,7 @@ func (ft *RestFlowTester) ResumeFlow(w http.ResponseWriter, r *http.Request, _ h
 	defer func() {
 		if r := recover(); r != nil {
 			logger.Error("Unable to resume flow, make sure definition registered")
+			http.Error(w, "unable to resume flow, make sure definition registered", http.StatusInternalServerError)
 		}
 	}()
 
-- 
2.43.0


From 33e8934f6fd9d83ea5f3a2f93dec1c2607fb848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 64/83] fix: ignore null entries of interceptors and patches
 instead of panicking

---
 support/interceptor.go | 3 +++
 support/patch.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index e7ecd35..6379a0c 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -44,6 +44,9 @@ func (pi *Interceptor) Init() {
 		pi.taskInterceptorMap = make(map[string]*TaskInterceptor, numAttrs)
 
 		for _, interceptor := range pi.TaskInterceptors {
+			if interceptor == nil {
+				continue
+			}
 			pi.taskInterceptorMap[interceptor.ID] = interceptor
 		}
 	}
diff --git a/support/patch.go b/support/patch.go
index b547e48..17b6c32 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -22,6 +22,9 @@ func (pp *Patch) Init() {
 		pp.taskPatchMap = make(map[string]*TaskPatch, numAttrs)
 
 		for _, patch := range pp.TaskPatches {
+			if patch == nil {
+				continue
+			}
 			pp.taskPatchMap[patch.ID] = patch
 		}
 	}
-- 
2.43.0


From b1906f730e6a0d826c4565c2cfbb5f92823bc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 65/83] fix: accept no more requests on a stopped test server
 and refuse to stop it again

---
 tester/server.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tester/server.go b/tester/server.go
index ec01164..b29f5d8 100644
--- a/tester/server.go
+++ b/tester/server.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -32,6 +33,7 @@ type Server struct {
 	lastError        error
 	serverGroup      *sync.WaitGroup
 	clientsGroup     chan bool
+	stopped          int32
 }
 
 //InstanceID is the server instance ID
@@ -66,7 +68,7 @@ func (s *Server) Start() error {
 	s.listener = listener
 	s.serverGroup = &sync.WaitGroup{}
 	s.clientsGroup = make(chan bool, 50000)
-	s.Handler = &serverHandler{s.Handler, s.clientsGroup, s.serverInstanceID}
+	s.Handler = &serverHandler{s.Handler, s.clientsGroup, s.serverInstanceID, &s.stopped}
 
 	s.serverGroup.Add(1)
 	go func() {
@@ -91,6 +93,13 @@ func (s *Server) Stop() error {
 		return errors.New("server not started")
 	}
 
+	if atomic.SwapInt32(&s.stopped, 1) == 1 {
+		return errors.New("server already stopped")
+	}
+
+	// the open connections must not be used for further requests
+	s.SetKeepAlivesEnabled(false)
+
 	if err := s.listener.Close(); err != nil {
 		return err
 	}
@@ -101,7 +110,7 @@ func (s *Server) Stop() error {
 // IsStarted checks if the server is started
 // note: will return true even if the server is stopped but there are still some requests to finish
 func (s *Server) IsStarted() bool {
-	if s.listener != nil {
+	if s.listener != nil && atomic.LoadInt32(&s.stopped) == 0 {
 		return true
 	}
 
@@ -141,6 +150,7 @@ type serverHandler struct {
 	handler          http.Handler
 	clientsGroup     chan bool
 	serverInstanceID string
+	stopped          *int32
 }
 
 func (sh *serverHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
@@ -151,5 +161,10 @@ func (sh *serverHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 
 	w.Header().Add("X-Server-Instance-Id", sh.serverInstanceID)
 
+	if atomic.LoadInt32(sh.stopped) == 1 {
+		http.Error(w, "server stopped", http.StatusServiceUnavailable)
+		return
+	}
+
 	sh.handler.ServeHTTP(w, r)
 }
-- 
2.43.0


From e0ec8feaef3f5bee1c2cfce6a0d9e126b4371db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 66/83] fix: record the values of input defaults in steps, not
 their descriptors

---
 instance/ind_instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4096af5..7f432d8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -231,9 +231,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
+				inst.changeTracker.AttrChange(toStart.subflowId, name, value.Value())
 			} else {
 				toStart.attrs[name] = nil
+				inst.changeTracker.AttrChange(toStart.subflowId, name, nil)
 			}
 		}
 	} else {
-- 
2.43.0


From d3525b06ddfb0d760b224b9c437b2ada7186e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 67/83] fix: record the values set during execution whenever
 steps are recorded

---
 instance/ind_instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 7f432d8..28a87ca 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -72,7 +72,7 @@ func NewIndependentInstance(instanceID string, flowURI string, flow *definition.
 	inst.logger = logger
 
 	inst.status = model.FlowStatusNotStarted
-	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
+	if chgTrackingEnabled || os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
 		inst.trackingChanges = true
 	}
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, 0)
@@ -992,7 +992,7 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		return err
 	}
 
-	if os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
+	if chgTrackingEnabled || os.Getenv("FLOGO_FLOW_SM_ENDPOINT") != "" {
 		inst.trackingChanges = true
 	}
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
-- 
2.43.0


From 3f52fe685023a4ed9a5a1808aaccd38553fc82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 68/83] fix: record that an error handler replaces the tasks of
 its flow

---
 instance/ind_instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 28a87ca..9d4c4ee 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -694,6 +694,9 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
 		inst.abandonTasks(containerInst)
+		for taskId := range containerInst.taskInsts {
+			inst.changeTracker.TaskRemoved(containerInst.subflowId, taskId)
+		}
 		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
-- 
2.43.0


From 50b9171996dac1ba12981304611b5c7c2935f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 69/83] fix: record the failure of a flow that exceeds the
 maximum number of steps

---
 action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/action.go b/action.go
index 2b03632..6d6a9dc 100644
--- a/action.go
+++ b/action.go
@@ -416,6 +416,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				// the execution can't go on, so the instance fails without running its error handler
 				inst.Fail(err)
+				if stateRecorder != nil {
+					inst.RecordState(time.Now().UTC())
+				}
 			}
 		}
 
-- 
2.43.0


From 895c64a66441e4db5a43bfe85e9eb2ff7633d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 70/83] fix: record the subflow of queued work items

---
 instance/instance_chg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..84ae150 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -251,6 +251,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 }
 
 func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
@@ -260,6 +261,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 	qc.ChgType = change.Delete
 }
 
-- 
2.43.0


From 9e1042e23dd541e7b68c0f1ef67febcedfa01854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 71/83] fix: keep the task that started a subflow in the
 recorded step

---
 instance/instance_chg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 84ae150..27519d9 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -375,7 +375,10 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
 		step.FlowChanges[subflowId] = fc
 	} else {
-		fc.TaskId = taskId
+		if !fc.NewFlow || fc.SubflowId == 0 {
+			// the task of a new subflow is the one that started it
+			fc.TaskId = taskId
+		}
 		if fc.FlowURI == "" {
 			fc.FlowURI = flowname
 		}
-- 
2.43.0


From a53d9eeb6f57b9eb0f77541337ad253de20bea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 72/83] fix: number the steps of resumed instances
 consecutively

---
 instance/instance_chg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 27519d9..598b3f4 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -49,6 +49,10 @@ type ChangeTracker interface {
 
 func NewInstanceChangeTracker(flowId string, startStepId int) ChangeTracker {
 	if chgTrackingEnabled {
+		if startStepId < 0 {
+			// the steps of a run are numbered from 0
+			startStepId = 0
+		}
 		return chgTrackerFactory.NewChangeTracker(flowId, stateMode, startStepId)
 	}
 	return defaultChgTracker
-- 
2.43.0


From 428ff9486fe05c390fd2660d7784ff8345ff5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 73/83] fix: report an unsupported state recording mode instead
 of leaving the action uninitialized

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 6d6a9dc..768c9fc 100644
--- a/action.go
+++ b/action.go
@@ -94,7 +94,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 
diff --git a/ondemand/action.go b/ondemand/action.go
index 7f58ed6..8048775 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -109,7 +109,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 27366cee38b393f9b9bfe7f7bdadc54e70edf0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 74/83] fix: include the subflows in snapshots

---
 instance/ind_instance.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9d4c4ee..fd189f8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1104,6 +1104,7 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, &sfs)
 		}
 	}
 	return fs
-- 
2.43.0


From 9c7641968433f969e5c9b0175b89fb732e0b6f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 75/83] fix: copy the values of snapshots since the flow can
 still change them

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index fd189f8..3a000a7 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1118,7 +1118,7 @@ func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
 	if len(inst.attrs) > 0 {
 		base.Attrs = make(map[string]interface{}, len(inst.attrs))
 		for name, value := range inst.attrs {
-			base.Attrs[name] = value
+			base.Attrs[name] = util.DeepCopy(value)
 		}
 	}
 
-- 
2.43.0


From 63457f66c0fcedf24eecc1dc76fdbdae62af175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 76/83] fix: rebuild snapshots from steps by applying their
 changes in order

---
 state/util.go | 157 ++++++++++++++++++++++++++++----------------------
 1 file changed, 87 insertions(+), 70 deletions(-)

diff --git a/state/util.go b/state/util.go
index 6fcce94..5ee5860 100644
--- a/state/util.go
+++ b/state/util.go
@@ -1,6 +1,10 @@
 package state
 
-import "github.com/project-flogo/flow/state/change"
+import (
+	"sort"
+
+	"github.com/project-flogo/flow/state/change"
+)
 
 type FlowInfo struct {
 	Id                 string                 `json:"id"`
@@ -17,88 +21,114 @@ type FlowInfo struct {
 	OriginalInstanceId string                 `json:"originalInstanceId"`
 }
 
+// StepsToSnapshot applies the changes of the steps, in order, and returns the resulting state. The steps
+// are not altered
 func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	first := -1
-	queueDone := false
-
-	for i := len(steps) - 1; i >= 0; i-- {
-		step := steps[i]
-		if len(step.FlowChanges) > 0 {
-			for _, flowChange := range step.FlowChanges {
-
-				if flowChange.SubflowId > 0 {
-					subflow, exists := subflows[flowChange.SubflowId]
-					if !exists {
-						subflow = &Subflow{
-							SnapshotBase: &SnapshotBase{},
-							Id:           flowChange.SubflowId,
-							TaskId:       flowChange.TaskId,
-						}
+
+	for _, step := range steps {
+		for id, flowChange := range step.FlowChanges {
+
+			if id > 0 {
+				subflow, exists := subflows[id]
+				if !exists {
+					subflow = &Subflow{
+						SnapshotBase: &SnapshotBase{},
+						Id:           id,
+						TaskId:       flowChange.TaskId,
 					}
-					UpdateFlow(subflow.SnapshotBase, flowChange)
-				} else {
-					// update main flow
-					UpdateFlow(fs.SnapshotBase, flowChange)
+					subflows[id] = subflow
 				}
+				UpdateFlow(subflow.SnapshotBase, flowChange)
+			} else {
+				// update main flow
+				UpdateFlow(fs.SnapshotBase, flowChange)
 			}
 		}
-		if len(step.QueueChanges) > 0 && !queueDone {
-			for id, queueChg := range step.QueueChanges {
-				queueDone = UpdateQueue(fs, id, queueChg, &first)
-				if queueDone {
-					break
-				}
-			}
+		for id, queueChg := range step.QueueChanges {
+			UpdateQueue(fs, id, queueChg)
 		}
-
 	}
 
 	for id, subflow := range subflows {
-		if id != 0 {
+		// subflows that have ended are no longer part of the flow
+		if subflow.Status < flowStatusCompleted {
 			fs.Subflows = append(fs.Subflows, subflow)
+		} else {
+			delete(subflows, id)
 		}
 	}
 
+	// items of tasks that were abandoned since they were added have no effect
+	queue := fs.WorkQueue
+	fs.WorkQueue = nil
+	for _, item := range queue {
+		base := fs.SnapshotBase
+		if item.SubflowId > 0 {
+			subflow, exists := subflows[item.SubflowId]
+			if !exists {
+				continue
+			}
+			base = subflow.SnapshotBase
+		}
+		if hasTask(base, item.TaskId) {
+			fs.WorkQueue = append(fs.WorkQueue, item)
+		}
+	}
+
+	// the queue is a stack, so the item that was added last is first
+	sort.Slice(fs.WorkQueue, func(i, j int) bool {
+		return fs.WorkQueue[i].ID > fs.WorkQueue[j].ID
+	})
+
 	return fs
 }
 
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool {
+// flowStatusCompleted is the first of the statuses of flows that have ended (model.FlowStatusCompleted)
+const flowStatusCompleted = 500
 
-	if *first == -1 && queueChg.ChgType == change.Delete {
-		*first = id
-	} else {
-		if id == *first {
+func hasTask(s *SnapshotBase, taskId string) bool {
+	for _, task := range s.Tasks {
+		if task.Id == taskId {
 			return true
 		}
 	}
+	return false
+}
+
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
+
+	for i, item := range fs.WorkQueue {
+		if item.ID == id {
+			fs.WorkQueue = append(fs.WorkQueue[:i], fs.WorkQueue[i+1:]...)
+			break
+		}
+	}
 
-	if queueChg.ChgType == change.Add {
+	if queueChg.ChgType != change.Delete {
 		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
 		})
 	}
-	return false
 }
 
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
 		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
-				s.Attrs[name] = value
-			}
+			s.Attrs = make(map[string]interface{}, len(change.Attrs))
+		}
+		for name, value := range change.Attrs {
+			s.Attrs[name] = value
 		}
 	}
 
-	if s.Status == 0 {
+	if change.Status != 0 {
 		s.Status = change.Status
 	}
 
@@ -118,49 +148,36 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 	}
 }
 
-func UpdateTasks(snapshot *SnapshotBase, taskId string, change *change.Task) {
+func UpdateTasks(snapshot *SnapshotBase, taskId string, taskChg *change.Task) {
 
-	var td *Task
-
-	if snapshot.Tasks != nil {
-		for _, task := range snapshot.Tasks {
-			if task.Id == taskId {
-				td = task
-			}
+	for i, task := range snapshot.Tasks {
+		if task.Id == taskId {
+			snapshot.Tasks = append(snapshot.Tasks[:i], snapshot.Tasks[i+1:]...)
+			break
 		}
 	}
 
-	if td == nil {
+	if taskChg.ChgType != change.Delete {
 		snapshot.Tasks = append(snapshot.Tasks, &Task{
 			Id:     taskId,
-			Status: change.Status,
+			Status: taskChg.Status,
 		})
-	} else {
-		if td.Status == 0 {
-			td.Status = change.Status
-		}
 	}
 }
 
-func UpdateLinks(snapshot *SnapshotBase, linkId int, change *change.Link) {
-	var ld *Link
+func UpdateLinks(snapshot *SnapshotBase, linkId int, linkChg *change.Link) {
 
-	if snapshot.Links != nil {
-		for _, link := range snapshot.Links {
-			if link.Id == linkId {
-				ld = link
-			}
+	for i, link := range snapshot.Links {
+		if link.Id == linkId {
+			snapshot.Links = append(snapshot.Links[:i], snapshot.Links[i+1:]...)
+			break
 		}
 	}
 
-	if ld == nil {
+	if linkChg.ChgType != change.Delete {
 		snapshot.Links = append(snapshot.Links, &Link{
 			Id:     linkId,
-			Status: change.Status,
+			Status: linkChg.Status,
 		})
-	} else {
-		if ld.Status == 0 {
-			ld.Status = change.Status
-		}
 	}
 }
-- 
2.43.0


From a309feee6ab7114e21f394a629d24a2a46d5895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 77/83] fix: do not execute one step more than the limit with
 concurrent execution

---
 instance/ind_instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 3a000a7..360577f 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -354,7 +354,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
 			wi := item.(*WorkItem)
-			if stepCount > util.GetMaxStepCount() {
+			if stepCount >= util.GetMaxStepCount() {
 				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
 			}
 			inst.ResetChanges()
-- 
2.43.0


From 35e26f539160167da8304a21ae6097a88d85a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 78/83] fix: keep the error that the error handler handles

---
 instance/taskinst.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 2fb96ac..be21fca 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -567,6 +567,11 @@ func (ti *TaskInst) GetSetting(name string) (value interface{}, exists bool) {
 }
 
 func (ti *TaskInst) appendErrorData(err error) {
+	if ti.flowInst.isHandlingError {
+		// the error handler handles the original error
+		ti.setTaskError(err)
+		return
+	}
 	//For global handle only
 	errObj := ti.getErrorObject(err)
 	_ = ti.flowInst.SetValue("_E", errObj)
-- 
2.43.0


From 95931b62658815c8c2de885c1b152abda1dadd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 79/83] fix: guard the state of flow instances that is shared
 by concurrent tasks

---
 instance/flowevents.go   |  4 +-
 instance/ind_instance.go | 20 ++++++---
 instance/instance.go     | 87 +++++++++++++++++++++++++++++++++++++++-
 instance/instance_chg.go |  6 +--
 instance/taskinst.go     | 14 ++++++-
 5 files changed, 115 insertions(+), 16 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 72b08cb..ee579b8 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -87,7 +87,7 @@ func postFlowEvent(inst *Instance) {
 		fe.output = make(map[string]interface{})
 
 		if fe.status != event.CREATED {
-			attrs := inst.attrs
+			attrs := inst.copyAttrs()
 			outData, _ := inst.GetReturnData()
 			if fe.status == event.COMPLETED {
 				for name, value := range outData {
@@ -106,7 +106,7 @@ func postFlowEvent(inst *Instance) {
 		}
 
 		if fe.status == event.FAILED {
-			fe.err = inst.returnError
+			fe.err = inst.GetError()
 		}
 		coreevent.Post(event.FlowEventType, fe)
 	}
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 360577f..051dbf3 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -120,6 +120,9 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	embeddedInst.linkInsts = make(map[int]*LinkInst)
 	embeddedInst.flowURI = flowURI
 	embeddedInst.logger = inst.logger
+	if inst.concurrentExec {
+		embeddedInst.lock = &sync.RWMutex{}
+	}
 
 	if trace.Enabled() {
 		tc, _ := trace.GetTracer().StartTrace(embeddedInst.SpanConfig(), taskInst.traceContext) //TODO handle error
@@ -349,7 +352,7 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 
 	var stepCount int
 
-	for inst.status == model.FlowStatusActive {
+	for inst.Status() == model.FlowStatusActive {
 		// get item to be worked on
 		item, ok := inst.workItemQueue.Pop()
 		if ok {
@@ -544,7 +547,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 		flowDone = flowBehavior.TaskDone(containerInst)
 	}
 
-	if flowDone || containerInst.forceCompletion {
+	if flowDone || containerInst.completionForced() {
 		//flow completed or return was called explicitly, so lets complete the flow
 		inst.completeInstance(containerInst)
 	} else if !propagateSkip {
@@ -683,7 +686,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		return
 	}
 
-	containerInst.isHandlingError = true
+	containerInst.setHandlingError()
 
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 
@@ -725,7 +728,7 @@ func (inst *IndependentInstance) Fail(err error) {
 // failInstance fails the specified instance and reports the error to its host
 func (inst *IndependentInstance) failInstance(containerInst *Instance, err error) {
 
-	containerInst.returnError = err
+	containerInst.setFailed(err)
 	inst.abandonTasks(containerInst)
 	containerInst.SetStatus(model.FlowStatusFailed)
 
@@ -854,8 +857,8 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 	if inst.GetInterceptor().CollectIO {
 		outputs := taskInst.outputs
 		if outputs == nil {
-			if taskInst.flowInst.returnData != nil {
-				outputs = taskInst.flowInst.returnData
+			if returnData := taskInst.flowInst.explicitReturnData(); returnData != nil {
+				outputs = returnData
 			}
 		}
 		coverage = flowsupport.ActivityCoverage{
@@ -1112,6 +1115,11 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 func populateBaseSnapshot(inst *Instance, base *state.SnapshotBase) {
 
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+
 	base.FlowURI = inst.flowURI
 	base.Status = int(inst.status)
 
diff --git a/instance/instance.go b/instance/instance.go
index eb3b050..c13f870 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -185,26 +185,90 @@ func (inst *Instance) IOMetadata() *metadata.IOMetadata {
 
 func (inst *Instance) Reply(replyData map[string]interface{}, err error) {
 	if inst.resultHandler != nil {
-		inst.returnData = replyData
+		inst.setReturnData(replyData)
 		inst.resultHandler.HandleResult(replyData, err)
 	}
 }
 
 func (inst *Instance) Return(returnData map[string]interface{}, err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+		if inst.status != model.FlowStatusActive {
+			// the flow ended while the activity was executing, so its result is settled
+			return
+		}
+	}
 	inst.forceCompletion = true
 	inst.returnData = returnData
 	inst.returnError = err
 }
 
+func (inst *Instance) setReturnData(returnData map[string]interface{}) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+		if inst.forceCompletion || inst.status != model.FlowStatusActive {
+			// another activity has settled the result
+			return
+		}
+	}
+	inst.returnData = returnData
+}
+
+// explicitReturnData returns the data that an activity has returned or replied
+func (inst *Instance) explicitReturnData() map[string]interface{} {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.returnData
+}
+
+// setFailed settles the result of the Flow Instance
+func (inst *Instance) setFailed(err error) {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.returnError = err
+	inst.status = model.FlowStatusFailed
+}
+
+// completionForced indicates if an activity has returned explicitly
+func (inst *Instance) completionForced() bool {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	return inst.forceCompletion
+}
+
+func (inst *Instance) setHandlingError() {
+	if inst.lock != nil {
+		inst.lock.Lock()
+		defer inst.lock.Unlock()
+	}
+	inst.isHandlingError = true
+}
+
 func (inst *Instance) Scope() data.Scope {
 	return inst
 }
 
 func (inst *Instance) GetError() error {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 	return inst.returnError
 }
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 
 	returnData := inst.returnData
 
@@ -236,15 +300,21 @@ func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
 // Status returns the current status of the Flow Instance
 func (inst *Instance) Status() model.FlowStatus {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
 	return inst.status
 }
 
 func (inst *Instance) SetStatus(status model.FlowStatus) {
 	if inst.lock != nil {
 		inst.lock.Lock()
-		defer inst.lock.Unlock()
 	}
 	inst.status = status
+	if inst.lock != nil {
+		inst.lock.Unlock()
+	}
 	inst.master.changeTracker.SetStatus(inst.subflowId, status)
 	postFlowEvent(inst)
 }
@@ -313,6 +383,19 @@ func (inst *Instance) SetValue(name string, value interface{}) error {
 
 ////////////
 
+// copyAttrs returns a copy of the attributes since they can still change
+func (inst *Instance) copyAttrs() map[string]interface{} {
+	if inst.lock != nil {
+		inst.lock.RLock()
+		defer inst.lock.RUnlock()
+	}
+	attrs := make(map[string]interface{}, len(inst.attrs))
+	for name, value := range inst.attrs {
+		attrs[name] = value
+	}
+	return attrs
+}
+
 // UpdateAttrs updates the attributes of the Flow Instance
 func (inst *Instance) UpdateAttrs(attrs map[string]interface{}) {
 
diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 598b3f4..2a6a59f 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -178,6 +178,7 @@ func (sct *SimpleChangeTracker) FlowCreated(flow *IndependentInstance) {
 }
 
 func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
+	returnData, _ := flow.GetReturnData()
 	if sct.lock != nil {
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
@@ -188,7 +189,6 @@ func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
 		if flowC != nil {
 			flowC.FlowURI = flow.flowURI
 			flowC.Status = int(flow.status)
-			returnData, _ := flow.GetReturnData()
 			flowC.ReturnData = util.DeepCopyMap(returnData)
 		} else {
 			fc := &change.Flow{
@@ -196,7 +196,6 @@ func (sct *SimpleChangeTracker) FlowDone(flow *IndependentInstance) {
 				FlowURI: flow.flowURI,
 				Status:  int(flow.status),
 			}
-			returnData, _ := flow.GetReturnData()
 			fc.ReturnData = util.DeepCopyMap(returnData)
 			sct.currentStep.FlowChanges[flow.subflowId] = fc
 		}
@@ -221,6 +220,7 @@ func (sct *SimpleChangeTracker) SubflowCreated(subflow *Instance) {
 }
 
 func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
+	returnData, _ := subflow.GetReturnData()
 	if sct.lock != nil {
 		defer sct.lock.Unlock()
 		sct.lock.Lock()
@@ -232,7 +232,6 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 			if fc != nil {
 				fc.FlowURI = subflow.flowURI
 				fc.Status = int(subflow.status)
-				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
@@ -240,7 +239,6 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 					FlowURI: subflow.flowURI,
 					Status:  int(subflow.status),
 				}
-				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
 				sct.currentStep.FlowChanges[subflow.subflowId] = fc
 			}
diff --git a/instance/taskinst.go b/instance/taskinst.go
index be21fca..16e7f93 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -172,13 +172,23 @@ func (ti *TaskInst) Logger() log.Logger {
 
 // Status implements flow.TaskContext.GetState
 func (ti *TaskInst) Status() model.TaskStatus {
+	if ti.flowInst.lock != nil {
+		ti.flowInst.lock.RLock()
+		defer ti.flowInst.lock.RUnlock()
+	}
 	return ti.status
 }
 
 // SetStatus implements flow.TaskContext.SetStatus
 func (ti *TaskInst) SetStatus(status model.TaskStatus) {
-	changed := ti.status != status
+	changed := ti.Status() != status
+	if ti.flowInst.lock != nil {
+		ti.flowInst.lock.Lock()
+	}
 	ti.status = status
+	if ti.flowInst.lock != nil {
+		ti.flowInst.lock.Unlock()
+	}
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
 	if changed {
 		postTaskEvent(ti)
@@ -610,7 +620,7 @@ func (ti *TaskInst) handleAccumulation() error {
 	attrName := "_A." + ti.Task().ID()
 	var outputs []interface{}
 
-	if attr, ok := ti.flowInst.attrs[attrName]; ok {
+	if attr, ok := ti.flowInst.GetValue(attrName); ok {
 		var err error
 		outputs, err = coerce.ToArray(attr)
 		if err != nil {
-- 
2.43.0


From da006c5eaf41af1085fc149f3b1202d8ef042d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 80/83] fix: serialize scheduling and wait for executing tasks
 with concurrent execution

---
 instance/ind_instance.go | 107 +++++++++++++++++++++++++++------------
 instance/instance.go     |   6 +--
 instance/taskinst.go     |   4 ++
 instance/util.go         |  15 ++++++
 4 files changed, 97 insertions(+), 35 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 051dbf3..0d25903 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -39,6 +39,8 @@ type IndependentInstance struct {
 	startTime  time.Time
 	//Instance recorder
 	instRecorder *stateInstanceRecorder
+	// signals that an execution of a task has ended, set only when concurrent execution is enabled
+	execDone *sync.Cond
 }
 
 const (
@@ -93,6 +95,7 @@ func (inst *IndependentInstance) initConcurrentExec() {
 		inst.Instance.lock = &sync.RWMutex{}
 		inst.Instance.actSchedLock = &sync.Mutex{}
 		inst.Instance.subFlowLock = &sync.Mutex{}
+		inst.execDone = sync.NewCond(inst.Instance.actSchedLock)
 		inst.concurrentExec = true
 	}
 }
@@ -350,7 +353,11 @@ func (inst *IndependentInstance) DoStep() bool {
 
 func (inst *IndependentInstance) DoStepInLoop() error {
 
-	var stepCount int
+	var stepCount, running int
+	var err error
+
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
 
 	for inst.Status() == model.FlowStatusActive {
 		// get item to be worked on
@@ -358,43 +365,66 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 		if ok {
 			wi := item.(*WorkItem)
 			if stepCount >= util.GetMaxStepCount() {
-				return fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
+				err = fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), util.GetMaxStepCount(), util.FlogoStepCountEnv)
+				break
 			}
 			inst.ResetChanges()
 			inst.stepID++
 			stepCount++
+			// get the corresponding behavior
+			behavior := inst.flowModel.GetDefaultTaskBehavior()
+			if typeID := wi.taskInst.task.TypeID(); typeID != "" {
+				behavior = inst.flowModel.GetTaskBehavior(typeID)
+			}
+			// track the fact that the work item was removed from the queue
+			inst.changeTracker.WorkItemRemoved(wi)
 			if inst.concurrentExec {
 				// Execute ready tasks on different goroutines
+				running++
 				go func(wi *WorkItem) {
-					defer func() {
-						log.RootLogger().Debugf("Task [%s] completed on goroutine", wi.taskInst.task.ID())
-						wi = nil
-					}()
 					log.RootLogger().Debugf("Task [%s] started on goroutine", wi.taskInst.task.ID())
-					// get the corresponding behavior
-					behavior := inst.flowModel.GetDefaultTaskBehavior()
-					if typeID := wi.taskInst.task.TypeID(); typeID != "" {
-						behavior = inst.flowModel.GetTaskBehavior(typeID)
-					}
-					// track the fact that the work item was removed from the queue
-					inst.changeTracker.WorkItemRemoved(wi)
 					inst.execTask(behavior, wi.taskInst)
+					log.RootLogger().Debugf("Task [%s] completed on goroutine", wi.taskInst.task.ID())
+
+					inst.lockScheduling()
+					defer inst.unlockScheduling()
+					running--
+					inst.execDone.Broadcast()
 				}(wi)
 			} else {
 				// Execute task on engine worker goroutine
-				// get the corresponding behavior
 				log.RootLogger().Debugf("Task [%s] started on worker goroutine", wi.taskInst.task.ID())
-				behavior := inst.flowModel.GetDefaultTaskBehavior()
-				if typeID := wi.taskInst.task.TypeID(); typeID != "" {
-					behavior = inst.flowModel.GetTaskBehavior(typeID)
-				}
-				// track the fact that the work item was removed from the queue
-				inst.changeTracker.WorkItemRemoved(wi)
 				inst.execTask(behavior, wi.taskInst)
 			}
+		} else if running > 0 {
+			// the tasks that are being executed can schedule further ones
+			inst.execDone.Wait()
+		} else {
+			// there is nothing left to execute
+			break
 		}
 	}
-	return nil
+
+	// the flow has ended when the tasks that are still being executed have ended too
+	for running > 0 {
+		inst.execDone.Wait()
+	}
+
+	return err
+}
+
+// lockScheduling gives the exclusive access to the state of the tasks and links when concurrent execution
+// is enabled, it isn't held while tasks are evaluated
+func (inst *IndependentInstance) lockScheduling() {
+	if inst.actSchedLock != nil {
+		inst.actSchedLock.Lock()
+	}
+}
+
+func (inst *IndependentInstance) unlockScheduling() {
+	if inst.actSchedLock != nil {
+		inst.actSchedLock.Unlock()
+	}
 }
 
 func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
@@ -413,6 +443,9 @@ func (inst *IndependentInstance) scheduleEval(taskInst *TaskInst) {
 // execTask executes the specified Work Item of the Flow Instance
 func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst *TaskInst) {
 
+	inst.lockScheduling()
+	defer inst.unlockScheduling()
+
 	defer func() {
 		if r := recover(); r != nil {
 
@@ -430,6 +463,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	for taskInst.evaluating && inst.execDone != nil {
+		// e.g. the subflow ended before the task that started it waits for it
+		inst.execDone.Wait()
+	}
+
 	if !taskInst.isCurrent() {
 		// the flow ended or abandoned the task since it was scheduled
 		return
@@ -439,11 +477,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	var evalResult model.EvalResult
 
 	if taskInst.status == model.TaskStatusWaiting {
-		evalResult, err = evalBehavior(behavior.PostEval, taskInst)
+		evalResult, err = inst.evalBehavior(behavior.PostEval, taskInst)
 	} else if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
 		return
 	} else {
-		evalResult, err = evalBehavior(behavior.Eval, taskInst)
+		evalResult, err = inst.evalBehavior(behavior.Eval, taskInst)
 	}
 
 	if !taskInst.isCurrent() {
@@ -490,7 +528,18 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 }
 
 // evalBehavior evaluates the task, a panic (e.g. in an expression) is a failure of the task
-func evalBehavior(eval func(model.TaskContext) (model.EvalResult, error), taskInst *TaskInst) (evalResult model.EvalResult, err error) {
+func (inst *IndependentInstance) evalBehavior(eval func(model.TaskContext) (model.EvalResult, error), taskInst *TaskInst) (evalResult model.EvalResult, err error) {
+
+	taskInst.evaluating = true
+	inst.unlockScheduling()
+
+	defer func() {
+		inst.lockScheduling()
+		taskInst.evaluating = false
+		if inst.execDone != nil {
+			inst.execDone.Broadcast()
+		}
+	}()
 
 	defer func() {
 		if r := recover(); r != nil {
@@ -759,7 +808,7 @@ func (inst *IndependentInstance) failInstance(containerInst *Instance, err error
 // ended or moved on to its error handler
 func (inst *IndependentInstance) abandonTasks(containerInst *Instance) {
 
-	for _, taskInst := range containerInst.waitingTaskInsts() {
+	for _, taskInst := range containerInst.pendingTaskInsts() {
 		for _, subflow := range inst.hostedSubflows(taskInst) {
 			if subflow.Status() == model.FlowStatusActive {
 				inst.abandonTasks(subflow)
@@ -770,7 +819,7 @@ func (inst *IndependentInstance) abandonTasks(containerInst *Instance) {
 			}
 			inst.removeSubflow(subflow)
 		}
-		if taskInst.traceContext != nil {
+		if !taskInst.evaluating && taskInst.traceContext != nil {
 			_ = trace.GetTracer().FinishTrace(taskInst.traceContext, nil)
 			taskInst.traceContext = nil
 		}
@@ -801,12 +850,6 @@ func (inst *IndependentInstance) removeSubflow(subflow *Instance) {
 }
 
 func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []*model.TaskEntry) error {
-	if inst.actSchedLock != nil {
-		// Lock is set only when concurrent executaion is enabled
-		inst.actSchedLock.Lock()
-		defer inst.actSchedLock.Unlock()
-	}
-
 	handlingError := activeInst.isHandlingError
 
 	for _, taskEntry := range taskEntries {
diff --git a/instance/instance.go b/instance/instance.go
index c13f870..4d926ed 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -109,15 +109,15 @@ func (inst *Instance) getTaskInst(taskId string) *TaskInst {
 	return inst.taskInsts[taskId]
 }
 
-// waitingTaskInsts returns the TaskInsts that wait for something, e.g. for a subflow
-func (inst *Instance) waitingTaskInsts() []*TaskInst {
+// pendingTaskInsts returns the TaskInsts that are being evaluated or wait for something, e.g. for a subflow
+func (inst *Instance) pendingTaskInsts() []*TaskInst {
 	if inst.lock != nil {
 		inst.lock.RLock()
 		defer inst.lock.RUnlock()
 	}
 	var taskInsts []*TaskInst
 	for _, taskInst := range inst.taskInsts {
-		if taskInst.status == model.TaskStatusWaiting {
+		if taskInst.status == model.TaskStatusWaiting || taskInst.evaluating {
 			taskInsts = append(taskInsts, taskInst)
 		}
 	}
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 16e7f93..e6ca847 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -82,6 +82,8 @@ type TaskInst struct {
 	taskID string
 	// When concurrent executaion mode is enabled, this flag ensures task is not scheduled more than once
 	scheduled bool
+	// When concurrent execution mode is enabled, this flag ensures task is not evaluated again while it is being evaluated
+	evaluating bool
 	// When concurrent execution mode is enabled, this flag determines whether task should execute on a separate goroutine or not
 	asyncExec bool
 }
@@ -410,9 +412,11 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 				errObj := ti.getErrorObject(evalErr)
 
+				ti.flowInst.master.lockScheduling()
 				if !ti.flowInst.isHandlingError {
 					_ = ti.flowInst.SetValue("_E", errObj)
 				}
+				ti.flowInst.master.unlockScheduling()
 				_ = ti.flowInst.SetValue("_E."+ti.Task().ID(), errObj)
 
 				applyAssertionInterceptor(ti, support.AssertionException)
diff --git a/instance/util.go b/instance/util.go
index b8d2fc1..703f947 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -137,6 +137,9 @@ func applyAssertionInterceptor(taskInst *TaskInst, assertType int) error {
 
 	master := taskInst.flowInst.master
 	if master.interceptor != nil {
+		// the interceptor is shared by all the instances of the task
+		master.lockScheduling()
+		defer master.unlockScheduling()
 		taskInst.logger.Debug("Applying Interceptor - Assertion")
 		// check if this task has assertion interceptor
 		id := taskInst.flowInst.Name() + "-" + taskInst.task.ID()
@@ -293,6 +296,8 @@ func setActivityExecutionStatus(taskInst *TaskInst, status int) {
 		id := taskInst.flowInst.Name() + "-" + taskInst.task.ID()
 		taskInterceptor := master.interceptor.GetTaskInterceptor(id)
 		if taskInterceptor != nil {
+			master.lockScheduling()
+			defer master.unlockScheduling()
 			taskInterceptor.Result = status
 		}
 	}
@@ -307,6 +312,8 @@ func setActivityExecutionMessage(taskInst *TaskInst, message string) {
 		id := taskInst.flowInst.Name() + "-" + taskInst.task.ID()
 		taskInterceptor := master.interceptor.GetTaskInterceptor(id)
 		if taskInterceptor != nil {
+			master.lockScheduling()
+			defer master.unlockScheduling()
 			taskInterceptor.Message = message
 		}
 	}
@@ -368,6 +375,14 @@ func StartSubFlow(ctx activity.Context, flowURI string, inputs map[string]interf
 		return errors.New("unable to resolve subflow: " + flowURI)
 	}
 
+	// the tasks of the flow can be scheduled concurrently
+	taskInst.flowInst.master.lockScheduling()
+	defer taskInst.flowInst.master.unlockScheduling()
+
+	if !taskInst.isCurrent() {
+		return fmt.Errorf("unable to start subflow `%s`, flow `%s` has ended", def.Name(), taskInst.flowInst.Name())
+	}
+
 	//todo make sure that there is only one subFlow per taskinst
 	flowInst := taskInst.flowInst.master.newEmbeddedInstance(taskInst, flowURI, def)
 
-- 
2.43.0


From dc0c35972c970f1b10040c448020d308b3a7d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 81/83] fix: apply the outputs of a subflow to a do-while task
 that collects them

---
 instance/taskinst.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index e6ca847..8f837b0 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -548,6 +548,12 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if err := ti.handleAccumulation(); err != nil {
 				return false, err
 			}
+
+			if cfg.ApplyOutputOnAccumulate() {
+				if err := ti.applyOutputMapper(); err != nil {
+					return done, err
+				}
+			}
 		} else if ti.task.ActivityConfig().OutputMapper() != nil {
 			appliedMapper, err := applyOutputMapper(ti)
 
-- 
2.43.0


From f4b148f03345d6fda5b2e529d6169837e81826d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 82/83] fix: validate the outputs of a subflow against the
 schemas of the calling task

---
 instance/taskinst.go | 45 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 8f837b0..37e6fd1 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -436,22 +436,12 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 	if done {
 
-		if schema.ValidationEnabled() {
-			if v, ok := actCfg.Activity.(schema.ValidationBypass); !(ok && v.BypassValidation()) {
-				//do validation
-				for name, value := range ti.outputs {
-					s := actCfg.GetOutputSchema(name)
-					if s != nil {
-						err := s.Validate(value)
-						if err != nil {
-							return false, err
-						}
-					}
-				}
-			}
+		err := ti.validateOutputs()
+		if err != nil {
+			return false, err
 		}
 
-		err := applyOutputInterceptor(ti)
+		err = applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
 		}
@@ -482,6 +472,26 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 	return done, nil
 }
 
+// validateOutputs validates the outputs of the activity against their schemas
+func (ti *TaskInst) validateOutputs() error {
+	actCfg := ti.task.ActivityConfig()
+	if schema.ValidationEnabled() {
+		if v, ok := actCfg.Activity.(schema.ValidationBypass); !(ok && v.BypassValidation()) {
+			//do validation
+			for name, value := range ti.outputs {
+				s := actCfg.GetOutputSchema(name)
+				if s != nil {
+					err := s.Validate(value)
+					if err != nil {
+						return err
+					}
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func (ti *TaskInst) applyOutputMapper() error {
 	if ti.task.ActivityConfig().OutputMapper() != nil {
 		appliedMapper, err := applyOutputMapper(ti)
@@ -539,7 +549,12 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 
 	if done {
 
-		err := applyOutputInterceptor(ti)
+		err := ti.validateOutputs()
+		if err != nil {
+			return false, err
+		}
+
+		err = applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From 815bfecf68191423851e1622f8be82649b81b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 83/83] fix: a run restarted past the step limit ends with the
 limit's error

A restart at a step beyond the limit neither ran a step nor failed, so it
never delivered a result.
---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 768c9fc..b8c84bf 100644
--- a/action.go
+++ b/action.go
@@ -412,7 +412,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() < model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				// the execution can't go on, so the instance fails without running its error handler
 				inst.Fail(err)
-- 
2.43.0

