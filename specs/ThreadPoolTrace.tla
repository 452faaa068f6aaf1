-------------------------- MODULE ThreadPoolTrace --------------------------
(* Checks recorded executions of the real thread pool against ThreadPool. Each line of the trace is one step; the
   reasons for which an observation is not allowed are collected in bad.                                         *)
EXTENDS ThreadPool, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, s, bad, executions,
          wasPossible,   \* threads whose call of empty in progress may find tasks
          before,        \* <<thread, provider, round>>: rounds submitted before the call of empty in progress
          open           \* an execution is being recorded

vars == <<l, s, bad, executions, wasPossible, before, open>>

Providers == 0 .. 7

Init ==
    /\ l = 1
    /\ s = InitialState(Providers)
    /\ bad = <<>>
    /\ executions = 0
    /\ wasPossible = {}
    /\ before = {}
    /\ open = FALSE

If(c, reason) == IF c THEN {} ELSE {reason}

Judge(e) ==
    CASE e.e = "begin" -> If(~open, "overlap")
      [] e.e = "end" -> If(open /\ e.k = 1, "threads left")
      [] e.e = "abandoned" -> {}
      [] e.e = "runcall" -> If(RunCallOk(s, e.t, e.p, e.n), "driver")
      [] e.e = "runret" -> If(e.x \in {0, 1} /\ RunReturnOk(s, e.p, e.x = 1), "refusal")
      [] e.e = "start" -> StartReasons(s, e.t, e.p, e.k)
      [] e.e = "finish" -> If(FinishOk(s, e.t, e.p, e.k), "driver")
      [] e.e = "quiet" -> If(QuietOk(s), "idle")
      [] e.e = "waitcall" -> {}
      [] e.e = "waitret" -> WaitReasons(s, e.p, e.x = 1)
      [] e.e \in {"clearcall", "removecall", "delcall", "stopcall", "destroycall", "resizecall"} -> {}
      [] e.e \in {"clearret", "removeret"} -> If(e.x = 0, "exception")
      [] e.e = "delret" -> If(DestroyedOk(s, e.p), "early")
      [] e.e = "stopret" -> If(e.x = 0 /\ StopReturnOk(s, e.k), "stop")
      [] e.e = "destroyret" -> If(StopReturnOk(s, 0), "stop")
      [] e.e = "resizeret" -> IF e.n = 0 /\ e.x = 3 THEN If(e.k = 0, "size")   \* a pool created without threads
                              ELSE If(e.x \in {0, 1} /\ ResizeReturnOk(s, e.n, e.k, e.x = 1), "size")
      [] e.e = "emptycall" -> {}
      [] e.e = "emptyret" -> If(IF e.x = 1 THEN ~HasTasks(s, {<<b[2], b[3]>> : b \in {x \in before : x[1] = e.t}}) ELSE e.t \in wasPossible \/ MayHaveTasks(s), "empty")
      [] e.e = "add0" -> If(e.x = 1, "refusal")
      [] e.e = "fpcall" -> {}
      [] e.e = "fpret" -> If(IF e.k % 2 = 1 THEN e.x = 1 ELSE e.x = 0 /\ e.n = 1, "function")
      [] OTHER -> {e.e}                            \* deadlock, race, use after free, ...

All(st) == DOMAIN st.prov

Following(e) ==
    CASE e.e = "begin" -> InitialState(Providers)
      [] e.e = "runcall" -> RunCallNext(s, e.t, e.p, e.n)
      [] e.e = "runret" -> RunReturnNext(s, e.p, e.x # 0)
      [] e.e = "start" -> StartNext(s, e.t, e.p, e.k)
      [] e.e = "finish" -> FinishNext(s, e.t, e.p, e.k, e.x = 1)
      [] e.e = "waitret" -> WaitNext(s, e.p)
      [] e.e = "clearcall" -> RemoveCallNext(s, e.t, "clear", All(s))
      [] e.e = "clearret" -> RemoveReturnNext(s, e.t, "clear")
      [] e.e = "removecall" -> RemoveCallNext(s, e.t, "remove", {e.p})
      [] e.e = "removeret" -> RemoveReturnNext(s, e.t, "remove")
      [] e.e = "delcall" -> RemoveCallNext(s, e.t, "destroy", {e.p})
      [] e.e = "delret" -> DestroyedNext(s, e.t, e.p)
      [] e.e \in {"stopcall", "destroycall"} -> RemoveCallNext(s, e.t, "stop", All(s))
      [] e.e \in {"stopret", "destroyret"} -> StopReturnNext(s, e.t)
      [] e.e = "resizecall" -> ResizeCallNext(s, e.t, e.n)
      [] e.e = "resizeret" -> ResizeReturnNext(s, e.n, e.x # 0)
      [] OTHER -> s

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           j == Judge(e)
       IN /\ bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
          /\ s' = Following(e)
          /\ executions' = executions + (IF e.e = "end" THEN 1 ELSE 0)
          /\ open' = IF e.e = "begin" THEN TRUE ELSE IF e.e \in {"end", "abandoned"} THEN FALSE ELSE open
          /\ before' = IF e.e = "begin" THEN {}
                       ELSE IF e.e = "emptycall" THEN before \cup {<<e.t, -1, 0>>} \cup {<<e.t, x[1], x[2]>> : x \in Submitted(s, All(s))}
                       ELSE IF e.e = "emptyret" THEN {x \in before : x[1] # e.t}
                       ELSE before
          /\ wasPossible' = IF e.e \in {"begin", "emptyret"} THEN wasPossible \ {e.t}
                            ELSE IF e.e = "emptycall" THEN IF MayHaveTasks(s) THEN wasPossible \cup {e.t} ELSE wasPossible
                            ELSE IF e.e = "runcall" THEN wasPossible \cup {x[1] : x \in before}
                            ELSE wasPossible

Spec == Init /\ [][Next]_vars

Complete == l > Len(Trace)
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
