--------------------------- MODULE ThreadPoolImpl ---------------------------
(* The design of src/thread_pool.cpp: worker threads, the list of tasks with its
   indicators run and exit, and task providers with their counters. Each step is
   what one thread does while it holds a mutex, or one atomic operation; waiting
   on a condition variable is modelled by the sets of sleeping threads, so a lost
   notification shows as a deadlock.

   Client programs come from ThreadPoolScenarios. The state of ThreadPool is kept
   beside the implementation's own (variable s): every observable step has to be
   one ThreadPool allows, that is, the design refines ThreadPool.

   Fault selects a design with a known mistake (used to see that the model tells
   them apart); "none" is the design of the code.                             *)
EXTENDS ThreadPoolScenarios

CONSTANTS Fault, Scenarios

P == INSTANCE ThreadPool

MaxW == 3
W == 1 .. MaxW
Clients == 1 .. 2
Main == 100
ThreadOfWorker(w) == 10 + w

VARIABLES
    sc,        \* the scenario
    queue, run, exit, asleepW,                        \* the pool
    count, given, completed, running, excRaised, asleepP,   \* providers
    wpc, wprov, wid, rcount, target, created,         \* workers
    cpc, cpos, dead,                                  \* clients: where, position in the program, provider destroyed
    mpc, mpos, mj,                                    \* owner
    s, ok                                             \* observer

implvars == <<queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, wpc, wprov, wid, rcount, target, created>>
vars == <<sc, queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, wpc, wprov, wid, rcount, target, created,
          cpc, cpos, dead, mpc, mpos, mj, s, ok>>

Init ==
    /\ sc \in Scenarios
    /\ queue = <<>>
    /\ run = [w \in W |-> w <= sc.threads]
    /\ exit = [w \in W |-> FALSE]
    /\ asleepW = {}
    /\ count = [p \in Clients |-> 0]
    /\ given = [p \in Clients |-> 0]
    /\ completed = [p \in Clients |-> 0]
    /\ running = [p \in Clients |-> FALSE]
    /\ excRaised = [p \in Clients |-> FALSE]
    /\ asleepP = {}
    /\ wpc = [w \in W |-> IF w <= sc.threads THEN "top" ELSE "off"]
    /\ wprov = [w \in W |-> 0]
    /\ wid = [w \in W |-> 0]
    /\ rcount = sc.threads
    /\ target = sc.threads
    /\ created = TRUE
    /\ cpc = [c \in Clients |-> "next"]
    /\ cpos = [c \in Clients |-> 1]
    /\ dead = [c \in Clients |-> FALSE]
    /\ mpc = "next"
    /\ mpos = 1
    /\ mj = 0
    /\ s = [P!InitialState(Clients) EXCEPT !.size = sc.threads]
    /\ ok = TRUE

Observe(good, next) == ok' = (ok /\ good) /\ s' = next
Silent == UNCHANGED <<s, ok>>
ClientVars == <<cpc, cpos, dead>>
MainVars == <<mpc, mpos, mj>>

Workers == {w \in W : wpc[w] # "off"}
WorkersUp(n) == 1 .. n

(* the round a client is in: its last run *)
RoundOp(p) ==
    LET prog == sc.clients[p]
        r == CHOOSE i \in 1 .. cpos[p] : prog[i][1] = "run" /\ \A j \in i + 1 .. cpos[p] : prog[j][1] # "run"
    IN prog[r]
Throws(p, k) == (RoundOp(p)[3] \div (2 ^ k)) % 2 = 1

----------------------------------------------------------------------------
(* Worker *)
WInit(w) ==
    /\ wpc[w] = "init"
    /\ rcount' = rcount + 1
    /\ created' = IF rcount + 1 = target THEN TRUE ELSE created
    /\ wpc' = [wpc EXCEPT ![w] = "top"]
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, target>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars /\ Silent

WTop(w) ==
    /\ wpc[w] = "top"
    /\ IF ~run[w] THEN /\ asleepW' = asleepW \cup {w}
                       /\ wpc' = [wpc EXCEPT ![w] = "sleep"]
                       /\ UNCHANGED <<queue, run, wprov, rcount>>
       ELSE IF exit[w] THEN /\ wpc' = [wpc EXCEPT ![w] = "gone"]
                            /\ rcount' = rcount - 1
                            /\ UNCHANGED <<queue, run, wprov, asleepW>>
       ELSE IF queue # <<>> THEN /\ queue' = Tail(queue)
                                 /\ wprov' = [wprov EXCEPT ![w] = Head(queue)]
                                 /\ wpc' = [wpc EXCEPT ![w] = "take"]
                                 /\ UNCHANGED <<run, asleepW, rcount>>
       ELSE IF Fault = "LostWakeup"     \* the indicator is reset without the lock
              THEN /\ wpc' = [wpc EXCEPT ![w] = "reset"]
                   /\ UNCHANGED <<queue, run, asleepW, wprov, rcount>>
       ELSE /\ run' = [run EXCEPT ![w] = FALSE]
            /\ UNCHANGED <<queue, wpc, wprov, asleepW, rcount>>
    /\ UNCHANGED <<sc, exit, count, given, completed, running, excRaised, asleepP, wid, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars /\ Silent

WReset(w) ==
    /\ wpc[w] = "reset"
    /\ run' = [run EXCEPT ![w] = FALSE]
    /\ wpc' = [wpc EXCEPT ![w] = "top"]
    /\ UNCHANGED <<sc, queue, exit, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars /\ Silent

WWake(w) ==
    /\ wpc[w] = "sleep"
    /\ w \notin asleepW
    /\ wpc' = [wpc EXCEPT ![w] = "top"]
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars /\ Silent

(* a provider which has been destroyed must not be touched any more *)
Alive(p) == ~dead[p]

WTake(w) ==
    /\ wpc[w] = "take"
    /\ LET p == wprov[w]
           k == given[p]
       IN /\ given' = [given EXCEPT ![p] = k + 1]
          /\ wid' = [wid EXCEPT ![w] = k]
          /\ wpc' = [wpc EXCEPT ![w] = IF k < count[p] THEN "start" ELSE "top"]
          /\ ok' = (ok /\ Alive(p))
    /\ UNCHANGED s
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, completed, running, excRaised, asleepP, wprov, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars

WStart(w) ==
    /\ wpc[w] = "start"
    /\ wpc' = [wpc EXCEPT ![w] = "finish"]
    /\ Observe(Alive(wprov[w]) /\ P!StartOk(s, ThreadOfWorker(w), wprov[w], wid[w]), P!StartNext(s, ThreadOfWorker(w), wprov[w], wid[w]))
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars

(* nothing can happen before the task of w ends (the owner does nothing in these scenarios) *)
Unfinished(w) == wpc[w] = "finish" /\ LET op == RoundOp(wprov[w]) IN Quiet(op) \/ (Barrier(op) /\ Cardinality(s.prov[wprov[w]].started) < op[2])
OthersBlocked(w) ==
    /\ \A v \in W \ {w} : wpc[v] \in {"off", "gone"} \/ (wpc[v] = "sleep" /\ v \in asleepW) \/ Unfinished(v)
    /\ \A c \in Clients : (cpc[c] = "next" /\ cpos[c] > (IF c <= Len(sc.clients) THEN Len(sc.clients[c]) ELSE 0))
                         \/ (cpc[c] \in {"sleep", "delsleep"} /\ c \in asleepP)

WFinish(w) ==
    /\ wpc[w] = "finish"
    /\ Barrier(RoundOp(wprov[w])) => Cardinality(s.prov[wprov[w]].started) = RoundOp(wprov[w])[2]
    /\ Quiet(RoundOp(wprov[w])) => OthersBlocked(w)
    /\ LET p == wprov[w]
           x == Throws(p, wid[w])
       IN /\ excRaised' = IF x THEN [excRaised EXCEPT ![p] = TRUE] ELSE excRaised
          /\ Observe(Alive(p) /\ P!FinishOk(s, ThreadOfWorker(w), p, wid[w]) /\ (Quiet(RoundOp(p)) => P!QuietOk(s)), P!FinishNext(s, ThreadOfWorker(w), p, wid[w], x))
          /\ wpc' = [wpc EXCEPT ![w] = IF x /\ Fault = "ThrowLosesTask" THEN "top" ELSE "complete"]
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running, asleepP, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars

(* is the round over? *)
Last(p, done) == IF Fault = "GivenNotCompleted" THEN given[p] >= count[p] ELSE done = count[p]

WComplete(w) ==
    /\ wpc[w] = "complete"
    /\ LET p == wprov[w] IN
          /\ completed' = [completed EXCEPT ![p] = @ + 1]
          /\ wpc' = [wpc EXCEPT ![w] = IF Fault = "CheckAfterwards" THEN "check" ELSE IF Last(p, completed[p] + 1) THEN "signal" ELSE "top"]
          /\ ok' = (ok /\ Alive(p))
    /\ UNCHANGED s
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, running, excRaised, asleepP, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars

WCheck(w) ==   \* the counters are read again after the task was reported as completed
    /\ wpc[w] = "check"
    /\ LET p == wprov[w] IN
          /\ wpc' = [wpc EXCEPT ![w] = IF completed[p] = count[p] THEN "signal" ELSE "top"]
          /\ ok' = (ok /\ Alive(p))
    /\ UNCHANGED s
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars

WSignal(w) ==
    /\ wpc[w] = "signal"
    /\ LET p == wprov[w] IN
          /\ running' = [running EXCEPT ![p] = FALSE]
          /\ asleepP' = asleepP \ {p}
          /\ ok' = (ok /\ Alive(p))
    /\ wpc' = [wpc EXCEPT ![w] = "top"]
    /\ UNCHANGED s
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, excRaised, wprov, wid, rcount, target, created>>
    /\ UNCHANGED ClientVars /\ UNCHANGED MainVars

Worker(w) == WInit(w) \/ WTop(w) \/ WReset(w) \/ WWake(w) \/ WTake(w) \/ WStart(w) \/ WFinish(w) \/ WComplete(w) \/ WCheck(w) \/ WSignal(w)

----------------------------------------------------------------------------
(* Removing tasks: of the providers in Q. All of it happens under the lock of the list. *)
Removed(p) == Cardinality({i \in 1 .. Len(queue) : queue[i] = p})
RemoveTasks(Q) ==
    /\ queue' = SelectSeq(queue, LAMBDA p : p \notin Q)
    /\ IF Fault = "ClearLosesTasks" THEN UNCHANGED <<given, completed, running, asleepP>>
       ELSE /\ given' = [p \in Clients |-> IF p \in Q THEN given[p] + Removed(p) ELSE given[p]]
            /\ completed' = [p \in Clients |-> IF p \in Q THEN completed[p] + Removed(p) ELSE completed[p]]
            /\ LET over == {p \in Q : Removed(p) > 0 /\ completed[p] + Removed(p) = count[p]}
               IN /\ running' = [p \in Clients |-> IF p \in over THEN FALSE ELSE running[p]]
                  /\ asleepP' = asleepP \ over

(* Client c with provider c *)
Program(c) == IF c <= Len(sc.clients) THEN sc.clients[c] ELSE <<>>
AtEnd(c) == cpos[c] > Len(Program(c))
CurrentOp(c) == Program(c)[cpos[c]]
Step(c, pc) == cpc' = [cpc EXCEPT ![c] = pc]
NextOp(c) == cpc' = [cpc EXCEPT ![c] = "next"] /\ cpos' = [cpos EXCEPT ![c] = @ + 1]
WorkerSame == UNCHANGED <<wpc, wprov, wid, rcount, target, created>>

LifecycleOps == {"resize", "stop"}
MainInLifecycle == mpc \notin {"next", "removing"}
ClientAdds(c) == cpc[c] \in {"run2", "run3", "run4"}

CRun1(c) ==
    /\ cpc[c] = "next" /\ ~AtEnd(c) /\ CurrentOp(c)[1] = "run"
    /\ ~MainInLifecycle
    /\ LET n == CurrentOp(c)[2] IN
         /\ count' = [count EXCEPT ![c] = n]
         /\ Observe(P!RunCallOk(s, c, c, n), P!RunCallNext(s, c, c, n))
    /\ given' = [given EXCEPT ![c] = 0]
    /\ completed' = [completed EXCEPT ![c] = 0]
    /\ Step(c, "run2")
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, running, excRaised, asleepP, cpos, dead>> /\ WorkerSame /\ UNCHANGED MainVars

CRun2(c) ==
    /\ cpc[c] = "run2"
    /\ IF Workers = {}
         THEN /\ Observe(P!RunReturnOk(s, c, TRUE), P!RunReturnNext(s, c, TRUE))
              /\ NextOp(c)
              /\ UNCHANGED running
         ELSE /\ running' = [running EXCEPT ![c] = TRUE]
              /\ Step(c, "run3")
              /\ UNCHANGED cpos /\ Silent
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, excRaised, asleepP, dead>> /\ WorkerSame /\ UNCHANGED MainVars

CRun3(c) ==
    /\ cpc[c] = "run3"
    /\ queue' = queue \o [i \in 1 .. count[c] |-> c]
    /\ run' = [w \in W |-> IF w \in Workers /\ (Fault = "WakesFew" => w <= count[c]) THEN TRUE ELSE run[w]]
    /\ asleepW' = IF Fault = "NotifyOne" /\ asleepW # {} THEN asleepW \ {CHOOSE w \in asleepW : TRUE} ELSE {}
    /\ Step(c, "run4")
    /\ UNCHANGED <<sc, exit, count, given, completed, running, excRaised, asleepP, cpos, dead>> /\ WorkerSame /\ UNCHANGED MainVars /\ Silent

CRun4(c) ==
    /\ cpc[c] = "run4"
    /\ Observe(P!RunReturnOk(s, c, FALSE), P!RunReturnNext(s, c, FALSE))
    /\ NextOp(c)
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running, excRaised, asleepP, dead>> /\ WorkerSame /\ UNCHANGED MainVars

(* wait: directly, or as the end of the destruction of the provider *)
Waiting(c) == \/ cpc[c] = "next" /\ ~AtEnd(c) /\ CurrentOp(c)[1] = "wait"
              \/ cpc[c] = "delwait"
CWait(c) ==
    /\ Waiting(c)
    /\ IF running[c] /\ Fault # "WaitDoesNotWait"
         THEN /\ asleepP' = asleepP \cup {c}
              /\ Step(c, IF cpc[c] = "delwait" THEN "delsleep" ELSE "sleep")
              /\ UNCHANGED <<excRaised, cpos, dead>> /\ Silent
         ELSE /\ excRaised' = [excRaised EXCEPT ![c] = IF Fault = "FailureStays" THEN @ ELSE FALSE]
              /\ UNCHANGED asleepP
              /\ IF cpc[c] = "delwait"
                   THEN /\ Observe(P!DestroyedOk(s, c), P!DestroyedNext(s, c, c))
                        /\ dead' = [dead EXCEPT ![c] = TRUE]
                        /\ NextOp(c)
                   ELSE /\ Observe(P!WaitOk(s, c, ~excRaised[c]), P!WaitNext(s, c))
                        /\ UNCHANGED dead
                        /\ NextOp(c)
    /\ UNCHANGED <<sc, queue, run, exit, asleepW, count, given, completed, running>> /\ WorkerSame /\ UNCHANGED MainVars

CWake(c) ==
    /\ cpc[c] \in {"sleep", "delsleep"}
    /\ c \notin asleepP
    /\ Step(c, IF cpc[c] = "sleep" THEN "next" ELSE "delwait")
    /\ UNCHANGED <<sc, cpos, dead>> /\ UNCHANGED implvars /\ UNCHANGED MainVars /\ Silent

(* the owner does not use a provider which is being destroyed, and the other way round *)
CDel(c) ==
    /\ cpc[c] = "next" /\ ~AtEnd(c) /\ CurrentOp(c)[1] = "del"
    /\ mpc = "next"
    /\ Observe(TRUE, P!RemoveCallNext(s, c, "destroy", {c}))
    /\ Step(c, "delremove")
    /\ UNCHANGED <<sc, cpos, dead>> /\ UNCHANGED implvars /\ UNCHANGED MainVars

CDelRemove(c) ==
    /\ cpc[c] = "delremove"
    /\ RemoveTasks({c})
    /\ Step(c, "delwait")
    /\ UNCHANGED <<sc, run, exit, asleepW, count, excRaised, cpos, dead>> /\ WorkerSame /\ UNCHANGED MainVars /\ Silent

Client(c) == CRun1(c) \/ CRun2(c) \/ CRun3(c) \/ CRun4(c) \/ CWait(c) \/ CWake(c) \/ CDel(c) \/ CDelRemove(c)

----------------------------------------------------------------------------
(* The owner of the pool *)
MainDone == mpos > Len(sc.main)
MOp == sc.main[mpos]
MStep(pc) == mpc' = pc /\ UNCHANGED <<mpos, mj>>
MNext == mpc' = "next" /\ mpos' = mpos + 1 /\ mj' = 0
NobodyAdds == \A c \in Clients : ~ClientAdds(c) /\ cpc[c] \notin {"delremove", "delwait", "delsleep"}

MRemoveCall ==
    /\ mpc = "next" /\ ~MainDone
    /\ \/ MOp[1] = "clear" /\ Observe(TRUE, P!RemoveCallNext(s, Main, "clear", Clients))
       \/ MOp[1] = "remove" /\ ~dead[MOp[2]] /\ cpc[MOp[2]] \notin {"delremove", "delwait", "delsleep"}
          /\ Observe(TRUE, P!RemoveCallNext(s, Main, "remove", {MOp[2]}))
    /\ MStep("removing")
    /\ UNCHANGED sc /\ UNCHANGED implvars /\ UNCHANGED ClientVars

MSkip ==   \* the provider does not exist any more
    /\ mpc = "next" /\ ~MainDone /\ MOp[1] = "remove" /\ dead[MOp[2]]
    /\ MNext
    /\ UNCHANGED sc /\ UNCHANGED implvars /\ UNCHANGED ClientVars /\ Silent

MRemove ==
    /\ mpc = "removing" /\ mj = 0
    /\ RemoveTasks(IF MOp[1] = "clear" THEN Clients ELSE {MOp[2]})
    /\ mj' = 1 /\ UNCHANGED <<mpc, mpos>>
    /\ UNCHANGED <<sc, run, exit, asleepW, count, excRaised>> /\ WorkerSame /\ UNCHANGED ClientVars /\ Silent

MRemoveReturn ==
    /\ mpc = "removing" /\ mj = 1
    /\ Observe(TRUE, P!RemoveReturnNext(s, Main, MOp[1]))
    /\ MNext
    /\ UNCHANGED sc /\ UNCHANGED implvars /\ UNCHANGED ClientVars

(* stop; at the end of its program the owner destroys the pool when the clients are done, which is the same *)
MStopCall ==
    /\ mpc = "next" /\ NobodyAdds
    /\ IF MainDone THEN \A c \in Clients : AtEnd(c) /\ cpc[c] = "next" ELSE MOp[1] = "stop"
    /\ Observe(TRUE, P!RemoveCallNext(s, Main, "stop", Clients))
    /\ MStep("stop1")
    /\ UNCHANGED sc /\ UNCHANGED implvars /\ UNCHANGED ClientVars

MStop1 ==
    /\ mpc = "stop1"
    /\ RemoveTasks(Clients)
    /\ MStep("stop2")
    /\ UNCHANGED <<sc, run, exit, asleepW, count, excRaised>> /\ WorkerSame /\ UNCHANGED ClientVars /\ Silent

MStop2 ==
    /\ mpc = "stop2"
    /\ exit' = [w \in W |-> IF w \in Workers THEN TRUE ELSE exit[w]]
    /\ run' = [w \in W |-> IF w \in Workers THEN TRUE ELSE run[w]]
    /\ asleepW' = {}
    /\ MStep("stop3")
    /\ UNCHANGED <<sc, queue, count, given, completed, running, excRaised, asleepP>> /\ WorkerSame /\ UNCHANGED ClientVars /\ Silent

MStop3 ==
    /\ mpc = "stop3"
    /\ \A w \in Workers : wpc[w] = "gone"
    /\ wpc' = [w \in W |-> "off"]
    /\ exit' = IF Fault = "StopKeepsExit" THEN exit ELSE [w \in W |-> FALSE]
    /\ run' = [w \in W |-> FALSE]
    /\ Observe(P!StopReturnOk(s, 0), P!StopReturnNext(s, Main))
    /\ IF MainDone THEN MStep("over") ELSE MNext
    /\ UNCHANGED <<sc, queue, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount, target, created>> /\ UNCHANGED ClientVars

MResizeCall ==
    /\ mpc = "next" /\ NobodyAdds
    /\ ~MainDone /\ MOp[1] = "resize"
    /\ Observe(TRUE, P!ResizeCallNext(s, Main, MOp[2]))
    /\ MStep("resize")
    /\ UNCHANGED sc /\ UNCHANGED implvars /\ UNCHANGED ClientVars

Size == Cardinality(Workers)
MResize ==
    /\ mpc = "resize"
    /\ LET n == MOp[2] IN
       IF n > Size
         THEN /\ run' = [w \in W |-> IF w > Size /\ w <= n THEN TRUE ELSE run[w]]
              /\ exit' = IF Fault = "StopKeepsExit" THEN exit ELSE [w \in W |-> IF w > Size THEN FALSE ELSE exit[w]]
              /\ target' = n
              /\ created' = FALSE
              /\ wpc' = [w \in W |-> IF w > Size /\ w <= n THEN "init" ELSE wpc[w]]
              /\ MStep("grow")
              /\ UNCHANGED asleepW
         ELSE /\ run' = [w \in W |-> IF w > n /\ w <= Size THEN TRUE ELSE run[w]]
              /\ exit' = [w \in W |-> IF w > n /\ w <= Size THEN TRUE ELSE exit[w]]
              /\ asleepW' = {}
              /\ MStep("shrink")
              /\ UNCHANGED <<target, created, wpc>>
    /\ UNCHANGED <<sc, queue, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount>> /\ UNCHANGED ClientVars /\ Silent

MGrown ==
    /\ mpc = "grow"
    /\ created
    /\ Observe(P!ResizeReturnOk(s, MOp[2], Size, FALSE), P!ResizeReturnNext(s, MOp[2], FALSE))
    /\ MNext
    /\ UNCHANGED sc /\ UNCHANGED implvars /\ UNCHANGED ClientVars

MShrunk ==
    /\ mpc = "shrink"
    /\ LET n == MOp[2] IN
         /\ \A w \in Workers : w > n => wpc[w] = "gone"
         /\ wpc' = [w \in W |-> IF w > n THEN "off" ELSE wpc[w]]
         /\ exit' = [w \in W |-> IF w > n THEN FALSE ELSE exit[w]]
         /\ Observe(P!ResizeReturnOk(s, n, n, FALSE), P!ResizeReturnNext(s, n, FALSE))
    /\ MNext
    /\ UNCHANGED <<sc, queue, run, asleepW, count, given, completed, running, excRaised, asleepP, wprov, wid, rcount, target, created>> /\ UNCHANGED ClientVars

Owner == MRemoveCall \/ MSkip \/ MRemove \/ MRemoveReturn \/ MStopCall \/ MStop1 \/ MStop2 \/ MStop3 \/ MResizeCall \/ MResize \/ MGrown \/ MShrunk

----------------------------------------------------------------------------
Finished == mpc = "over" /\ UNCHANGED vars

Next == (\E w \in W : Worker(w)) \/ (\E c \in Clients : Client(c)) \/ Owner \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(Owner) /\ (\A w \in W : WF_vars(Worker(w))) /\ (\A c \in Clients : WF_vars(Client(c)))

(* Every observation is one which ThreadPool allows, and no destroyed provider is used. *)
Refines == ok
(* Every program comes to its end (with deadlock checking: nothing blocks for ever). *)
Terminates == <>(mpc = "over")
AllScenarios == TaskScenarios \cup LifeScenarios
=============================================================================
