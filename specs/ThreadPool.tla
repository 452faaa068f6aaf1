----------------------------- MODULE ThreadPool -----------------------------
(* What users of a thread pool may rely on, in terms of what they can observe:
   calls and returns of the operations of the pool and of its task providers,
   and starts and ends of tasks.

   A provider works in rounds: run opens a round of n tasks, wait ends it. While
   a round is open each of its tasks starts at most once, on a thread of the pool
   which is not busy. Operations which remove tasks (clear, remove, stop, the
   destruction of the provider or of the pool) allow tasks of the round to be
   dropped from the moment they are called. Once they have returned only tasks
   which a thread had taken before may still start: at most one on each thread
   which was not busy then (closed: the tasks of the round were removed; barred:
   threads which cannot start one of them any more).

   Each operator  XxxOk  decides whether an observation is allowed in a state,
   each operator  XxxNext  gives the state which follows it. A state is a record
     size      number of threads of the pool
     target    number of threads a resize in progress is going to
     busy      tasks being executed: set of <<thread, provider, task>>
     prov      for each provider the record Round below
     ops       removing operations in progress: thread -> set of <<provider, round>> which had been submitted before
     callers   threads which have called an operation
   The module can be explored by itself (ThreadPoolAbs) and is used to check
   recorded executions (ThreadPoolTrace).                                     *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, TLC

NoRound == [round |-> 0, open |-> FALSE, returned |-> FALSE, n |-> 0, started |-> {}, ended |-> {}, threw |-> FALSE,
            drop |-> FALSE, closed |-> FALSE, barred |-> {}]

InitialState(P) == [size |-> 0, target |-> 0, busy |-> {}, prov |-> [p \in P |-> NoRound], ops |-> {}, callers |-> {}]

Max2(a, b) == IF a > b THEN a ELSE b
BusyOf(s, p) == {b \in s.busy : b[2] = p}
Unstarted(r) == r.n - Cardinality(r.started)
Capacity(s) == Max2(s.size, s.target)

(* An operation in progress which removes tasks of the providers in targets is a record
   [t, kind, affected, targets] in ops; affected are the rounds submitted before the call. *)
Caller(s, t) == [s EXCEPT !.callers = @ \cup {t}]

----------------------------------------------------------------------------
(* run *)
RunCallOk(s, t, p, n) == n > 0 /\ ~s.prov[p].open
RunCallNext(s, t, p, n) ==
    LET r == s.prov[p]
        drop == \E o \in s.ops : p \in o.targets
    IN Caller([s EXCEPT !.prov[p] = [NoRound EXCEPT !.round = r.round + 1, !.open = TRUE, !.n = n, !.drop = drop]], t)

(* run returns; it is refused when the pool has no threads *)
RunReturnOk(s, p, refused) ==
    /\ refused = (s.size = 0)
    /\ refused => s.prov[p].started = {}
RunReturnNext(s, p, refused) ==
    IF refused THEN [s EXCEPT !.prov[p].open = FALSE, !.prov[p].closed = TRUE]
    ELSE [s EXCEPT !.prov[p].returned = TRUE]

(* a task starts *)
StartReasons(s, t, p, k) ==
    LET r == s.prov[p] IN
      (IF ~r.open \/ (r.closed /\ t \in r.barred) THEN {"late"} ELSE {})
      \cup (IF k \in 0 .. r.n - 1 THEN {} ELSE {"unknown task"})
      \cup (IF k \in r.started THEN {"twice"} ELSE {})
      \cup (IF t \in s.callers \/ \E b \in s.busy : b[1] = t THEN {"thread"} ELSE {})
      \cup (IF Cardinality(s.busy) < Capacity(s) THEN {} ELSE {"too many threads"})
StartOk(s, t, p, k) == StartReasons(s, t, p, k) = {}
StartNext(s, t, p, k) ==
    [s EXCEPT !.busy = @ \cup {<<t, p, k>>},
              !.prov[p].started = @ \cup {k},
              !.prov[p].barred = IF s.prov[p].closed THEN @ \cup {t} ELSE @]

(* nothing can happen before one of the tasks being executed ends: no thread of the pool may be idle while a task waits *)
QuietOk(s) ==
    \/ Cardinality(s.busy) >= s.size
    \/ \A p \in DOMAIN s.prov : LET r == s.prov[p] IN ~r.open \/ r.drop \/ Unstarted(r) = 0

(* a task ends, possibly by throwing *)
FinishOk(s, t, p, k) == <<t, p, k>> \in s.busy
FinishNext(s, t, p, k, threw) ==
    [s EXCEPT !.busy = @ \ {<<t, p, k>>}, !.prov[p].ended = @ \cup {k}, !.prov[p].threw = @ \/ threw]

(* wait returns *)
WaitReasons(s, p, ok) ==
    LET r == s.prov[p] IN
      IF ~r.open THEN IF ok THEN {} ELSE {"result"}
      ELSE (IF BusyOf(s, p) = {} THEN {} ELSE {"early"})
           \cup (IF r.drop \/ Unstarted(r) = 0 THEN {} ELSE {"early"})
           \cup (IF ok = ~r.threw THEN {} ELSE {"result"})
WaitOk(s, p, ok) == WaitReasons(s, p, ok) = {}
WaitNext(s, p) == [s EXCEPT !.prov[p] = [@ EXCEPT !.open = FALSE, !.closed = TRUE, !.threw = FALSE]]

(* operations which remove tasks: of one provider, or of all of them *)
Submitted(s, P) == {<<p, s.prov[p].round>> : p \in {q \in P : s.prov[q].open /\ s.prov[q].returned}}
RemoveCallNext(s, t, kind, P) ==
    LET o == [t |-> t, kind |-> kind, affected |-> Submitted(s, P), targets |-> P]
    IN Caller([s EXCEPT !.ops = @ \cup {o},
                        !.prov = [p \in DOMAIN @ |-> IF p \in P /\ @[p].open THEN [@[p] EXCEPT !.drop = TRUE] ELSE @[p]]], t)
OpOf(s, t, kind) == CHOOSE o \in s.ops : o.t = t /\ o.kind = kind
RemoveReturnNext(s, t, kind) ==
    LET o == OpOf(s, t, kind) IN
    [s EXCEPT !.ops = @ \ {o},
              !.prov = [p \in DOMAIN @ |-> IF <<p, @[p].round>> \in o.affected THEN [@[p] EXCEPT !.closed = TRUE, !.barred = @ \cup {b[1] : b \in s.busy}] ELSE @[p]]]

(* the destruction of a provider has removed its tasks and waited for those being executed *)
DestroyedOk(s, p) == BusyOf(s, p) = {}
DestroyedNext(s, t, p) == LET n == RemoveReturnNext(s, t, "destroy") IN [n EXCEPT !.prov[p].open = FALSE, !.prov[p].closed = TRUE, !.prov[p].threw = FALSE]

(* stop, or the destruction of the pool, returns: no thread is left and no task is being executed *)
StopReturnOk(s, count) == s.busy = {} /\ count = 0
StopReturnNext(s, t) == [RemoveReturnNext(s, t, "stop") EXCEPT !.size = 0, !.target = 0]

(* resize *)
ResizeCallNext(s, t, n) == Caller([s EXCEPT !.target = n], t)
ResizeReturnOk(s, n, count, refused) ==
    IF n = 0 THEN refused /\ count = s.size
    ELSE ~refused /\ count = n /\ Cardinality(s.busy) <= n
ResizeReturnNext(s, n, refused) == [s EXCEPT !.size = IF refused THEN @ ELSE n, !.target = 0]

(* empty: tasks may be in the pool if some provider has tasks which have not started; they have to be, if there are
   more of these, submitted before the call, than threads which could be about to start one                          *)
MayHaveTasks(s) == \E p \in DOMAIN s.prov : LET r == s.prov[p] IN r.open /\ ~r.closed /\ Unstarted(r) > 0
HasTasks(s, before) ==
    LET waiting == {p \in DOMAIN s.prov : LET r == s.prov[p] IN r.open /\ ~r.drop /\ <<p, r.round>> \in before}
    IN Cardinality({<<p, k>> \in waiting \X (0 .. 63) : k < s.prov[p].n /\ k \notin s.prov[p].started}) > Capacity(s) - Cardinality(s.busy)
=============================================================================
