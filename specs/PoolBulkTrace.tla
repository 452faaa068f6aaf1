---------------------------- MODULE PoolBulkTrace ---------------------------
(* What the invariants of ThreadPool add up to over many rounds, many tasks and many pools: sums recorded of programs which run on
   real threads.                                                                                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

\* rounds 0 .. n - 1 in which a task threw: every e-th, beginning with the salt
Throwing(n, e, salt) == IF e = 0 \/ n <= salt % e THEN 0 ELSE (n - 1 - (salt % e)) \div e + 1

JudgeClient(e, c) ==
    If(c.rounds = e.rounds, "driver") \cup
    If(c.missed = 0 /\ c.wrong = 0 /\ c.ran >= e.rounds * e.tasks, "missing") \cup
    If(c.repeated = 0 /\ c.ran <= e.rounds * e.tasks, "twice") \cup
    If(c.off = 0, "thread") \cup
    If(c.late = 0, "early") \cup
    If(c.falsely = 0 /\ c.silent = 0 /\ c.failed = Throwing(e.rounds, e.every, c.salt), "result")
Judge(e) ==
    CASE e.e \in {"rounds", "lives"} -> If(e.high <= e.threads, "concurrency") \cup UNION {JudgeClient(e, e.clients[i]) : i \in DOMAIN e.clients}
      [] OTHER -> {}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET j == Judge(Trace[l]) IN bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
