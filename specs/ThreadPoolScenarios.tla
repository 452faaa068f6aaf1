------------------------ MODULE ThreadPoolScenarios ------------------------
(* Client programs for a pool. A scenario is a record [threads, main, clients]:
   the number of threads the pool is created with, the program of the thread
   which owns the pool and the programs of other threads, each of which has a
   task provider of its own. An operation is a tuple
     <<"run", n, mask>>  <<"wait">>  <<"del">>  <<"clear">>  <<"remove", client>>  <<"resize", n>>  <<"stop">>
   The same sets are explored exhaustively by ThreadPoolImpl and run against the
   real pool (ThreadPoolGenerate prints them for the driver).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Op(name) == <<name, 0, 0>>
Run(n, mask) == <<"run", n, mask>>

(* one or two rounds of at most two tasks, tasks which throw, the provider destroyed at once or at the end *)
ClientPrograms ==
    {<<Run(n, m), Op("wait")>> : n \in 1 .. 2, m \in 0 .. 1}
    \cup {<<Run(2, m), Op("wait"), Run(1, 0), Op("wait")>> : m \in {0, 2}}
    \cup {<<Run(n, 0), Op("wait"), Op("del")>> : n \in 1 .. 2}
    \cup {<<Run(2, 0), Op("del")>>}

(* the tasks of a round wait for each other: a mask of 8 or more *)
SideBySide == {<<Run(2, 8 + m), Op("wait")>> : m \in 0 .. 1} \cup {<<Run(2, 0), Op("wait"), Run(2, 8), Op("wait")>>}
Barrier(op) == op[3] \in 8 .. 15

(* the tasks of a round do not end before nothing else can happen: a mask of 16 or more *)
Slow == {<<Run(n, 16 + m), Op("wait")>> : n \in 1 .. 2, m \in 0 .. 1} \cup {<<Run(1, 16), Op("wait"), Run(2, 16), Op("del")>>}
Quiet(op) == op[3] >= 16

SmallPrograms == {<<Run(2, 0), Op("wait")>>, <<Run(1, 1), Op("wait"), Op("del")>>}

Removing == {<<"clear", 0, 0>>, <<"remove", 1, 0>>}
Lifecycle == {<<"stop", 0, 0>>} \cup {<<"resize", n, 0>> : n \in 1 .. 3}

(* without operations of the owner: one or two clients *)
TaskScenarios ==
    {[threads |-> t, main |-> <<>>, clients |-> <<a>>] : t \in 1 .. 2, a \in ClientPrograms}
    \cup {[threads |-> t, main |-> <<>>, clients |-> <<a, b>>] : t \in 1 .. 2, a \in ClientPrograms, b \in SmallPrograms}
    \cup {[threads |-> t, main |-> <<>>, clients |-> <<a>>] : t \in 2 .. 3, a \in SideBySide}
    \cup {[threads |-> 2, main |-> <<>>, clients |-> <<a, b>>] : a \in SideBySide, b \in SmallPrograms}
    \cup {[threads |-> t, main |-> <<>>, clients |-> <<a>>] : t \in 1 .. 3, a \in Slow}
    \cup {[threads |-> t, main |-> <<>>, clients |-> <<a, b>>] : t \in 2 .. 3, a \in Slow, b \in {<<Run(n, m), Op("wait")>> : n \in 1 .. 2, m \in {0, 16}}}

(* with operations of the owner while a client is at work *)
LifeScenarios ==
    {[threads |-> t, main |-> <<x>>, clients |-> <<a>>] : t \in 1 .. 2, x \in Removing \cup Lifecycle, a \in ClientPrograms}
    \cup {[threads |-> t, main |-> <<x, y>>, clients |-> <<a>>] : t \in {2}, x \in Removing \cup Lifecycle, y \in Lifecycle, a \in SmallPrograms}
=============================================================================
