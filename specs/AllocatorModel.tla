--------------------------- MODULE AllocatorModel ---------------------------
(* The design of the pool: reserved memory is divided into powers of two which are halved for a request and joined again.
   Explored exhaustively for small sizes; has to be what Allocator asks for. With Printing every transition is printed as a
   script for harness/allocdrv.cpp. Fault selects a known mistake ("none": the design of the code).                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Printing, Fault, Sizes, Lengths, MaxBlocks

A == INSTANCE Allocator

VARIABLES size, free, used, hist, abs, ok, n
vars == <<size, free, used, hist, abs, ok, n>>
View == <<ok, size, free, {<<used[i].off, used[i].lev>> : i \in DOMAIN used}>>

Levels == 0 .. 4
Pow(k) == 2 ^ k
RECURSIVE Level(_, _)
Level(len, k) == IF Pow(k) >= len THEN k ELSE Level(len, k + 1)

(* the powers of two the reserved memory consists of *)
RECURSIVE Pieces(_, _)
Pieces(left, at) == IF left = 0 THEN {} ELSE LET k == IF Pow(Level(left, 0)) > left THEN Level(left, 0) - 1 ELSE Level(left, 0) IN {<<k, at>>} \cup Pieces(left - Pow(k), at + Pow(k))
Initially(m) == [k \in Levels |-> {p[2] : p \in {q \in Pieces(m, 0) : q[1] = k}}]
NoMemory == [k \in Levels |-> {}]

Init == size = 0 /\ free = NoMemory /\ used = <<>> /\ hist = "" /\ abs = A!InitialState /\ ok = TRUE /\ n = 0

(* halve chunks until there is one of level k *)
RECURSIVE Halve(_, _, _)
Halve(f, from, k) ==
    IF from = k THEN f
    ELSE LET c == Min(f[from]) IN Halve([f EXCEPT ![from] = @ \ {c}, ![from - 1] = @ \cup {c, c + Pow(from - 1)}], from - 1, k)

RECURSIVE Join(_, _, _)
Join(f, c, k) ==
    LET buddy == IF (c \div Pow(k)) % 2 = 0 THEN c + Pow(k) ELSE c - Pow(k)
        next == IF Fault = "JoinNeighbours" /\ c + Pow(k) \in f[k] THEN c + Pow(k)
                ELSE IF Fault = "JoinNeighbours" /\ c - Pow(k) \in f[k] THEN c - Pow(k)
                ELSE IF Fault = "JoinNeighbours" THEN -1 ELSE buddy
        low == IF c < next THEN c ELSE next
    IN IF Fault = "NeverJoins" \/ next \notin f[k] \/ k + 1 \notin Levels THEN f
       ELSE Join([f EXCEPT ![k] = @ \ {c, next}, ![k + 1] = @ \cup {low}], low, k + 1)

Script(t) == hist' = hist \o t /\ (Printing => PrintT(<<"SCRIPT", hist'>>))

Reserve(m) ==
    /\ Script("reserve " \o ToString(m) \o " ; ")
    /\ n' = n
    /\ IF m = 0 \/ (m # size /\ used # <<>> /\ Fault # "ReserveAlways")
         THEN /\ ok' = (ok /\ A!ReserveMayFail(abs, m))
              /\ UNCHANGED <<size, free, used, abs>>
         ELSE /\ ok' = (ok /\ ~A!ReserveMustFail(abs, m))
              /\ abs' = A!ReserveNext(abs, m)
              /\ size' = m
              /\ free' = IF m = size THEN free ELSE Initially(m)
              /\ used' = IF m = size THEN used ELSE <<>>

Allocate(len) ==
    /\ Cardinality(DOMAIN used) < MaxBlocks
    /\ Script("alloc " \o ToString(len) \o " ; ")
    /\ n' = n + 1
    /\ LET k == Level(len, 0)
           fit == {j \in Levels : j >= k /\ free[j] # {}}
           served == size > 0 /\ len < size /\ fit # {}
       IN IF served
            THEN LET f == Halve(free, Min(fit), k)
                     c == Min(f[k])
                     b == [blk |-> 0, off |-> c, len |-> len, pool |-> TRUE]
                 IN /\ free' = [f EXCEPT ![k] = @ \ {c}]
                    /\ used' = (n :> [off |-> c, lev |-> k]) @@ used
                    /\ ok' = (ok /\ A!AllocReasons(abs, b, size, TRUE) = {})
                    /\ abs' = A!AllocNext(abs, n, b, <<len, 1>>, TRUE, TRUE)
            ELSE /\ ok' = (ok /\ A!CapacityReasons(abs, <<len, 1>>, FALSE) = {})
                 /\ abs' = A!FreeNext(A!AllocNext(abs, n, [blk |-> n + 1, off |-> 0, len |-> len, pool |-> FALSE], <<len, 1>>, FALSE, TRUE), n)
                 /\ UNCHANGED <<free, used>>
    /\ UNCHANGED size

Free(i) ==
    /\ Script("free " \o ToString(i) \o " ; ")
    /\ LET c == used[i].off
           k == used[i].lev
       IN /\ free' = Join([free EXCEPT ![k] = @ \cup {c}], c, k)
          /\ used' = [j \in DOMAIN used \ {i} |-> used[j]]
    /\ abs' = A!FreeNext(abs, i)
    /\ UNCHANGED <<size, ok, n>>

Next == (\E m \in Sizes : Reserve(m)) \/ (\E len \in Lengths : Allocate(len)) \/ (\E i \in DOMAIN used : Free(i))
Spec == Init /\ [][Next]_vars

(* free and used chunks are the reserved memory, each byte of it once *)
Chunks == {<<k, c>> : k \in Levels, c \in 0 .. 31} \cap UNION {{<<k, c>> : c \in free[k]} : k \in Levels}
Covering(x) == {p \in Chunks : p[2] <= x /\ x < p[2] + Pow(p[1])}
CoveringUsed(x) == {i \in DOMAIN used : used[i].off <= x /\ x < used[i].off + Pow(used[i].lev)}
Tiled == \A x \in 0 .. 31 : Cardinality(Covering(x)) + Cardinality(CoveringUsed(x)) = IF x < size THEN 1 ELSE 0
Recovered == used = <<>> => free = (IF size = 0 THEN NoMemory ELSE Initially(size))
Good == ok /\ Tiled /\ Recovered
=============================================================================
