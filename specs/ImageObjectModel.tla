-------------------------- MODULE ImageObjectModel --------------------------
(* Explores every history of operations on two images of small geometry: the invariants of ImageObject hold in every
   state, and every transition is printed as a script (the operations which lead to it) for the driver harness/objdrv.cpp,
   which runs it on the real class. Buffers are allocated and released explicitly here.                                   *)
EXTENDS ImageObject, SequencesExt

CONSTANT Printing

Slots == {0, 1}
Types == {0, 7}
Sides == {1, 2}
Colours == {1, 3}
Alignments == {1, 4}
Buffers == 1 .. 5
Sizes == Sides \X Sides

VARIABLES S, heap, hist, ok
vars == <<S, heap, hist, ok>>
View == <<ok, [s \in Slots |-> <<S[s].live, S[s].ty, S[s].w, S[s].h, S[s].cc, S[s].al, S[s].rs, S[s].b # 0>>]>>

Init == S = [s \in Slots |-> Dead] /\ heap = {} /\ hist = "" /\ ok = TRUE

E(op, s, t, a) == [op |-> op, s |-> s, t |-> t, a |-> a, hu |-> 0, b |-> 0, dat |-> <<>>]
Operations ==
    {E("new", s, s, <<ty, z[1], z[2], c, l>>) : s \in Slots, ty \in Types, z \in Sizes \cup {<<0, 0>>, <<0, 1>>}, c \in Colours, l \in Alignments}
    \cup {E(op, s, t, <<>>) : op \in {"cctor", "mctor", "casg", "copy", "masg", "swap", "eq"}, s \in Slots, t \in Slots}
    \cup {E(op, s, s, <<>>) : op \in {"del", "clear"}, s \in Slots}
    \cup {E("resize", s, s, <<z[1], z[2]>>) : s \in Slots, z \in Sizes \cup {<<0, 0>>, <<0, 2>>, <<1, 0>>}}
    \cup {E("cc", s, s, <<c>>) : s \in Slots, c \in Colours \cup {0}}
    \cup {E("al", s, s, <<c>>) : s \in Slots, c \in Alignments \cup {0}}
    \cup {E("mutate", s, s, <<z[1], z[2], c, l>>) : s \in Slots, z \in Sizes, c \in Colours \cup {0}, l \in Alignments}
    \cup {[E("assign", s, s, <<z[1], z[2], c, l>>) EXCEPT !.b = Fresh, !.dat = Undefined] : s \in Slots, z \in Sizes \cup {<<0, 1>>}, c \in Colours, l \in Alignments}
    \cup {E("assign", s, s, <<1, 1, 1, 1>>) : s \in Slots}
    \cup {E("fill", s, s, <<v>>) : s \in Slots, v \in {7}}
    \cup {E("set", s, s, <<k, 9>>) : s \in Slots, k \in {1}}
    \cup {E("gen", s, 1 - s, <<z[1], z[2], 3, 4>>) : s \in Slots, z \in {<<0, 0>>, <<2, 1>>}}

NeedsOther(op) == op \in {"cctor", "mctor", "casg", "copy", "masg", "swap", "eq", "gen"}
Text(e) == e.op \o " " \o ToString(e.s) \o (IF NeedsOther(e.op) THEN " " \o ToString(e.t) ELSE "")
           \o (IF e.op = "assign" THEN (IF e.b = 0 THEN " 0" ELSE " 1") ELSE "")
           \o FoldLeft(LAMBDA acc, x : acc \o " " \o ToString(x), "", e.a) \o "; "

Materialised(T, H) ==   \* gives new buffers identities
    LET new == {s \in Slots : T[s].b = Fresh}
        free == CHOOSE f \in [new -> Buffers \ H] : \A s, t \in new : s # t => f[s] # f[t]
    IN [s \in Slots |-> IF s \in new THEN [T[s] EXCEPT !.b = free[s], !.d = <<>>] ELSE [T[s] EXCEPT !.d = <<>>]]

Step(e) ==
    /\ Callable(S, e)
    /\ e.op \in {"cctor", "mctor", "gen"} => e.s # e.t
    /\ LET r == Apply(S, e)
           T == Materialised(r.S, {S[s].b : s \in Slots})
           before == {S[s].b : s \in Owners(S)}
           after == {T[s].b : s \in Owners(T)}
       IN /\ S' = T
          /\ heap' = (heap \ (before \ after)) \cup (after \ before)
          /\ ok' = (ok /\ (r.x => T = S) /\ \A s \in Slots : s \in {e.s, e.t} \/ T[s] = S[s])
    /\ hist' = hist \o Text(e)
    /\ Printing => PrintT(<<"SCRIPT", hist'>>)

Next == \E e \in Operations : Step(e)
Spec == Init /\ [][Next]_vars

Good == /\ ok
        /\ \A s \in Slots : WellFormed(S[s])
        /\ Disjoint(S)
        /\ heap = {S[s].b : s \in Owners(S)}
=============================================================================
