-------------------------- MODULE ImageObjectTrace --------------------------
(* Checks recorded histories of real image objects against ImageObject. *)
EXTENDS ImageObject, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == 0 .. 3

VARIABLES l, S, bad, lost   \* lost: something went wrong in this history
vars == <<l, S, bad, lost>>

AllDead == [s \in Slots |-> Dead]
Init == l = 1 /\ S = AllDead /\ bad = <<>> /\ lost = FALSE

If(c, reason) == IF c THEN {} ELSE {reason}

(* the images after a step: those reported as changed, the others as before *)
Seen(e) ==
    LET ids == {e.st[k].id : k \in 1 .. Len(e.st)}
        at(s) == LET k == CHOOSE k \in 1 .. Len(e.st) : e.st[k].id = s IN e.st[k]
    IN [s \in Slots |-> IF s \notin ids THEN S[s]
                        ELSE LET i == at(s) IN [live |-> i.live = 1, ty |-> i.ty, w |-> i.w, h |-> i.h, cc |-> i.cc, al |-> i.al, rs |-> i.rs, b |-> i.b, d |-> i.d]]

Geometry(m) == <<m.live, m.w, m.h, m.cc, m.al, m.rs>>
(* pixels have to agree; padding too when the buffer is the same one *)
SamePixels(m, want, same) ==
    \/ want.d = Undefined
    \/ m.d = want.d
    \/ ~same /\ Len(m.d) = Len(want.d) /\ \A k \in 1 .. Len(m.d) : (k - 1) % m.rs < m.w * m.cc => m.d[k] = want.d[k]

Judge(e, T) ==
    LET r == Apply(S, e)
        kept == {s \in Slots : S[s] = r.S[s]}
    IN  If((e.x = 1) = r.x, IF e.x = 1 THEN "refused" ELSE "accepted")
        \cup If(e.x \in {0, 1}, "exception")
        \cup If(e.x # 0 \/ e.r = r.r, "result")
        \cup If(\A s \in kept : T[s] = S[s], "other")
        \cup If(\A s \in Slots \ kept : Geometry(T[s]) = Geometry(r.S[s]), "geometry")
        \cup If(\A s \in Slots \ kept : T[s].ty = r.S[s].ty \/ (e.op = "mctor" /\ s = e.t), "type")
        \cup If(\A s \in Slots \ kept : IF r.S[s].b = Fresh THEN T[s].b # 0 ELSE T[s].b = r.S[s].b, "buffer")
        \cup If(\A s \in Slots : Geometry(T[s]) # Geometry(r.S[s]) \/ SamePixels(T[s], r.S[s], e.op \notin {"fill"} /\ r.S[s].b # Fresh), "contents")
        \cup If(\A s \in Slots : WellFormed(T[s]) /\ Len(T[s].d) = T[s].h * T[s].rs, "shape")
        \cup If(Disjoint(T), "shared")
        \* memory obtained through the allocation functions of an image type: as many buffers as images have, each of the right size
        \cup If(e.lv = Cardinality({s \in Owners(T) : T[s].ty # 0}) /\ e.lb = 0, "ledger")
        \cup If(\A k \in 1 .. Len(e.st) : LET i == e.st[k] IN i.n = -1 \/ (IF i.ty = 0 THEN i.n >= i.h * i.rs ELSE i.n = i.h * i.rs), "size")

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
         CASE e.e = "begin" -> S' = AllDead /\ bad' = bad /\ lost' = FALSE
           [] e.e = "end" -> /\ S' = AllDead
                             /\ bad' = IF e.leak = 0 \/ lost THEN bad ELSE Append(bad, <<l, {"leak"}>>)
                             /\ UNCHANGED lost
           [] lost -> UNCHANGED <<S, bad, lost>>
           [] OTHER -> LET T == Seen(e)
                           j == IF Callable(S, e) THEN Judge(e, T) ELSE {"driver"}
                       IN S' = T /\ bad' = (IF j = {} THEN bad ELSE Append(bad, <<l, j>>)) /\ lost' = (j # {})

Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
