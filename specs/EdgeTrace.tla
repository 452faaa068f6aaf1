----------------------------- MODULE EdgeTrace ------------------------------
(* Checks recorded edge searches of the real code against Edge. *)
EXTENDS Edge, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

RegionOk(e) == e.cc = 1 /\ e.w > 0 /\ e.h > 0 /\ e.x + e.w <= e.iw /\ e.y + e.h <= e.ih
Valid(e) == RegionOk(e) /\ e.group > 0 /\ e.skip > 0 /\ e.contrast > 0
Close(a, b) == a[1] - b[1] \in -1 .. 1 /\ a[2] - b[2] \in -1 .. 1
SomeClose(p, points) == \E q \in points : Close(p, q)
\* the reported points of a line are the expected ones; the order is open. If differences of exactly the contrast are among them: some of them
LineOk(reported, expected) ==
    \/ \E strict \in BOOLEAN : /\ Cardinality(reported) = Cardinality(expected[strict])
                              /\ (\A p \in expected[strict] : SomeClose(p, reported))
                              /\ (\A q \in reported : SomeClose(q, expected[strict]))
    \/ expected[TRUE] # expected[FALSE] /\ (\A q \in reported : SomeClose(q, expected[TRUE] \cup expected[FALSE]))
PointsOk(reported, expected, e) ==
    LET c == IF e.dir \in {"right", "left"} THEN 2 ELSE 1
        base == IF c = 2 THEN e.y ELSE e.x
        OfLine(k) == { p \in ToSet(reported) : p[c] - 1000 * (base + k) - 500 * (e.group - 1) \in -1 .. 1 }
    IN /\ Len(reported) = Cardinality(ToSet(reported))
       /\ \A k \in DOMAIN expected : LineOk(OfLine(k), expected[k])
       /\ \A p \in ToSet(reported) : \E k \in DOMAIN expected : p \in OfLine(k)

JudgeFind(e) ==
    IF ~Valid(e) THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception") \cup If(e.pos = <<>> /\ e.neg = <<>>, "results")
    ELSE IF e.t # 0 THEN {"refused"}
    ELSE LET pixel(px, py) == e.d[py * e.iw + px + 1]
             p == [direction |-> e.dir, gradient |-> e.grad, kind |-> e.kind, group |-> e.group, skip |-> e.skip, left |-> e.left, right |-> e.right, contrast |-> e.contrast]
             expected == EdgePoints(pixel, p, <<e.x, e.y, e.w, e.h>>)
         IN If(PointsOk(e.pos, expected[1], e), "positive") \cup If(PointsOk(e.neg, expected[2], e), "negative")

Judge(e) == CASE e.e \in {"begin", "start", "end"} -> {} [] e.e = "find" -> JudgeFind(e) [] OTHER -> {"driver"}

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET j == Judge(Trace[l]) IN bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
