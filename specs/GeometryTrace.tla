--------------------------- MODULE GeometryTrace ----------------------------
(* Checks recorded calls of points, lines and linear systems against Geometry. Results are recorded times Scale.            *)
EXTENDS Geometry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}
Slack(e) == IF e.ty = "float" THEN 10 ELSE 1
Fits(r, q) == Abs(r) <= 1000000000 \div Abs(q)
Is(e, r, p, q) == Fits(r, q) /\ Near(r, p, q, Slack(e))

JudgeLine(e) ==
    LET m == e.m
        f == Foot(m, e.px, e.py)
        o == Opposite(m, e.px, e.py)
        q == m.n * m.n
    IN If(Is(e, e.dist, Distance(m, e.px, e.py), m.n), "distance")
       \cup If(Is(e, e.foot[1], f[1], q) /\ Is(e, e.foot[2], f[2], q), "projection")
       \cup If(Is(e, e.opp[1], o[1], q) /\ Is(e, e.opp[2], o[2], q), "opposite")
       \cup If(Is(e, e.pos[1], m.x, 1) /\ Is(e, e.pos[2], m.y, 1), "position")
       \cup If(Is(e, e.cs[1], m.dx, m.n) /\ Is(e, e.cs[2], m.dy, m.n), "angle")

JudgePair(e) ==
    LET d == Den(e.m, e.k)
        p == Common(e.m, e.k)
    IN If((e.parallel = 1) <=> (d = 0), "parallel") \cup If(e.intersect = 1 - e.parallel, "intersects")
       \cup If((e.hit = 1) <=> (d # 0), "intersection")
       \cup If(d = 0 \/ e.hit = 0 \/ (e.ty = "float" /\ 20 * Abs(d) < e.m.n * e.k.n) \/ (Is(e, e.at[1], p[1], d) /\ Is(e, e.at[2], p[2], d)), "common point")
       \cup If(IF e.ty = "float" THEN e.equal = 1 => SameLine(e.m, e.k) ELSE (e.equal = 1) <=> SameLine(e.m, e.k), "equality")

JudgeFit(e) ==
    LET n == Len(e.xs) IN
    IF n < 2 THEN If(e.t = 0, "refused")
    ELSE If(e.t = 0, "refused") \cup If(Is(e, e.pos[1], Sum(e.xs), n) /\ Is(e, e.pos[2], Sum(e.ys), n), "centre")
         \cup LET all == TLCEval(Directions(e.xs, e.ys))
              IN If(\E d \in all : LET size == Abs(d[1]) + Abs(d[2])
                                   IN size = 0 \/ (e.ty = "float" /\ size < 400) \/ Abs(e.cs[1] * d[2] - e.cs[2] * d[1]) <= (IF e.ty = "float" THEN 20 ELSE 2) * size, "direction")

Two(e) == e.dim = 2
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
JudgePoints(e) ==
    LET a == e.a
        b == e.b
    IN If(e.plus = Plus(a, b) /\ e.minus = Minus(a, b), "sum") \cup If(e.added = Plus(a, b) /\ e.subtracted = Minus(a, b), "assignment")
       \cup If((e.eq = 1) <=> (a = b), "equal") \cup If((e.ne = 1) <=> (a # b), "unequal")
       \cup If(e.times = <<>> \/ (e.times = << e.f * a[1], e.f * a[2] >> /\ e.timesLeft = e.times), "product")

JudgeSystem(e) ==
    LET n == Len(e.b) IN
    IF n < 2 \/ e.cells # n * n THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception")
    ELSE IF Det(e.m) = 0 THEN If(e.t = 1, IF e.t = 0 THEN "singular" ELSE "exception")
    ELSE If(e.t = 0, "refused") \cup If(e.t # 0 \/ ((\A i \in DOMAIN e.r : Abs(e.r[i]) <= 100000000) /\ Solves(e.m, e.b, e.r, 1)), "roots")

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "line" -> JudgeLine(e)
      [] e.e = "pair" -> JudgePair(e)
      [] e.e = "fit" -> JudgeFit(e)
      [] e.e = "points" -> JudgePoints(e)
      [] e.e = "system" -> JudgeSystem(e)
      [] e.e = "degrees" -> If(Abs(18 * e.rad - 314159 * e.k) <= 20 + Abs(e.k) /\ Abs(e.back - 1000 * e.k) <= 1, "angles")
      [] e.e = "close" -> If((e.eq = 1) <=> (Abs(e.quarters) < 4 * e.times), "isEqual")
      [] OTHER -> {"driver"}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET j == Judge(Trace[l]) IN bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
