--------------------------- MODULE GeometryModel ----------------------------
(* Laws of the geometry and the elimination as it is written (with fractions instead of floating point) for all small inputs *)
EXTENDS Geometry
CONSTANTS Coordinates, Coefficients, Fault
VARIABLES kind, a, b, c, step, out
vars == <<kind, a, b, c, step, out>>

SomeCoordinates == {-2, 0, 3}
SomeCoefficients == {-2, -1, 0, 1, 3}
Lines == {[x |-> x, y |-> y, dx |-> d[1], dy |-> d[2], n |-> d[3]] : x \in Coordinates, y \in Coordinates, d \in { <<1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<-12, -5, 13>> }}
Init ==
    /\ step = "first" /\ out = <<>>
    /\ \/ kind = "lines" /\ a \in Lines /\ b \in Lines /\ c \in Coordinates \X Coordinates
       \/ kind = "system" /\ a \in [1 .. 2 -> [1 .. 2 -> Coefficients]] /\ b \in [1 .. 2 -> Coefficients] /\ c = <<0, 0>>

\* the code's elimination of a 2 x 2 system: largest pivot first, the columns' numbers follow the exchanges
Eliminated ==
    LET cells == {<<i, j>> : i \in 1 .. 2, j \in 1 .. 2}
        p == CHOOSE q \in cells : \A r \in cells : Abs(a[q[1]][q[2]]) >= Abs(a[r[1]][r[2]])
        m(i, j) == a[IF p[1] = 2 THEN 3 - i ELSE i][IF p[2] = 2 THEN 3 - j ELSE j]
        t(i) == b[IF Fault = "TermsStay" THEN i ELSE IF p[1] = 2 THEN 3 - i ELSE i]
        \* second row times m(1, 1)
        d == m(2, 2) * m(1, 1) - m(1, 2) * m(2, 1)
        u == t(2) * m(1, 1) - t(1) * m(2, 1)
    IN IF m(1, 1) = 0 \/ d = 0 THEN <<>>
       \* numerators over d * m(1, 1)
       ELSE LET second == u * m(1, 1)
                first == t(1) * d - m(1, 2) * u
            IN IF p[2] = 2 /\ Fault # "ColumnsStay" THEN <<second, first, d * m(1, 1)>> ELSE <<first, second, d * m(1, 1)>>
Next ==
    /\ step = "first" /\ step' = "done" /\ UNCHANGED <<kind, a, b, c>>
    /\ out' = IF kind = "system" THEN Eliminated ELSE <<>>
Spec == Init /\ [][Next]_vars

Solved == (kind = "system" /\ step = "done") =>
            IF Det(a) = 0 THEN out = <<>>
            ELSE out # <<>> /\ \A i \in 1 .. 2 : a[i][1] * out[1] + a[i][2] * out[2] = b[i] * out[3]
Squared(v) == v[1] * v[1] + v[2] * v[2]
Laws == kind = "lines" =>
    LET f == Foot(a, c[1], c[2])
        o == Opposite(a, c[1], c[2])
        q == a.n * a.n
    IN \* the foot is on the line, and as far from the point as the line is
       /\ Cross(a.dx, a.dy, f[1] - a.x * q, f[2] - a.y * q) = 0
       /\ Squared(<<f[1] - c[1] * q, f[2] - c[2] * q>>) = Distance(a, c[1], c[2]) * Distance(a, c[1], c[2]) * q
       /\ f[1] * 2 = o[1] + c[1] * q /\ f[2] * 2 = o[2] + c[2] * q
       \* the common point is on both lines
       /\ ~Parallel(a, b) => LET p == Common(a, b)
                                 d == Den(a, b)
                             IN Cross(a.dx, a.dy, p[1] - a.x * d, p[2] - a.y * d) = 0 /\ Cross(b.dx, b.dy, p[1] - b.x * d, p[2] - b.y * d) = 0
       /\ SameLine(a, b) <=> SameLine(b, a)
       /\ SameLine(a, b) => Distance(a, c[1], c[2]) * b.n = Distance(b, c[1], c[2]) * a.n
       /\ OnLine(Moved(a, c[1], c[2]), a.x + c[1], a.y + c[2])
=============================================================================
