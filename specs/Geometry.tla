------------------------------ MODULE Geometry ------------------------------
(* Points, lines and linear systems over integers. A line is a record of a point x, y on it, its direction dx, dy (integers)
   and the length n of the direction (dx^2 + dy^2 = n^2, so that everything is rational).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Cross(ax, ay, bx, by) == ax * by - ay * bx
Dot(ax, ay, bx, by) == ax * bx + ay * by

(* Results r are given times Scale; each is the rational p / q up to slack. *)
Scale == 1000
Near(r, p, q, slack) == Abs(r * q - Scale * p) <= slack * Abs(q)

\* distance of (px, py) times n
Distance(m, px, py) == Abs(Cross(m.dx, m.dy, px - m.x, py - m.y))
OnLine(m, px, py) == Distance(m, px, py) = 0
\* foot of the perpendicular times n^2
Foot(m, px, py) == LET t == Dot(m.dx, m.dy, px - m.x, py - m.y) IN << m.x * m.n * m.n + m.dx * t, m.y * m.n * m.n + m.dy * t >>
\* the mirrored point times n^2
Opposite(m, px, py) == LET f == Foot(m, px, py) IN << 2 * f[1] - px * m.n * m.n, 2 * f[2] - py * m.n * m.n >>
Den(m, k) == Cross(m.dx, m.dy, k.dx, k.dy)
Parallel(m, k) == Den(m, k) = 0
SameLine(m, k) == Parallel(m, k) /\ OnLine(m, k.x, k.y)
\* the common point times Den
Common(m, k) == LET t == Cross(k.x - m.x, k.y - m.y, k.dx, k.dy) IN << m.x * Den(m, k) + m.dx * t, m.y * Den(m, k) + m.dy * t >>
Moved(m, ox, oy) == [m EXCEPT !.x = @ + ox, !.y = @ + oy]

(* least squares: along y if the points extend further along x, else along x *)
RECURSIVE Total(_, _)
Total(s, i) == IF i = 0 THEN 0 ELSE s[i] + Total(s, i - 1)
Sum(f) == Total(f, Len(f))
Spread(xs, ys) == LET n == Len(xs) IN n * Sum([i \in DOMAIN xs |-> xs[i] * ys[i]]) - Sum(xs) * Sum(ys)
\* the possible directions
Directions(xs, ys) ==
    LET a == Spread(xs, xs)
        b == Spread(ys, ys)
        c == Spread(xs, ys)
    IN (IF a >= b THEN {<<a, c>>} ELSE {}) \cup (IF a <= b THEN {<<c, b>>} ELSE {})

(* determinants, by the first row; a matrix is a sequence of rows *)
RECURSIVE Det(_)
Minor(m, c) == [i \in 1 .. Len(m) - 1 |-> [j \in 1 .. Len(m) - 1 |-> m[i + 1][IF j < c THEN j ELSE j + 1]]]
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE Sum([c \in 1 .. Len(m) |-> IF m[1][c] = 0 THEN 0 ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * m[1][c] * Det(TLCEval(Minor(m, c)))])
\* whether r (times Scale) solves m x = b; the slack is relative to the sizes of the coefficients
Solves(m, b, r, slack) ==
    Len(r) = Len(b) /\ \A i \in DOMAIN m : Abs(Sum([j \in DOMAIN r |-> m[i][j] * r[j]]) - Scale * b[i]) <= slack * (1 + Sum([j \in DOMAIN r |-> Abs(m[i][j])]))
=============================================================================
