----------------------------- MODULE Transforms -----------------------------
(* The Haar transform of a matrix and the search for the line with most points (Hough transform).                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a

(* A matrix is a sequence of its rows. Everything is doubled: each of the two passes multiplies by 1 / sqrt(2).
   Quarters of the result: sums of four values, differences along x, along y, and along both.                             *)
At(v, w, x, y) == v[y * w + x + 1]
Haar2(v, w, h) ==
    TLCEval([k \in 1 .. w * h |->
        LET x == (k - 1) % w
            y == (k - 1) \div w
            i == x % (w \div 2)
            j == y % (h \div 2)
            sx == IF x < w \div 2 THEN 1 ELSE -1
            sy == IF y < h \div 2 THEN 1 ELSE -1
        IN At(v, w, 2 * i + 1, 2 * j + 1) + sx * At(v, w, 2 * i, 2 * j + 1) + sy * At(v, w, 2 * i + 1, 2 * j) + sx * sy * At(v, w, 2 * i, 2 * j)])
Inverse2(v, w, h) ==
    TLCEval([k \in 1 .. w * h |->
        LET x == (k - 1) % w
            y == (k - 1) \div w
            i == x \div 2
            j == y \div 2
            sx == IF x % 2 = 0 THEN -1 ELSE 1
            sy == IF y % 2 = 0 THEN -1 ELSE 1
        IN At(v, w, i, j) + sx * At(v, w, i + w \div 2, j) + sy * At(v, w, i, j + h \div 2) + sx * sy * At(v, w, i + w \div 2, j + h \div 2)])
HaarSizeOk(n, w, h) == n > 0 /\ w % 2 = 0 /\ h % 2 = 0 /\ w <= n /\ h <= n /\ n = w * h

(* Hough transform: a direction is given by s and c, its sine and cosine times One; points by their coordinates times Unit.
   dist is the distance of a point along the normal of the lines of that direction.                                       *)
Dist(p, d) == p[1] * d[1] + p[2] * d[2]
\* most points between two parallel lines, range apart, of which one goes through a point
Most(dists, range) ==
    LET Count(i) == Cardinality({j \in DOMAIN dists : dists[i] <= dists[j] /\ dists[j] <= dists[i] + range})
        Higher(m, i) == LET c == TLCEval(Count(i)) IN IF c > m THEN c ELSE m
    IN FoldLeftDomain(Higher, 0, dists)
DirectionCount(tolerance, step) == LET t == IF tolerance < step THEN step ELSE tolerance IN 2 * ((2 * t + step) \div (2 * step)) + 1

IsIn(p, s) == \E k \in DOMAIN s : s[k] = p
\* the points on the line and the others are the input, each in its order
Partition(input, on, off) == on = SelectSeq(input, LAMBDA p : IsIn(p, on)) /\ off = SelectSeq(input, LAMBDA p : ~IsIn(p, on)) /\ \A k \in DOMAIN off : ~IsIn(off[k], on)
\* a line of one of the directions is within tolerance of the points on it and no others; slack is for rounding
Explained(input, on, dirs, tolerance, slack) ==
    \E d \in DOMAIN dirs :
        LET D == TLCEval([k \in DOMAIN input |-> Dist(input[k], dirs[d])])
            isOn == TLCEval([k \in DOMAIN input |-> IsIn(input[k], on)])
        IN \E i, j \in DOMAIN input :
            /\ i <= j /\ isOn[i] /\ isOn[j]
            /\ \A k \in DOMAIN input : IF isOn[k] THEN Abs(2 * D[k] - D[i] - D[j]) <= 2 * (tolerance + slack) ELSE Abs(2 * D[k] - D[i] - D[j]) >= 2 * (tolerance - slack)
\* no line of one of the directions has more points
Best(input, on, dirs, tolerance, slack) == \A d \in DOMAIN dirs : Len(on) >= Most(TLCEval([k \in DOMAIN input |-> Dist(input[k], dirs[d])]), 2 * tolerance - slack)
=============================================================================
