-------------------------------- MODULE Blob --------------------------------
(* Blobs of a binary picture: the 8-connected sets of foreground pixels, their borders and their measures.
   A pixel is <<x, y>>, a blob a set of pixels.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Around(p) == { <<p[1] + dx, p[2] + dy>> : dx \in -1 .. 1, dy \in -1 .. 1 }

RECURSIVE Grow(_, _, _)
Grow(s, done, front) ==
    IF front = {} THEN done
    ELSE LET next == { p \in UNION { Around(q) : q \in front } : p \in s /\ p \notin done }
         IN Grow(s, done \cup next, next)
\* what is connected with p through pixels of s
Reach(s, p) == Grow(s, {p}, {p})

RECURSIVE Components(_)
Components(s) == IF s = {} THEN {} ELSE LET p == CHOOSE q \in s : TRUE
                                            c == Reach(s, p)
                                        IN {c} \cup Components(s \ c)

\* border pixels: some neighbour is not of the blob (around the searched region nothing is)
EdgeOf(c) == { p \in c : ~(Around(p) \subseteq c) }
\* the first pixel of the topmost row
FirstOf(c) == CHOOSE p \in c : \A q \in c : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] <= q[1])
\* the outer border, and what hangs together with it through border pixels
ContourOf(c) == Reach(EdgeOf(c), FirstOf(c))

-----------------------------------------------------------------------------
(* measures *)
Xs(c) == { p[1] : p \in c }
Ys(c) == { p[2] : p \in c }
WidthOf(c) == Max(Xs(c)) - Min(Xs(c)) + 1
HeightOf(c) == Max(Ys(c)) - Min(Ys(c)) + 1
SizeOf(c) == Cardinality(c)
AreaOf(c) == << Min(Xs(c)), Max(Xs(c)) + 1, Min(Ys(c)), Max(Ys(c)) + 1 >>
SumX(c) == FoldSet(LAMBDA p, a : a + p[1], 0, c)
SumY(c) == FoldSet(LAMBDA p, a : a + p[2], 0, c)
Sq(a) == a * a
Abs(a) == IF a < 0 THEN -a ELSE a
Dist2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2])
\* the square of the length: the biggest distance of two pixels
Length2(c) == LET k == ContourOf(c) IN Max({ Max({ Dist2(p, q) : q \in k }) : p \in k })

RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
\* the integer part of the square root
ISqrt(n) == IF n < 2 THEN n ELSE Newton(n, IF n >= 1048576 THEN 46340 ELSE 1024)

(* Elongation is the length divided by the extent across it (at least 1); a single pixel has 1. Which of several longest
   chords is taken is open. Interval of the value in thousandths.                                                        *)
ElongationRange(c) ==
    LET k == ContourOf(c)
        len2 == Length2(c)
        chords == { pq \in k \X k : Dist2(pq[1], pq[2]) = len2 }
        across(pq) == LET crosses == { (pq[2][1] - pq[1][1]) * (p[2] - pq[1][2]) - (pq[2][2] - pq[1][2]) * (p[1] - pq[1][1]) : p \in k }
                      IN Max(crosses) - Min(crosses)
        low(pq) == LET a == across(pq) IN IF a * a < len2 THEN ISqrt(len2 * 1000000) - 1 ELSE (1000 * len2) \div a - 1
        high(pq) == low(pq) + 3
    IN IF Cardinality(k) = 1 THEN <<1000, 1000>> ELSE << Min({ low(pq) : pq \in chords }), Max({ high(pq) : pq \in chords }) >>

(* Circularity is 1 minus the mean difference between the distance of a contour pixel from the centre and the radius of a
   disk with as many pixels, in units of this radius. Interval of the value in thousandths; all distances are multiplied by
   the number of pixels n and a scale s so that whole numbers are precise enough.                                        *)
CircularityRange(c) ==
    LET n == Cardinality(c)
        k == ContourOf(c)
        o == <<Min(Xs(c)), Min(Ys(c))>>
        sx == SumX(c) - n * o[1]
        sy == SumY(c) - n * o[2]
        v(p) == Sq(n * (p[1] - o[1]) - sx) + Sq(n * (p[2] - o[2]) - sy)
        most == Max({ v(p) : p \in k } \cup {n * n * n})
        s == ISqrt(2000000000 \div most)
        r == ISqrt(((s * s * n * n * n) \div 355) * 113 + (((s * s * n * n * n) % 355) * 113) \div 355)
        difference == FoldSet(LAMBDA p, a : a + Abs(ISqrt(s * s * v(p)) - r), 0, k)
        mean == difference \div Cardinality(k)
        value == 1000 - (1000 * (mean \div r) + (1000 * (mean % r)) \div r)
        slack == 2 + 4000 \div r
    IN << value - slack, value + slack >>

MeasureRange(c, m) ==
    CASE m = "circularity" -> CircularityRange(c)
      [] m = "elongation" -> ElongationRange(c)
      [] m = "height" -> LET v == HeightOf(c) IN <<v, v>>
      [] m = "width" -> LET v == WidthOf(c) IN <<v, v>>
      [] m = "size" -> LET v == SizeOf(c) IN <<v, v>>
      [] m = "length" -> LET v == Length2(c) IN <<v, v>>

Between(v, range) == range[1] <= v /\ v <= range[2]
\* whether v is a right answer for the measure m of blob c
MeasureOk(c, m, v) ==
    CASE m \in {"circularity", "elongation", "height", "width", "size", "length"} -> Len(v) = 1 /\ Between(v[1], MeasureRange(c, m))
      [] m = "center" -> LET n == Cardinality(c) IN /\ Len(v) = 2 /\ \A i \in 1 .. 2 : v[i] \in 0 .. 1000000
                                                    /\ Abs(v[1] * n - 1000 * SumX(c)) <= n /\ Abs(v[2] * n - 1000 * SumY(c)) <= n
      [] m = "area" -> v = AreaOf(c)
      [] m = "solid" -> v = << IF ContourOf(c) = EdgeOf(c) THEN 1 ELSE 0 >>

-----------------------------------------------------------------------------
(* limits: functions from measures to numbers, -1 if there is none. Lengths are limited in halves, compared as squares. *)
Measures == <<"circularity", "elongation", "height", "length", "size", "width">>
LimitsOk(lo, hi) == \A i \in 1 .. 6 : lo[i] = -1 \/ hi[i] = -1 \/ lo[i] <= hi[i]
Scaled(m, range) == IF m = "length" THEN <<4 * range[1], 4 * range[2]>> ELSE range
Limit(m, v) == IF m = "length" THEN v * v ELSE v
\* certainly within, and possibly within the limits
MustStay(c, lo, hi) == \A i \in 1 .. 6 : (lo[i] = -1 /\ hi[i] = -1) \/
    LET m == Measures[i]
        r == Scaled(m, MeasureRange(c, m))
    IN (lo[i] = -1 \/ r[1] >= Limit(m, lo[i])) /\ (hi[i] = -1 \/ r[2] <= Limit(m, hi[i]))
MayStay(c, lo, hi) == \A i \in 1 .. 6 : (lo[i] = -1 /\ hi[i] = -1) \/
    LET m == Measures[i]
        r == Scaled(m, MeasureRange(c, m))
    IN (lo[i] = -1 \/ r[2] >= Limit(m, lo[i])) /\ (hi[i] = -1 \/ r[1] <= Limit(m, hi[i]))

\* blobs (a sequence) are in descending order of m
Descending(blobs, m) == LET r == TLCEval([i \in 1 .. Len(blobs) |-> MeasureRange(blobs[i], m)])
                        IN \A i, j \in 1 .. Len(blobs) : i < j => r[i][2] >= r[j][1]
IsBest(blobs, m, i) == LET r == TLCEval([k \in 1 .. Len(blobs) |-> MeasureRange(blobs[k], m)])
                       IN i \in 1 .. Len(blobs) /\ \A k \in 1 .. Len(blobs) : r[i][2] >= r[k][1]
=============================================================================
