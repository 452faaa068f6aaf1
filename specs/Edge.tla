-------------------------------- MODULE Edge --------------------------------
(* Edges of a grey-scale region. A profile is a sequence of intensities, position k of it is the pixel k (from 0).
   Positions of edges are in thousandths of a pixel.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

At(d, k) == d[k + 1]
\* change of the intensity from pixel k to the next one, and change of this change around pixel k
Slope(d, k) == At(d, k + 1) - At(d, k)
Bend(d, k) == Slope(d, k) - Slope(d, k - 1)
Half(m) == IF m < 2 THEN 1 ELSE m \div 2
Third(m) == IF m < 3 THEN 1 ELSE m \div 3

\* the profile rises nowhere around steeper than between pixels i and i + 1
IsPeak(d, i) == i \in 1 .. Len(d) - 3 /\ Slope(d, i) > 0 /\ Slope(d, i - 1) <= Slope(d, i) /\ Slope(d, i + 1) <= Slope(d, i)

(* The feet of the rise at i are the closest places on either side where the profile rises less than the given level, with
   nothing steeper than the peak between. A set of at most one element.                                                *)
LeftFoot(d, i, level) ==
    LET low == { j \in 0 .. i : Slope(d, j) < level }
    IN IF low # {} /\ \A k \in Max(low) .. i : Slope(d, k) <= Slope(d, i) THEN {Max(low)} ELSE {}
RightFoot(d, i, level) ==
    LET low == { j \in i + 1 .. Len(d) - 2 : Slope(d, j) < level }
    IN IF low # {} /\ \A k \in i .. Min(low) : Slope(d, k) <= Slope(d, i) THEN {Min(low)} ELSE {}
Span(d, l, r) == LET v == { At(d, k) : k \in l .. r } IN Max(v) - Min(v)
\* between the feet at the level the intensity differs by the contrast
Contrasting(d, i, level, contrast) == \E l \in LeftFoot(d, i, level), r \in RightFoot(d, i, level) : Span(d, l, r) >= contrast

SumOf(d, a, b) == FoldSet(LAMBDA k, s : s + At(d, k), 0, a .. b)
(* With offsets given the mean of that many pixels behind the edge is above the mean of those before by the contrast. A
   difference of exactly the contrast counts, but means which are no binary fractions are not exact: whether it counts then
   is open, strict tells.                                                                                                 *)
Binary(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
SidesDiffer(d, i, left, right, contrast, strict) ==
    \/ left = 0 \/ right = 0
    \/ /\ left <= i /\ i + right < Len(d)
       /\ LET more == SumOf(d, i + 1, i + right) * (left + 1) - SumOf(d, i - left, i) * right - contrast * right * (left + 1)
          IN more > 0 \/ (more = 0 /\ ((Binary(left + 1) /\ Binary(right)) \/ ~strict))

IsEdge(d, i, p) ==
    /\ IsPeak(d, i)
    /\ SidesDiffer(d, i, p.left, p.right, p.contrast, p.strict)
    /\ Contrasting(d, i, Half(Slope(d, i)), p.contrast) \/ Contrasting(d, i, Third(Slope(d, i)), p.contrast)

\* where the bend changes its sign
Place(d, i) == LET a == Bend(d, i)
                   b == Bend(d, i + 1)
               IN IF a = b THEN 1000 * i + 500 ELSE 1000 * i + (2000 * a + (a - b)) \div (2 * (a - b))

\* of places closer than a pixel only the first stays
RECURSIVE Apart(_, _)
Apart(places, last) == IF places = <<>> THEN <<>>
                       ELSE IF last >= 0 /\ Head(places) - last < 1000 THEN Apart(Tail(places), last)
                       ELSE <<Head(places)>> \o Apart(Tail(places), Head(places))

\* places of the rising edges of a profile, in order
Rising(d, p) == LET i == SetToSortSeq({ k \in 1 .. Len(d) - 3 : IsEdge(d, k, p) }, <)
                IN Apart([k \in 1 .. Len(i) |-> Place(d, i[k])], -1)
Reversed(d) == TLCEval([k \in 1 .. Len(d) |-> d[Len(d) + 1 - k]])
\* places of the falling edges, in order: what rises the other way round
Falling(d, p) == LET r == Rising(Reversed(d), p) IN [k \in 1 .. Len(r) |-> 1000 * (Len(d) - 1) - r[Len(r) + 1 - k]]

\* which of the places along the direction of scanning are wanted
Selected(places, kind, forward) ==
    IF Len(places) < 2 \/ kind = "all" THEN places
    ELSE IF (kind = "first") = forward THEN <<places[1]>> ELSE <<places[Len(places)]>>

(* The edges of one profile scanned forward or backward: <<positive, negative>>; p has gradient, kind, left, right,
   contrast and strict.                                                                                               *)
EdgesOf(d, p, forward) ==
    LET up == Selected(Rising(d, p), p.kind, forward)
        down == Selected(Falling(d, p), p.kind, forward)
    IN << IF p.gradient = "negative" THEN <<>> ELSE IF forward THEN up ELSE down,
          IF p.gradient = "positive" THEN <<>> ELSE IF forward THEN down ELSE up >>

-----------------------------------------------------------------------------
(* pixels: a function from <<x, y>>; region <<x, y, w, h>>; p has also direction, group and skip *)
Horizontal(p) == p.direction \in {"right", "left"}
Lines(p, r) == LET n == IF Horizontal(p) THEN r[4] ELSE r[3]
               IN IF p.group > n THEN {} ELSE { k \in 0 .. n - p.group : k % p.skip = 0 }
Profile(pixel(_, _), p, r, line) ==
    TLCEval(IF Horizontal(p)
    THEN [k \in 1 .. r[3] |-> FoldSet(LAMBDA g, s : s + pixel(r[1] + k - 1, r[2] + line + g), 0, 0 .. p.group - 1)]
    ELSE [k \in 1 .. r[4] |-> FoldSet(LAMBDA g, s : s + pixel(r[1] + line + g, r[2] + k - 1), 0, 0 .. p.group - 1)])
(* << positive, negative >>, each a set of pairs: what is found if differences of exactly the contrast count, and if not, as
   sets of points, for one line each                                                                                      *)
EdgePoints(pixel(_, _), p, r) ==
    LET q(strict) == [gradient |-> p.gradient, kind |-> p.kind, left |-> p.left, right |-> p.right, contrast |-> p.contrast * p.group, strict |-> strict]
        across(line) == 1000 * line + 500 * (p.group - 1)
        point(line, v) == IF Horizontal(p) THEN << 1000 * r[1] + v, 1000 * r[2] + across(line) >> ELSE << 1000 * r[1] + across(line), 1000 * r[2] + v >>
        edges(line) == LET d == Profile(pixel, p, r, line)
                           f == p.direction \in {"right", "down"}
                           found(strict) == TLCEval(IF Len(d) < 4 THEN << {}, {} >> ELSE LET x == EdgesOf(d, q(strict), f)
                                                                                         IN [s \in 1 .. 2 |-> { point(line, v) : v \in ToSet(x[s]) }])
                           lenient == found(FALSE)
                           strictly == IF p.left = 0 \/ p.right = 0 \/ (Binary(p.left + 1) /\ Binary(p.right)) THEN lenient ELSE found(TRUE)
                       IN TLCEval([s \in 1 .. 2 |-> TLCEval([strict \in BOOLEAN |-> IF strict THEN strictly[s] ELSE lenient[s]])])
        all == TLCEval([line \in Lines(p, r) |-> edges(line)])
    IN [s \in 1 .. 2 |-> [line \in Lines(p, r) |-> all[line][s]]]
=============================================================================
