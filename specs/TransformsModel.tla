-------------------------- MODULE TransformsModel ---------------------------
(* The two passes of the Haar transforms over all small matrices, and the sliding window of the Hough transform over all small
   sets of points, against the definitions.                                                                                *)
EXTENDS Transforms, SequencesExt
CONSTANTS Values, Sizes, Places, Points, Tolerance, Fault
VARIABLES kind, w, h, input, step, mid, out
vars == <<kind, w, h, input, step, mid, out>>

AllSizes == {<<2, 2>>, <<4, 2>>, <<2, 4>>}
Directions == << <<0, 1>>, <<1, 1>>, <<1, 0>> >>
Matrices == UNION {{[w |-> s[1], h |-> s[2], v |-> v] : v \in [1 .. s[1] * s[2] -> Values]} : s \in Sizes}
Sets == UNION {[1 .. n -> Places \X Places] : n \in 2 .. Points}
Init ==
    /\ \/ kind = "haar" /\ \E m \in Matrices : w = m.w /\ h = m.h /\ input = m.v
       \/ kind = "hough" /\ w = 0 /\ h = 0 /\ input \in Sets
    /\ step = "first" /\ mid = <<>> /\ out = <<>>

\* along rows, values times sqrt(2)
Rows(v) == [k \in 1 .. w * h |->
    LET x == (k - 1) % w
        y == (k - 1) \div w
        i == 2 * (x % (w \div 2))
    IN IF x < w \div 2 THEN At(v, w, i + 1, y) + At(v, w, i, y)
       ELSE IF Fault = "Sign" THEN At(v, w, i, y) - At(v, w, i + 1, y) ELSE At(v, w, i + 1, y) - At(v, w, i, y)]
Columns(v) == [k \in 1 .. w * h |->
    LET x == (k - 1) % w
        y == (k - 1) \div w
        half == IF Fault = "HalfOfWidth" THEN w \div 2 ELSE h \div 2
        j == 2 * (y % half) % h
    IN IF y < half THEN At(v, w, x, (j + 1) % h) + At(v, w, x, j) ELSE At(v, w, x, (j + 1) % h) - At(v, w, x, j)]

\* the code's search: sort the distances, move a window over them, keep the best direction
Window(d) ==
    LET s == SortSeq([k \in DOMAIN input |-> Dist(input[k], Directions[d])], <)
        n == Len(s)
        \* <<first, count>> of the best window starting at p or later, as the code finds it
        End(p) == LET later == {q \in p + 1 .. n : IF Fault = "Strict" THEN s[q] >= s[p] + 2 * Tolerance ELSE s[q] > s[p] + 2 * Tolerance} IN IF later = {} THEN n + 1 ELSE CHOOSE q \in later : \A r \in later : q <= r
        best == CHOOSE p \in 1 .. n : \A q \in 1 .. n : End(q) - q < End(p) - p \/ (End(q) - q = End(p) - p /\ p <= q)
    IN [n |-> End(best) - best, twice |-> s[End(best) - 1] + s[best]]
Search ==
    LET r == [d \in DOMAIN Directions |-> Window(d)]
        better(a, b) == r[a].n > r[b].n \/ (r[a].n = r[b].n /\ (Abs(r[a].twice) < Abs(r[b].twice) \/ (Abs(r[a].twice) = Abs(r[b].twice) /\ a < b)))
        best == IF Fault = "LastDirection" THEN Len(Directions) ELSE CHOOSE a \in DOMAIN Directions : \A b \in DOMAIN Directions : a = b \/ better(a, b)
        isOn(p) == Abs(2 * Dist(p, Directions[best]) - r[best].twice) <= 2 * Tolerance
    IN SelectSeq(input, isOn)

Next ==
    \/ step = "first" /\ kind = "haar" /\ step' = "second" /\ mid' = TLCEval(Rows(input)) /\ UNCHANGED <<kind, w, h, input, out>>
    \/ step = "second" /\ kind = "haar" /\ step' = "done" /\ out' = TLCEval(Columns(mid)) /\ UNCHANGED <<kind, w, h, input, mid>>
    \/ step = "first" /\ kind = "hough" /\ step' = "done" /\ out' = TLCEval(Search) /\ UNCHANGED <<kind, w, h, input, mid>>
Spec == Init /\ [][Next]_vars

Sum(v) == LET s[i \in 0 .. Len(v)] == IF i = 0 THEN 0 ELSE s[i - 1] + v[i] * v[i] IN s[Len(v)]
Transformed == (kind = "haar" /\ step = "done") => out = Haar2(input, w, h)
Inverts == (kind = "haar" /\ step = "done") => Inverse2(out, w, h) = [k \in DOMAIN input |-> 4 * input[k]]
Energy == (kind = "haar" /\ step = "done") => Sum(out) = 4 * Sum(input)
Lines == (kind = "hough" /\ step = "done") =>
            /\ Partition(input, out, SelectSeq(input, LAMBDA p : ~IsIn(p, out)))
            /\ Explained(input, out, Directions, Tolerance, 0)
            /\ Best(input, out, Directions, Tolerance, 0)
=============================================================================
