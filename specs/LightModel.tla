----------------------------- MODULE LightModel -----------------------------
(* The corrector as it is written, with its table of factors in fixed-point numbers, over all small histories.             *)
EXTENDS Light
CONSTANTS Values, Widths, Fault
VARIABLES known, size, table, ok
vars == <<known, size, table, ok>>

One == 4194304
Images == UNION {[w : {n}, h : {1}, cc : {1}, d : [1 .. n -> Values]] : n \in Widths}
MinOf(d) == LET s == ({255} \cup {d[k] : k \in DOMAIN d}) \ {0} IN CHOOSE a \in s : \A b \in s : a <= b
MaxOf(d) == LET s == ({0} \cup {d[k] : k \in DOMAIN d}) \ {255} IN Max(s)
Factor(v, lo, hi) == IF v > hi \/ v < lo THEN One ELSE (IF Fault = "ByMinimum" THEN lo * (One \div hi) ELSE (v * One) \div hi) + 1

Init == known = Nothing /\ size = 0 /\ table = <<>> /\ ok = TRUE
Analyse == \E im \in Images :
    LET lo == MinOf(im.d)
        hi == MaxOf(im.d)
        fine == lo < hi
    IN /\ ok' = (fine <=> Analysable(im))
       /\ known' = IF Analysable(im) THEN Analysed(im) ELSE known
       /\ IF fine THEN size' = im.w /\ table' = TLCEval([k \in DOMAIN im.d |-> Factor(im.d[k], lo, hi)])
          ELSE IF Fault = "SizeFirst" THEN size' = im.w /\ table' = [k \in 1 .. im.w |-> IF k \in DOMAIN table THEN table[k] ELSE 0]
          ELSE UNCHANGED <<size, table>>
Corrected(p, f) == LET q == (p * One + f \div 2) \div f IN IF q > 255 THEN 255 ELSE q
Correct == \E n \in Widths, p \in Values, x \in 0 .. Max(Widths), m \in 1 .. Max(Widths) :
    LET im == [w |-> n, h |-> 1, cc |-> 1, d |-> [k \in 1 .. n |-> p]]
        runs == RegionOk(im, x, 0, m, 1) /\ size > 0 /\ (Fault = "NoBound" \/ x + m <= size)
    IN /\ ok' = ((runs <=> Correctable(known, im, x, 0, m, 1)) /\ (runs => \A k \in x + 1 .. x + m : k \in DOMAIN table /\ table[k] > 0 /\ Becomes(p, known.d[k], known.top, Corrected(p, table[k]))))
       /\ UNCHANGED <<known, size, table>>
Next == ok /\ (Analyse \/ Correct)
Spec == Init /\ [][Next]_vars
Right == ok
View == <<known, size, table, ok>>
=============================================================================
