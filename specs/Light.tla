------------------------------- MODULE Light --------------------------------
(* Correction of uneven light. What is known after analysing an image: its size and its values; the brightest value below 255
   is the one all others are raised to. 0 and 255 are values of broken pixels, which are not corrected.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [w |-> 0, h |-> 0, d |-> <<>>, top |-> 0]
Usable(d) == {d[k] : k \in DOMAIN d} \ {0, 255}
Max(s) == CHOOSE a \in s : \A b \in s : b <= a
\* two different values are necessary
Analysable(im) == im.w > 0 /\ im.h > 0 /\ im.cc = 1 /\ Cardinality(Usable(im.d)) >= 2
Analysed(im) == [w |-> im.w, h |-> im.h, d |-> im.d, top |-> Max(Usable(im.d))]

RegionOk(im, x, y, w, h) == w > 0 /\ h > 0 /\ x < im.w /\ y < im.h /\ w <= im.w - x /\ h <= im.h - y
Correctable(known, im, x, y, w, h) == known.w > 0 /\ im.w > 0 /\ im.h > 0 /\ im.cc = 1 /\ RegionOk(im, x, y, w, h) /\ RegionOk(known, x, y, w, h)

Abs(a) == IF a < 0 THEN -a ELSE a
\* p, a pixel where v was analysed, may become r: about p * top / v, rounded, at most 255
Becomes(p, v, top, r) ==
    IF v \in {0, 255} THEN r = p
    ELSE \/ r \in 0 .. 255 /\ 1000 * Abs(r * v - p * top) <= 520 * v
         \/ r = 255 /\ 1000 * (p * top - 255 * v) >= -520 * v

\* broken pixels of an image of the analysed size: the set of their indexes
Broken(d) == {k \in DOMAIN d : d[k] \in {0, 255}}
=============================================================================
