------------------------------- MODULE Kernel -------------------------------
(* The kernel of the Gaussian filter: an area of w x h values with the weights exp(-d2 / (2 sigma)) of the squared distances d2
   from the middle, for distances of up to k in each direction, made to sum up to one; zeros elsewhere. With q = exp(-1 / (2 sigma))
   the weight is q^d2 divided by the sum: no other numbers are needed, so q is given as a fraction.                          *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a

KernelOk(w, h, k) == w >= 3 /\ h >= 3 /\ k >= 1 /\ w >= 2 * k + 1 /\ h >= 2 * k + 1

\* columns and rows from 0
Dx(w, x) == Abs(x - w \div 2)
Dy(h, y) == Abs(y - h \div 2)
Within(w, h, k, x, y) == Dx(w, x) <= k /\ Dy(h, y) <= k
Distance2(w, h, x, y) == Dx(w, x) * Dx(w, x) + Dy(h, y) * Dy(h, y)
=============================================================================
