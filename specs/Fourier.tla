------------------------------- MODULE Fourier ------------------------------
(* Fourier transforms of images without complex numbers: an array of complex data is described by the picture it is or is the
   transform of. kind is "none" (no array), "picture" or "spectrum"; v are the values of the picture in rows, all of them
   integers; a spectrum is the (not normalised) direct transform of v.
   Directly transforming a spectrum gives the picture mirrored about the origin, times the number of pixels; transforming a
   spectrum back gives the picture times the number of pixels; a product of spectra is the spectrum of the circular
   convolution.                                                                                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
NoArray == [kind |-> "none", w |-> 0, h |-> 0, v |-> <<>>]
Unset(w, h) == [kind |-> "unset", w |-> w, h |-> h, v |-> <<>>]
Picture(w, h, v) == [kind |-> "picture", w |-> w, h |-> h, v |-> v]
Spectrum(w, h, v) == [kind |-> "spectrum", w |-> w, h |-> h, v |-> v]

X(a, k) == (k - 1) % a.w
Y(a, k) == (k - 1) \div a.w
Val(a, x, y) == a.v[y * a.w + x + 1]
Mirrored(a) == TLCEval([k \in DOMAIN a.v |-> Val(a, (a.w - X(a, k)) % a.w, (a.h - Y(a, k)) % a.h)])
Times(v, n) == TLCEval([k \in DOMAIN v |-> n * v[k]])
Convolution(a, b) ==
    TLCEval([k \in DOMAIN a.v |->
        LET Add(s, i) == IF a.v[i] = 0 THEN s ELSE s + a.v[i] * Val(b, (X(a, k) + a.w - X(a, i)) % a.w, (Y(a, k) + a.h - Y(a, i)) % a.h)
        IN FoldLeftDomain(Add, 0, a.v)])

Direct(a) == CASE a.kind = "picture" -> Spectrum(a.w, a.h, a.v)
               [] a.kind = "spectrum" -> Picture(a.w, a.h, Times(Mirrored(a), a.w * a.h))
               [] OTHER -> a
Back(a) == CASE a.kind = "picture" -> Spectrum(a.w, a.h, Mirrored(a))
                [] a.kind = "spectrum" -> Picture(a.w, a.h, Times(a.v, a.w * a.h))
                [] OTHER -> a
Product(a, b) == CASE a.kind = "picture" /\ b.kind = "picture" -> Picture(a.w, a.h, TLCEval([k \in DOMAIN a.v |-> a.v[k] * b.v[k]]))
                   [] a.kind = "spectrum" /\ b.kind = "spectrum" -> Spectrum(a.w, a.h, Convolution(a, b))
                   [] OTHER -> Unset(a.w, a.h)

(* The picture shown: divided by the number of pixels, rounded, cut to bytes, the origin moved to the middle. *)
Shown(a, d) ==
    /\ Len(d) = Len(a.v)
    /\ \A k \in DOMAIN a.v :
         LET out == d[((Y(a, k) + a.h \div 2) % a.h) * a.w + ((X(a, k) + a.w \div 2) % a.w) + 1]
             n == a.w * a.h
         IN \/ out \in 0 .. 255 /\ 100 * Abs(2 * n * out - 2 * a.v[k]) <= 102 * n
            \/ out = 255 /\ a.v[k] >= 254 * n
            \/ out = 0 /\ a.v[k] <= n

(* The spectrum itself at frequencies where the factors are 1, -1, i and -i. Gaussian integers are pairs. *)
Rotated(z, q) == CASE q = 0 -> z [] q = 1 -> <<-z[2], z[1]>> [] q = 2 -> <<-z[1], -z[2]>> [] q = 3 -> <<z[2], -z[1]>>
Simple(n, f) == (4 * f) % n = 0
\* direct transform of v at the frequency (fx, fy)
At(a, fx, fy) ==
    LET Part(i) == Rotated(<<a.v[i], 0>>, (3 * (((4 * fx) \div a.w) * X(a, i) + ((4 * fy) \div a.h) * Y(a, i))) % 4)
        Add(s, i) == IF a.v[i] = 0 THEN s ELSE LET p == TLCEval(Part(i)) IN TLCEval(<<s[1] + p[1], s[2] + p[2]>>)
    IN FoldLeftDomain(Add, <<0, 0>>, a.v)
=============================================================================
