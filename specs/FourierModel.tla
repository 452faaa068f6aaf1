---------------------------- MODULE FourierModel ----------------------------
(* The algebra of Fourier.tla against transforms computed in Gaussian integers as the code does it - a buffer of numbers which
   is transformed, multiplied and transformed back in place - for widths and heights of 1, 2 and 4.                        *)
EXTENDS Fourier
CONSTANTS Sizes, Values, Full, Steps, Fault   \* unless Full, the second picture has one pixel
VARIABLES w, h, a, b, bufA, bufB, n
vars == <<w, h, a, b, bufA, bufB, n>>

AllSizes == {<<2, 2>>, <<4, 1>>, <<1, 4>>}
MoreSizes == {<<4, 2>>, <<2, 4>>}
Real(v) == [k \in DOMAIN v |-> <<v[k], 0>>]
\* sign 3: direct, 1: inverse. With the fault, the dimensions are confused.
Transform(buf, sign) ==
    LET ww == IF Fault = "Dimensions" THEN h ELSE w
        hh == IF Fault = "Dimensions" THEN w ELSE h
        One(k) == LET fx == (k - 1) % ww
                      fy == (k - 1) \div ww
                      Part(i) == Rotated(buf[i], (sign * ((4 \div ww) * fx * ((i - 1) % ww) + (4 \div hh) * fy * ((i - 1) \div ww))) % 4)
                      Add(s, i) == LET p == TLCEval(Part(i)) IN TLCEval(<<s[1] + p[1], s[2] + p[2]>>)
                  IN FoldLeftDomain(Add, <<0, 0>>, buf)
    IN TLCEval([k \in 1 .. w * h |-> One(k)])
Times2(p, q, inPlace) == LET re == p[1] * q[1] - p[2] * q[2] IN
    <<re, IF Fault = "InPlace" /\ inPlace THEN re * q[2] + p[2] * q[1] ELSE p[1] * q[2] + p[2] * q[1]>>
\* the same in the buffers
Agrees(p, buf) == CASE p.kind = "picture" -> buf = Real(p.v)
                    [] p.kind = "spectrum" -> \A k \in 1 .. w * h : buf[k] = At(p, (k - 1) % w, (k - 1) \div w)
                    [] OTHER -> TRUE

Init == \E s \in Sizes : /\ w = s[1] /\ h = s[2] /\ n = 0
                         /\ \E v \in [1 .. s[1] * s[2] -> Values] : a = Picture(s[1], s[2], v) /\ bufA = Real(v)
                         /\ \E v \in [1 .. s[1] * s[2] -> Values] : (Full \/ Cardinality({k \in DOMAIN v : v[k] # 0}) = 1) /\ b = Picture(s[1], s[2], v) /\ bufB = Real(v)
Next ==
    /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<w, h>>
    /\ \/ a' = Direct(a) /\ bufA' = Transform(bufA, 3) /\ UNCHANGED <<b, bufB>>
       \/ b' = Direct(b) /\ bufB' = Transform(bufB, 3) /\ UNCHANGED <<a, bufA>>
       \/ a' = Back(a) /\ bufA' = Transform(bufA, IF Fault = "BothDirect" THEN 3 ELSE 1) /\ UNCHANGED <<b, bufB>>
       \/ a.kind = b.kind /\ a' = Product(a, b) /\ bufA' = [k \in 1 .. w * h |-> Times2(bufA[k], bufB[k], TRUE)] /\ UNCHANGED <<b, bufB>>
Spec == Init /\ [][Next]_vars
Algebra == Agrees(a, bufA) /\ Agrees(b, bufB)
Everywhere == \A k \in 1 .. w * h : Simple(w, (k - 1) % w) /\ Simple(h, (k - 1) \div w)
=============================================================================
