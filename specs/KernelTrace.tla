----------------------------- MODULE KernelTrace ----------------------------
(* Checks recorded kernels against Kernel. Values are recorded times 10^7.                                                  *)
EXTENDS Kernel, Json, IOUtils, SequencesExt, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}
One == 10000000

\* centre * q^d for d from 0 to n
Powers(centre, num, den, n) == FoldLeft(LAMBDA s, i : Append(s, (2 * s[i] * num + den) \div (2 * den)), <<centre>>, [i \in 1 .. n |-> i])

Judge(e) ==
    IF e.e # "gauss" THEN {}
    ELSE IF ~KernelOk(e.w, e.h, e.k) \/ e.sign # 1 THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception") \cup If(e.t = 0 \/ e.kept = 1, "changed")
    ELSE If(e.t = 0, "refused") \cup
         (IF e.t # 0 THEN {}
          ELSE IF Len(e.r) # e.w * e.h THEN {"size"}
          ELSE LET centre == e.r[(e.h \div 2) * e.w + e.w \div 2 + 1]
                   p == TLCEval(Powers(IF centre < 0 THEN 0 ELSE IF centre > One THEN One ELSE centre, e.num, e.den, 2 * e.k * e.k))
                   sum == FoldLeft(LAMBDA a, b : a + (IF Abs(b) > One THEN One ELSE b), 0, e.r)
               IN If(centre > 0 /\ centre <= One /\ Abs(sum - One) <= 200 + (2 * e.k + 1) * (2 * e.k + 1), "sum") \cup
                  If(\A i \in DOMAIN e.r :
                        LET x == (i - 1) % e.w
                            y == (i - 1) \div e.w
                            d == Distance2(e.w, e.h, x, y)
                        IN IF Within(e.w, e.h, e.k, x, y) THEN Abs(e.r[i] - p[d + 1]) <= 40 + d ELSE e.r[i] = 0, "weights"))
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET j == Judge(Trace[l]) IN bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
