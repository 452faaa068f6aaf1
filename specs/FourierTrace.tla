---------------------------- MODULE FourierTrace ----------------------------
(* Checks recorded use of complex data and executors against Fourier. The state: arrays by number, executors' sizes.        *)
EXTENDS Fourier, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, arrays, execs, bad
vars == <<l, arrays, execs, bad>>
Slots == 1 .. 4
Init == l = 1 /\ arrays = [s \in Slots |-> NoArray] /\ execs = [s \in Slots |-> <<0, 0>>] /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

SameSize(a, b) == a.w = b.w /\ a.h = b.h
Fits(x, a) == x # <<0, 0>> /\ x = <<a.w, a.h>>

\* whether a call must succeed, and the array it leaves in slot e.o (e.a, e.b: the other arrays, e.x: the executor)
Good(e) ==
    CASE e.e = "image" -> e.w > 0 /\ e.h > 0 /\ e.cc = 1
      [] e.e = "make" -> e.w > 0 /\ e.h > 0 /\ Len(e.v) = e.w * e.h
      [] e.e = "values" -> arrays[e.o].kind # "none" /\ Len(e.v) = arrays[e.o].w * arrays[e.o].h
      [] e.e \in {"direct", "inverse"} -> Fits(execs[e.x], arrays[e.a]) /\ SameSize(arrays[e.a], arrays[e.o])
      [] e.e = "product" -> arrays[e.a].kind # "none" /\ SameSize(arrays[e.a], arrays[e.b]) /\ SameSize(arrays[e.a], arrays[e.o])
      [] e.e = "executor" -> e.w > 0 /\ e.h > 0
      [] OTHER -> TRUE
After(e) ==
    IF ~Good(e) THEN arrays
    ELSE CASE e.e \in {"image", "make"} -> [arrays EXCEPT ![e.o] = Picture(e.w, e.h, e.v)]
           [] e.e = "values" -> [arrays EXCEPT ![e.o] = Picture(@.w, @.h, e.v)]
           [] e.e = "resize" -> IF e.w = 0 \/ e.h = 0 \/ (e.w = arrays[e.o].w /\ e.h = arrays[e.o].h) THEN arrays ELSE [arrays EXCEPT ![e.o] = Unset(e.w, e.h)]
           [] e.e = "copy" -> [arrays EXCEPT ![e.o] = arrays[e.a]]
           [] e.e = "move" -> [arrays EXCEPT ![e.o] = arrays[e.a], ![e.a] = NoArray]
           [] e.e = "direct" -> [arrays EXCEPT ![e.o] = Direct(arrays[e.a])]
           [] e.e = "inverse" -> [arrays EXCEPT ![e.o] = Back(arrays[e.a])]
           [] e.e = "product" -> [arrays EXCEPT ![e.o] = Product(arrays[e.a], arrays[e.b])]
           [] OTHER -> arrays

MaxAbs(v) == FoldLeft(LAMBDA s, x : IF Abs(x) > s THEN Abs(x) ELSE s, 0, v)
Sum(v) == FoldLeft(LAMBDA s, x : s + Abs(x), 0, v)
\* e.re, e.im: real and imaginary parts of everything, rounded
JudgeLook(e) ==
    LET a == arrays[e.o] IN
    IF a.kind = "none" THEN If(e.w = 0 /\ e.h = 0 /\ e.empty = 1, "size")
    ELSE If(e.w = a.w /\ e.h = a.h /\ e.empty = 0, "size") \cup
         CASE a.kind = "picture" -> LET slack == 2 + MaxAbs(a.v) \div 1000 IN If(Len(e.re) = Len(a.v) /\ \A k \in DOMAIN a.v : Abs(e.re[k] - a.v[k]) <= slack /\ Abs(e.im[k]) <= slack, "picture")
           [] a.kind = "spectrum" -> LET slack == 2 + Sum(a.v) \div 1000
                                     IN If(Len(e.re) = Len(a.v) /\ \A k \in DOMAIN a.v : Simple(a.w, X(a, k)) /\ Simple(a.h, Y(a, k)) =>
                                               LET z == At(a, X(a, k), Y(a, k)) IN Abs(e.re[k] - z[1]) <= slack /\ Abs(e.im[k] - z[2]) <= slack, "spectrum")
           [] OTHER -> {}
JudgeShow(e) ==
    LET a == arrays[e.o] IN
    IF a.kind = "none" THEN If(e.w = 0 /\ e.h = 0, "shown")
    ELSE IF a.kind # "picture" THEN If(e.w = a.w /\ e.h = a.h, "shown size") ELSE If(e.w = a.w /\ e.h = a.h /\ e.cc = 1 /\ Shown(a, e.d), "shown")

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "look" -> JudgeLook(e)
      [] e.e = "show" -> JudgeShow(e)
      [] e.e \in {"image", "make", "values", "direct", "inverse", "product", "executor"} -> IF Good(e) THEN If(e.t = 0, "refused") ELSE If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception")
      [] e.e \in {"resize", "copy", "move"} -> If(e.t = 0, "refused")
      [] OTHER -> {"driver"}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           j == Judge(e)
       IN /\ bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
          /\ arrays' = TLCEval(IF e.e = "begin" THEN [s \in Slots |-> NoArray] ELSE After(e))
          /\ execs' = TLCEval(IF e.e = "begin" THEN [s \in Slots |-> <<0, 0>>]
                              ELSE IF e.e = "executor" /\ Good(e) THEN [execs EXCEPT ![e.x] = <<e.w, e.h>>] ELSE execs)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
