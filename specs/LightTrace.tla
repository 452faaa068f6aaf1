----------------------------- MODULE LightTrace -----------------------------
(* Checks recorded use of light correctors against Light. The state is what the corrector knows.                           *)
EXTENDS Light, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, known, bad
vars == <<l, known, bad>>
Init == l = 1 /\ known = Nothing /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

\* d, r: all values of the pixels before and after, without padding; pad: whether the padding is as before
JudgeCorrect(e) ==
    IF ~Correctable(known, e.im, e.x, e.y, e.w, e.h) THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception") \cup If(e.r = e.im.d /\ e.pad = 1, "changed")
    ELSE If(e.t = 0, "refused") \cup If(e.pad = 1, "padding") \cup
         (IF e.t # 0 THEN {}
          ELSE LET In(k) == LET px == (k - 1) % e.im.w
                                py == (k - 1) \div e.im.w
                            IN px >= e.x /\ px < e.x + e.w /\ py >= e.y /\ py < e.y + e.h
                   Known(k) == known.d[((k - 1) \div e.im.w) * known.w + ((k - 1) % e.im.w) + 1]
               IN If(Len(e.r) = Len(e.im.d) /\ \A k \in DOMAIN e.r : ~In(k) => e.r[k] = e.im.d[k], "outside")
                  \cup If(Len(e.r) = Len(e.im.d) /\ \A k \in DOMAIN e.r : In(k) => Becomes(e.im.d[k], Known(k), known.top, e.r[k]), "values"))
JudgeFind(e) ==
    IF known.w = 0 THEN If(e.t = 1 \/ (e.t = 0 /\ e.found = <<>>), "invented")
    ELSE IF e.im.w # known.w \/ e.im.h # known.h \/ e.im.cc # 1 THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception")
    ELSE If(e.t = 0 /\ Len(e.found) = Cardinality(Broken(e.im.d)) /\ {e.found[k] : k \in DOMAIN e.found} = Broken(e.im.d), "found")

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "analyse" -> IF Analysable(e.im) THEN If(e.t = 0, "refused") ELSE If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception")
      [] e.e = "correct" -> JudgeCorrect(e)
      [] e.e = "find" -> JudgeFind(e)
      [] OTHER -> {"driver"}
Following(e) == CASE e.e = "begin" -> Nothing
                  [] e.e = "analyse" /\ Analysable(e.im) -> Analysed(e.im)
                  [] OTHER -> known
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           j == Judge(e)
       IN bad' = (IF j = {} THEN bad ELSE Append(bad, <<l, j>>)) /\ known' = TLCEval(Following(e))
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
