--------------------------- MODULE TransformsTrace --------------------------
(* Checks recorded transforms against Transforms. Values of the results of Haar transforms are recorded times 1000; sines and
   cosines times 65536; coordinates times 8.                                                                               *)
EXTENDS Transforms, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

JudgeHaar(e) ==
    IF ~HaarSizeOk(Len(e.v), e.w, e.h) \/ e.outSize # Len(e.v) THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception") \cup If(e.kept = 1, "changed")
    ELSE LET want == IF e.inverse = 1 THEN Inverse2(e.v, e.w, e.h) ELSE Haar2(e.v, e.w, e.h)
         IN If(e.t = 0, "refused") \cup (IF e.t # 0 THEN {} ELSE If(Len(e.r) = Len(want) /\ \A k \in DOMAIN want : Abs(2 * e.r[k] - 1000 * want[k]) <= 6, "values"))
              \cup If(e.t # 0 \/ Len(e.back) = 0 \/ (Len(e.back) = Len(e.v) /\ \A k \in DOMAIN e.v : Abs(e.back[k] - 1000 * e.v[k]) <= 6), "inverse")

Slack == 6000
JudgeHough(e) ==
    IF Len(e.pts) < 2 THEN If(e.t = 0 /\ e.found = 0, "accepted")
    ELSE IF Len(e.dirs) # DirectionCount(e.tolerance, e.step) THEN {"driver"}
    ELSE If(e.t = 0 /\ e.found = 1, "refused") \cup
         (IF e.t # 0 \/ e.found = 0 THEN {}
          ELSE IF ~Partition(e.pts, e.on, e.off) THEN {"partition"}
          ELSE If(Explained(e.pts, e.on, e.dirs, e.line, Slack), "line") \cup If(Best(e.pts, e.on, e.dirs, e.line, Slack), "points"))

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "haar" -> JudgeHaar(e)
      [] e.e = "hough" -> JudgeHough(e)
      [] OTHER -> {"driver"}
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET j == Judge(Trace[l]) IN bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
