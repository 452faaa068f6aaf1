----------------------------- MODULE BlobTrace ------------------------------
(* Checks recorded searches and measurements of the real blob detection against Blob. *)
EXTENDS Blob, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, blobs, bad        \* blobs: those in the list of the detection object, in its order
vars == <<l, blobs, bad>>
Init == l = 1 /\ blobs = <<>> /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

Foreground(e) == { p \in (e.x .. e.x + e.w - 1) \X (e.y .. e.y + e.h - 1) : e.d[p[2] * e.iw + p[1] + 1] >= e.th }
RegionOk(e) == e.cc = 1 /\ e.w > 0 /\ e.h > 0 /\ e.x + e.w <= e.iw /\ e.y + e.h <= e.ih
Pixels(a, b) == { <<a[i], b[i]>> : i \in 1 .. Len(a) }
ListOk(a, b, s) == Len(a) = Len(b) /\ Len(a) = Cardinality(s) /\ Pixels(a, b) = s
Sets(e) == TLCEval([i \in 1 .. Len(e.res) |-> IF Len(e.res[i].px) = Len(e.res[i].py) THEN Pixels(e.res[i].px, e.res[i].py) ELSE {}])
Unlimited(e) == \A i \in 1 .. 6 : e.lo[i] = -1 /\ e.hi[i] = -1

JudgeFind(e) ==
    LET valid == RegionOk(e) /\ LimitsOk(e.lo, e.hi)
        found == Sets(e)
        all == Components(Foreground(e))
        listed == ToSet(found)
    IN IF ~valid THEN If(e.t = 1, IF e.t = 0 THEN "accepted" ELSE "exception") \cup If(found = blobs \/ found = <<>>, "results")
       ELSE IF e.t # 0 THEN {"refused"}
       ELSE If(\A i \in 1 .. Len(found) : found[i] \in all /\ ListOk(e.res[i].px, e.res[i].py, found[i]), "components")
            \cup If(Cardinality(listed) = Len(found), "twice")
            \cup If(\A i \in 1 .. Len(found) : found[i] \in all => ListOk(e.res[i].ex, e.res[i].ey, EdgeOf(found[i])), "edge")
            \cup If(\A i \in 1 .. Len(found) : found[i] \in all => ListOk(e.res[i].cx, e.res[i].cy, ContourOf(found[i])), "contour")
            \cup (IF Unlimited(e) THEN If(\A c \in all : c \in listed, "missing")
                  ELSE If(\A c \in all \ listed : ~MustStay(c, e.lo, e.hi), "excluded")
                       \cup If(\A c \in all \cap listed : MayStay(c, e.lo, e.hi), "included"))

\* the blobs of an order recorded as first pixel and size
Places(e) == TLCEval([i \in 1 .. Len(e.ord) |-> { k \in 1 .. Len(blobs) : <<e.ord[i][1], e.ord[i][2]>> \in blobs[k] /\ Cardinality(blobs[k]) = e.ord[i][3] }])
OrderOk(e) == LET p == Places(e) IN Len(p) = Len(blobs) /\ (\A i \in 1 .. Len(p) : Cardinality(p[i]) = 1) /\ UNION ToSet(p) = 1 .. Len(blobs)
Ordered(e) == LET p == Places(e) IN [i \in 1 .. Len(p) |-> blobs[CHOOSE k \in p[i] : TRUE]]

LineOk(e) == e.count = 1 /\ e.size = e.n /\ e.length = e.n - 1 /\ e.centre = e.n - 1 /\ e.other = 0 /\ e.w = e.n

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "find" -> JudgeFind(e)
      [] e.e = "measure" -> IF e.i > Len(blobs) \/ blobs[e.i] = {} THEN {"driver"}
                            ELSE If(MeasureOk(blobs[e.i], e.m, e.v), e.m) \cup If(e.v2 = e.v, "constant")
      [] e.e = "sort" -> IF ~OrderOk(e) THEN {"permutation"} ELSE If(Descending(Ordered(e), e.m), "order")
      [] e.e = "best" -> IF ~OrderOk(e) THEN {"permutation"} ELSE If(IsBest(blobs, e.m, e.i), "best") \cup If(Ordered(e) = blobs, "changed")
      [] e.e = "line" -> If(LineOk(e), "line")
      [] OTHER -> {"driver"}

Following(e) ==
    CASE e.e = "begin" -> <<>>
      [] e.e = "find" -> Sets(e)
      [] e.e \in {"sort", "best"} -> IF OrderOk(e) THEN Ordered(e) ELSE blobs
      [] OTHER -> blobs

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           j == Judge(e)
       IN /\ bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
          /\ blobs' = Following(e)

Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
