----------------------------- MODULE BitmapTrace ----------------------------
(* Checks recorded saving and loading of files against Bitmap. The state is what the file holds: its bytes, or for PNG and
   JPEG files, whose format is not modelled, the image which was saved.                                                     *)
EXTENDS Bitmap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file, bad
vars == <<l, file, bad>>
NoFile == [kind |-> "none", f |-> <<>>, im |-> NoImage]
Init == l = 1 /\ file = NoFile /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}
Image(r) == [w |-> r.w, h |-> r.h, cc |-> r.cc, rows |-> r.rows]
Loaded(e) == IF e.w = 0 \/ e.h = 0 THEN NoImage ELSE Image(e)

Close(a, b, slack) == a.w = b.w /\ a.h = b.h /\ a.cc = b.cc /\ \A y \in 1 .. a.h : Len(a.rows[y]) = Len(b.rows[y]) /\ \A k \in 1 .. Len(a.rows[y]) : Abs(a.rows[y][k] - b.rows[y][k]) <= slack
\* PNG files have no alpha channel here
Opaque(im) == IF im.cc < 4 THEN im
              ELSE [im EXCEPT !.cc = 3, !.rows = [y \in 1 .. im.h |-> [k \in 1 .. 3 * im.w |-> im.rows[y][4 * ((k - 1) \div 3) + ((k - 1) % 3) + 1]]]]

JudgeSave(e) ==
    LET im == Image(e.im)
        good == e.target = "file" /\ RegionOk(im, e.x, e.y, e.w, e.h) /\ im.cc \in (IF e.fmt = "jpeg" THEN {1, 3} ELSE {1, 3, 4})
    IN IF ~good THEN If(e.t = 1, IF e.t = 0 THEN "saved" ELSE "exception")
       ELSE IF e.t # 0 THEN {"refused"}
       ELSE CASE e.fmt = "bmp" -> If(WellFormed(e.f), "header") \cup If(Decoded(e.f) = Region(im, e.x, e.y, e.w, e.h), "contents")
              [] e.fmt \in {"raw8", "raw16"} -> If(e.f = RawBytes(im.rows, IF e.fmt = "raw8" THEN 1 ELSE 2), "contents")
              [] OTHER -> {}

JudgeLoad(e) ==
    LET got == Loaded(e) IN
    CASE e.fmt = "bmp" /\ file.kind \in {"bmp", "any"} ->
           LET want == Decoded(file.f)
           IN IF want = NoImage \/ Compressed(file.f) THEN If(e.t \in {0, 1}, "exception") \cup If(e.t # 0 \/ got = NoImage \/ got = want, "invented")
              ELSE If(e.t = 0, "refused") \cup (IF e.t # 0 THEN {} ELSE If(got # NoImage, "empty") \cup If(got = NoImage \/ got = want, "image"))
      [] e.fmt \in {"raw8", "raw16"} ->
           LET bytes == IF e.fmt = "raw8" THEN 1 ELSE 2
               none == e.rw = 0 \/ e.rh = 0 \/ e.rc = 0
           IN IF none THEN If(e.t = 1, "accepted")
              ELSE LET want == RawDecoded(file.f, e.rw, e.rh, e.rc, bytes)
                   IN IF want = NoImage THEN If(e.t \in {0, 1}, "exception") \cup If(e.t # 0 \/ got = NoImage, "invented")
                      ELSE If(e.t = 0 /\ got = want, "image")
      [] e.fmt = "png" /\ file.kind = "png" -> If(e.t = 0 /\ got = Opaque(file.im), "image")
      [] e.fmt = "jpeg" /\ file.kind = "jpeg" -> If(e.t = 0 /\ Close(got, file.im, 4), "image")
      [] e.fmt = "none" -> If(IF e.nopath = 1 THEN e.t = 1 ELSE e.t \in {0, 1} /\ got = NoImage, "invented")
      [] OTHER -> {"driver"}

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "put" -> {}
      [] e.e = "save" -> JudgeSave(e)
      [] e.e = "load" -> JudgeLoad(e)
      [] e.e = "swap" -> If(Len(e.after) = Len(e.before) /\ \A k \in 1 .. Len(e.before) : e.after[k] = IF e.bytes = 1 THEN e.before[k] ELSE Swapped(e.before[k]), "swap")
      [] e.e = "big" -> If(e.t = 0 /\ e.differ = 0 /\ e.length = e.expected, "big")
      [] OTHER -> {"driver"}

Following(e) ==
    CASE e.e = "begin" -> NoFile
      [] e.e = "put" -> [kind |-> "any", f |-> e.f, im |-> NoImage]
      [] e.e = "save" /\ e.t = 0 /\ e.target = "file" -> [kind |-> e.fmt, f |-> e.f, im |-> IF e.fmt \in {"png", "jpeg"} THEN Region(Image(e.im), e.x, e.y, e.w, e.h) ELSE NoImage]
      [] OTHER -> file

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           j == Judge(e)
       IN /\ bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
          /\ file' = TLCEval(Following(e))
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
