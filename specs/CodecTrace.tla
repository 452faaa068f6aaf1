----------------------------- MODULE CodecTrace -----------------------------
(* Checks recorded reading and writing of PNG and JPEG files against Codec. What a file holds comes from a decoder of the
   driver's own: for PNG files the stored samples, without any conversion; for JPEG files the decoded picture.              *)
EXTENDS Codec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}
Image(r) == [w |-> r.w, h |-> r.h, cc |-> r.cc, rows |-> r.rows]
Got(e) == IF e.out.w = 0 \/ e.out.h = 0 THEN NoPicture ELSE Image(e.out)
Slack == 4

\* nothing stays behind an operation: no open file, no memory after it was repeated
Released(e) == If(e.fds = 0, "open file") \cup If(e.kept = 0, "memory")

\* is the picture the right one; the order of channels of JPEG files is told apart
Same(e, want) ==
    IF e.fmt = "png" THEN If(Got(e) = want, "picture")
    ELSE LET mirrored == Exchanged(want) IN
         IF want.cc = 1 THEN If(Near(Got(e), want, Slack), "picture")
         ELSE IF Near(Got(e), mirrored, Slack) THEN {}
         ELSE IF Near(Got(e), want, Slack) THEN {"order"} ELSE {"picture"}

\* of a JPEG file the reference is red, green, blue
Reference(e) == IF e.fmt = "png" THEN PngPicture(e.ref) ELSE Image(e.ref)
Result(e) == IF e.t = 1 THEN "exception" ELSE IF e.t # 0 THEN "wrong" ELSE IF Got(e) = NoPicture THEN "empty" ELSE "picture"

JudgeLoad(e) ==
    Released(e)
    \cup (IF ~MayRead(e.state, Result(e)) THEN {IF e.state = "whole" THEN "refused" ELSE "accepted"}
          ELSE IF e.state = "whole" THEN Same(e, Reference(e)) ELSE {})

JudgeSave(e) ==
    LET im == Image(e.im)
        good == e.target = "file"
        want == PartOf(im, e.x, e.y, e.pw, e.ph)
    IN Released(e)
       \cup (IF ~good THEN If(e.t = 1, IF e.t = 0 THEN "saved" ELSE "exception")
             ELSE IF e.t # 0 THEN {"refused"}
             ELSE IF e.state # "whole" THEN {"invalid file"}
             ELSE IF e.fmt = "png" THEN If(PngPicture(e.ref) = want, "picture")
             ELSE If(e.step = FirstStep(e.q), "quality")
                  \cup (LET written == Exchanged(Image(e.ref)) IN \* as blue, green, red
                        IF e.q < 50 THEN If(SameShape(written, want), "picture")
                        ELSE IF Near(written, want, Slack) THEN {}
                        ELSE IF Near(Exchanged(written), want, Slack) THEN {"order"} ELSE {"picture"}))

JudgeQuality(e) ==
    IF e.q \in 1 .. 100 THEN If(e.t = 0 /\ e.after = e.q, "quality") ELSE If(e.t = 1 /\ e.after = e.before, "quality")

Judge(e) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] e.e = "load" -> JudgeLoad(e)
      [] e.e = "save" -> JudgeSave(e)
      [] e.e = "quality" -> JudgeQuality(e)
      [] OTHER -> {"driver"}

Next ==
    /\ l <= Len(Trace)
    /\ LET r == Judge(Trace[l]) IN bad' = IF r = {} THEN bad ELSE Append(bad, <<l, r>>)
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
