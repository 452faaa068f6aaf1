------------------------------- MODULE Codec --------------------------------
(* PNG and JPEG files: what image the contents of a file stand for, and what may come out of reading a broken one.

   A PNG file is seen as the record of what it stores before any conversion:
     [w, h, type, depth, palette, rows], type 0 grey, 2 colour, 3 palette, 4 grey with alpha, 6 colour with alpha;
   rows hold the samples as they are stored (0 .. 2^depth - 1), palette the colours as <<red, green, blue>>.
   An image is [w, h, cc, rows] with colours as blue, green, red.                                                          *)
EXTENDS Integers, Sequences

NoPicture == [w |-> 0, h |-> 0, cc |-> 0, rows |-> <<>>]
Power(d) == CASE d = 1 -> 2 [] d = 2 -> 4 [] d = 4 -> 16 [] d = 8 -> 256 [] d = 16 -> 65536

\* the depths each type may have
Depths(type) == CASE type = 0 -> {1, 2, 4, 8, 16} [] type = 3 -> {1, 2, 4, 8} [] OTHER -> {8, 16}
Types == {0, 2, 3, 4, 6}
Channels(type) == CASE type \in {0, 3} -> 1 [] type = 4 -> 2 [] type = 2 -> 3 [] type = 6 -> 4

\* eight bits of a sample: the high byte of 16 bits, fewer bits stretched so that the most is 255
Eight(v, depth) == CASE depth = 16 -> v \div 256 [] depth = 8 -> v [] OTHER -> v * (255 \div (Power(depth) - 1))

IsGrey(type) == type \in {0, 4}

Colour(r, x, y) == \* red, green, blue of a pixel
    LET row == r.rows[y]
        at(c) == Eight(row[Channels(r.type) * (x - 1) + c], r.depth)
    IN CASE r.type = 3 -> r.palette[row[x] + 1]
         [] IsGrey(r.type) -> <<at(1), at(1), at(1)>>
         [] OTHER -> <<at(1), at(2), at(3)>>

PngPicture(r) ==
    [w |-> r.w, h |-> r.h, cc |-> IF IsGrey(r.type) THEN 1 ELSE 3,
     rows |-> [y \in 1 .. r.h |-> IF IsGrey(r.type) THEN [x \in 1 .. r.w |-> Colour(r, x, y)[1]]
                                   ELSE [k \in 1 .. 3 * r.w |-> Colour(r, ((k - 1) \div 3) + 1, y)[3 - ((k - 1) % 3)]]]]

\* every colour inside the palette
Proper(r) == r.type = 3 => \A y \in 1 .. r.h : \A x \in 1 .. r.w : r.rows[y][x] < Len(r.palette)

\* a part of an image; the alpha channel is not kept
PartOf(im, x0, y0, w, h) ==
    LET kept == IF im.cc = 4 THEN 3 ELSE im.cc
    IN [w |-> w, h |-> h, cc |-> kept,
        rows |-> [y \in 1 .. h |-> [k \in 1 .. kept * w |-> im.rows[y0 + y][im.cc * (x0 + ((k - 1) \div kept)) + ((k - 1) % kept) + 1]]]]

Exchanged(im) == \* first and third channel
    IF im.cc # 3 THEN im
    ELSE [im EXCEPT !.rows = [y \in 1 .. im.h |-> [k \in 1 .. 3 * im.w |-> im.rows[y][3 * ((k - 1) \div 3) + 3 - ((k - 1) % 3)]]]]

Distance(a, b) == IF a > b THEN a - b ELSE b - a
SameShape(a, b) == a.w = b.w /\ a.h = b.h /\ a.cc = b.cc
Near(a, b, slack) == SameShape(a, b) /\ \A y \in 1 .. a.h : \A k \in 1 .. a.w * a.cc : Distance(a.rows[y][k], b.rows[y][k]) <= slack

(* The first step of luminance of a JPEG file of a quality (the scale of the Independent JPEG Group, which is what everybody
   means by it): 16 at 50, 1 at 100.                                                                                        *)
FirstStep(q) ==
    LET scale == IF q < 50 THEN 5000 \div q ELSE 200 - 2 * q
        s == (16 * scale + 50) \div 100
    IN IF s < 1 THEN 1 ELSE IF s > 255 THEN 255 ELSE s

(* What reading a file may come to. state of the file: "whole" (the picture is known), "broken" (no decoder gets a picture out
   of it), "doubtful" (something in it is wrong, but decoders get the picture: either is right).
   result: "picture" p, "empty", "exception"; anything else (the application ended, a file still open) is wrong.             *)
MayRead(state, result) ==
    CASE state = "whole" -> result = "picture"
      [] state = "broken" -> result \in {"empty", "exception"}
      [] OTHER -> result \in {"picture", "empty", "exception"}
=============================================================================
