----------------------------- MODULE CodecModel -----------------------------
(* Model of the reading and writing of PNG and JPEG files by the library: which conversions it asks the PNG library for and in
   what order these take place, and which resources it holds when the PNG or JPEG library reports an error by a jump.

   Checked against Codec: whatever the file, the picture is the one Codec gives it (Right); whenever an operation is over, the
   application is alive, nothing is held, and the outcome is one which is allowed (Clean).
   Every kind of file and every point of failure is printed as a scenario for the real code.                                 *)
EXTENDS Codec, TLC, FiniteSets

CONSTANTS Fault, Printing

(* Decoding. A file of one row of two pixels; samples out of a few values of its depth. *)
Few(depth) == CASE depth = 16 -> {0, 255, 256, 43981, 65535} [] depth = 8 -> {0, 1, 128, 255} [] OTHER -> {0, 1, Power(depth) - 1}
Colours == <<<<1, 2, 3>>, <<250, 4, 77>>>>

Files ==
    UNION {{[w |-> 2, h |-> 1, type |-> t, depth |-> d, palette |-> IF t = 3 THEN Colours ELSE <<>>,
             rows |-> << [k \in 1 .. 2 * Channels(t) |-> IF k \in {1, 2} THEN (IF k = 1 THEN a ELSE b) ELSE (IF k % 2 = 1 THEN b ELSE c)] >>] :
             a \in IF t = 3 THEN {0, 1} ELSE Few(d), b \in IF t = 3 THEN {0, 1} ELSE Few(d), c \in IF t = 3 THEN {0} ELSE Few(d)} :
           <<t, d>> \in {p \in Types \X {1, 2, 4, 8, 16} : p[2] \in Depths(p[1])}}

\* what the library asks for (png_image.cpp, Load)
Asked(type, depth, trns) ==
    (IF depth = 16 /\ Fault # "NoStrip" THEN {"strip"} ELSE {})
    \cup (IF type = 3 /\ Fault # "NoPalette" THEN {"palette"} ELSE {})
    \cup (IF type = 0 /\ depth < 8 /\ Fault # "NoExpand" THEN {"expand"} ELSE {})
    \cup (IF trns THEN {"trns"} ELSE {})
    \cup (IF type \in {0, 2, 3} /\ Fault # "NoFiller" THEN {"filler"} ELSE {})
    \cup (IF type \in {0, 4} /\ Fault # "NoColour" THEN {"colour"} ELSE {})

(* How the PNG library carries them out on a pixel: a pixel is a sequence of samples, with a depth and a kind of colours. *)
Pixel(f, x) == SubSeq(f.rows[1], Channels(f.type) * (x - 1) + 1, Channels(f.type) * x)
Start(f, x) == [s |-> Pixel(f, x), depth |-> f.depth, grey |-> f.type \in {0, 4}, index |-> f.type = 3, alpha |-> f.type \in {4, 6}]
Stage(step, f, trns, p) ==
    CASE step = "palette" /\ p.index -> [p EXCEPT !.s = f.palette[p.s[1] + 1] \o (IF trns THEN <<7>> ELSE <<>>), !.index = FALSE, !.depth = 8, !.alpha = trns]
      [] step = "expand" /\ p.grey /\ p.depth < 8 -> [p EXCEPT !.s = [k \in DOMAIN p.s |-> Eight(p.s[k], p.depth)], !.depth = 8]
      [] step = "trns" /\ ~p.alpha /\ ~p.index -> [p EXCEPT !.s = (IF p.depth < 8 THEN [k \in DOMAIN p.s |-> Eight(p.s[k], p.depth)] ELSE p.s) \o <<0>>, !.alpha = TRUE, !.depth = IF p.depth < 8 THEN 8 ELSE p.depth]
      [] step = "strip" /\ p.depth = 16 -> [p EXCEPT !.s = [k \in DOMAIN p.s |-> p.s[k] \div 256], !.depth = 8]
      [] step = "colour" /\ p.grey -> [p EXCEPT !.s = <<p.s[1], p.s[1], p.s[1]>> \o SubSeq(p.s, 2, Len(p.s)), !.grey = FALSE]
      [] step = "filler" /\ ~p.alpha /\ ~p.index /\ p.depth >= 8 -> [p EXCEPT !.s = p.s \o <<255>>, !.alpha = TRUE]
      [] OTHER -> p
Order == <<"palette", "expand", "trns", "strip", "colour", "filler">>
RECURSIVE Through(_, _, _, _, _)
Through(i, asked, f, trns, p) == IF i > Len(Order) THEN p ELSE Through(i + 1, asked, f, trns, IF Order[i] \in asked THEN Stage(Order[i], f, trns, p) ELSE p)

\* bytes of the row as the library sees them, and what it takes of each group of four
Bytes(f, trns) ==
    LET px(x) == Through(1, Asked(f.type, f.depth, trns), f, trns, Start(f, x))
        flat(p) == IF p.depth = 16 THEN [k \in 1 .. 2 * Len(p.s) |-> IF k % 2 = 1 THEN p.s[(k + 1) \div 2] \div 256 ELSE p.s[k \div 2] % 256] ELSE p.s
    IN flat(px(1)) \o flat(px(2)) \o <<-1, -1, -1, -1, -1, -1, -1, -1>> \* behind the row
Taken(f, trns) ==
    LET b == Bytes(f, trns)
        first == IF Fault = "NoSwap" THEN 1 ELSE 3
    IN [w |-> 2, h |-> 1, cc |-> IF IsGrey(f.type) THEN 1 ELSE 3,
        rows |-> << IF IsGrey(f.type) THEN <<b[1], b[5]>> ELSE <<b[first], b[2], b[4 - first], b[4 + first], b[6], b[8 - first]>> >>]

(* Reading and writing. Failures come at any call into the PNG or JPEG library, or at the end when the file is closed. *)
Kinds == {"png-load", "png-save", "jpeg-load", "jpeg-save"}
Steps(k) ==
    CASE k = "png-load" -> <<"open", "struct", "header", "rows", "data", "image", "close">>
      [] k = "png-save" -> <<"open", "struct", "header", "rows", "data", "end", "close">>
      [] k = "jpeg-load" -> <<"open", "struct", "header", "image", "data", "end", "close">>
      [] k = "jpeg-save" -> <<"open", "struct", "header", "data", "end", "close">>
Fallible(k) == CASE k = "png-load" -> {"open", "header", "data"}
                 [] k = "png-save" -> {"open", "header", "data", "end", "close"}
                 [] k = "jpeg-load" -> {"open", "header", "data", "end"}
                 [] k = "jpeg-save" -> {"open", "header", "data", "end"}

VARIABLES mode,            \* "decode" or an operation
          doc, trns,       \* of decoding
          step, fails, held, alive, outcome
vars == <<mode, doc, trns, step, fails, held, alive, outcome>>

Init ==
    \/ /\ mode = "decode" /\ doc \in Files /\ trns \in (IF doc.type \in {0, 2, 3} THEN BOOLEAN ELSE {FALSE})
       /\ step = 0 /\ fails = 0 /\ held = {} /\ alive = TRUE /\ outcome = "none"
    \/ /\ mode \in Kinds /\ doc = [w |-> 0] /\ trns = FALSE
       /\ step = 1 /\ fails \in {0} \cup {i \in 1 .. Len(Steps(mode)) : Steps(mode)[i] \in Fallible(mode)}
       /\ held = {} /\ alive = TRUE /\ outcome = "none"

Holds(s) == CASE s = "open" -> {"file"} [] s = "struct" -> {"struct"} [] s = "rows" -> {"rows"} [] OTHER -> {}
Running == mode # "decode" /\ outcome = "none"
Name == Steps(mode)[step]

Proceed ==
    /\ Running /\ step # fails /\ step <= Len(Steps(mode))
    /\ held' = (IF Name = "close" THEN {} ELSE held \cup Holds(Name))
    /\ IF step = Len(Steps(mode)) THEN outcome' = "done" /\ step' = step ELSE outcome' = "none" /\ step' = step + 1
    /\ UNCHANGED <<mode, doc, trns, fails, alive>>

\* an error: without a file there is nothing to release; else the library jumps to where everything is released
Break ==
    /\ Running /\ step = fails
    /\ alive' = (IF Fault = "NoJump" /\ Name \notin {"open", "close"} THEN FALSE ELSE TRUE)
    /\ outcome' = (IF mode = "png-load" /\ Name = "open" THEN "empty"
                  ELSE IF Name = "close" /\ Fault = "NoCheck" THEN "done" ELSE "exception")
    /\ held' = (CASE Fault = "LeakFile" -> held \cap {"file"}
                  [] Fault = "LeakRows" -> held \cap {"rows"}
                  [] Fault = "LeakStruct" -> held \cap {"struct"}
                  [] OTHER -> {})
    /\ UNCHANGED <<mode, doc, trns, step, fails>>

Next == Proceed \/ Break
Spec == Init /\ [][Next]_vars

Right == mode = "decode" => Taken(doc, trns) = PngPicture(doc)
Clean ==
    mode # "decode" =>
        /\ alive
        /\ outcome # "none" => held = {}
        /\ outcome = "done" => fails = 0
        /\ outcome # "none" /\ fails > 0 => MayRead("broken", outcome)

\* kinds of files and points of failure for the real code
Where == {"nothing", "signature", "header", "early", "middle", "last", "cut-signature", "cut-header", "cut-early", "cut-middle", "cut-last", "checksum", "late"}
Print1 ==
    Printing =>
        /\ (TLCGet("level") = 1 /\ mode = "decode" /\ \A k \in DOMAIN doc.rows[1] : doc.rows[1][k] = 0) =>
              \A w \in Where : \A i \in {0, 1} : PrintT("SCENARIO png " \o ToString(doc.type) \o " " \o ToString(doc.depth) \o " " \o (IF trns THEN "1" ELSE "0") \o " " \o ToString(i) \o " " \o w)
        /\ (TLCGet("level") = 1 /\ mode = "jpeg-load" /\ fails = 0) =>
              \A w \in Where : \A cc \in {1, 3} : \A s \in {1, 2} : \A p \in {0, 1} :
                  PrintT("SCENARIO jpeg " \o ToString(cc) \o " " \o ToString(s) \o " " \o ToString(p) \o " 0 " \o w)
=============================================================================
