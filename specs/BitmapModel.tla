---------------------------- MODULE BitmapModel -----------------------------
(* The reader of bitmaps step by step on headers which differ in at most two fields from a right one: what it accepts is
   what Bitmap!Describes, it touches only its buffer, and at the end the buffer holds the rows from top to bottom, also
   where indices of a palette are replaced by colours in place. Fault is a defect to be found, "none" otherwise.         *)
EXTENDS Bitmap
CONSTANTS Most, Fault, Printing

VARIABLES head, n, true, coloured, phase, buf, r, k, result
vars == <<head, n, true, coloured, phase, buf, r, k, result>>

Right(w, h, bits, dib, pal, sized) ==
    LET off == FileHeader + dib + pal
        row == Padded(w * (bits \div 8))
    IN [magic |-> TRUE, off |-> off, dib |-> dib, w |-> w, h |-> h, planes |-> 1, bits |-> bits, size |-> IF sized THEN row * Abs(h) ELSE 0, compress |-> 0]
Length(d) == d.off + Padded(d.w * (d.bits \div 8)) * Abs(d.h)
\* far values: with these the product of sizes wraps around at 4096 to the right one
Values(field, v) ==
    CASE field = "magic" -> {FALSE}
      [] field = "dib" -> {0, 12, 40, 64, 108} \ {v}
      [] field = "bits" -> {0, 1, 4, 8, 16, 24, 32, 40, 264} \ {v}
      [] field = "planes" -> {0, 2}
      [] field = "size" -> {0, v + 1, v + 4, 4096 + v} \ {v}
      [] field = "off" -> {0, 25, 26, 53, 54, v - 4, v - 1, v + 1, v + 4, v + 4096} \ {v}
      [] field \in {"w", "h"} -> {0, -1, v - 1, v + 1, -v, 1024 + v, 2048 + v} \ {v}
Fields == {"magic", "off", "dib", "w", "h", "planes", "bits", "size"}

Init ==
    /\ \E w \in 1 .. Most, h \in (-Most .. Most) \ {0}, bits \in {8, 24, 32}, dib \in {12, 40}, pal \in {0, 64, 1024}, sized \in BOOLEAN, field \in Fields \cup {"none", "length"} :
         LET d == Right(w, h, bits, dib, pal, sized) IN
         /\ dib = 12 => h > 0 /\ ~sized
         /\ true = [w |-> w, h |-> h]
         /\ coloured \in IF bits = 8 /\ pal = 1024 THEN BOOLEAN ELSE {FALSE}
         /\ IF field \in {"none", "length"} THEN head = d ELSE \E v \in Values(field, d[field]) : head = [d EXCEPT ![field] = v]
         /\ IF field = "length" THEN n \in {0, 10, 17, 25, 26, 53, 54, Length(d) - 4, Length(d) - 1, Length(d) + 1, Length(d) + 4} ELSE n = Length(d)
         /\ Printing => PrintT("SCENARIO " \o ToString(w) \o " " \o ToString(h) \o " " \o ToString(bits) \o " " \o ToString(dib) \o " " \o ToString(pal) \o " "
                               \o (IF sized THEN "1 " ELSE "0 ") \o (IF coloured THEN "1 " ELSE "0 ") \o field \o " "
                               \o (IF field = "magic" THEN "0" ELSE IF field = "none" THEN "0" ELSE IF field = "length" THEN ToString(n) ELSE ToString(head[field])))
    /\ phase = "open" /\ buf = <<>> /\ r = 0 /\ k = 0 /\ result = "none"

Wrap(a) == IF Fault = "Wraps" THEN a % 4096 ELSE a
Row == Wrap(Padded(Wrap(head.w * (head.bits \div 8))))
Colours == IF coloured THEN 3 ELSE head.bits \div 8
OutRow == Padded(head.w * Colours)
Refuse == phase' = "done" /\ result' = "empty" /\ UNCHANGED <<head, n, true, coloured, buf, r, k>>
Go(next) == phase' = next /\ UNCHANGED <<head, n, true, coloured, buf, r, k, result>>

Open == phase = "open" /\ IF n < (IF Fault = "BigMinimum" THEN 76 ELSE FileHeader + 4) \/ ~head.magic \/ head.off >= n THEN Refuse ELSE Go("dib")
Dib == phase = "dib" /\ IF head.dib \notin {12, 40} THEN Refuse ELSE Go("check")
Check ==
    /\ phase = "check"
    /\ IF head.bits \notin {8, 24, 32} \/ head.w <= 0 \/ (head.h <= 0 /\ (head.dib = 12 \/ head.h = 0)) \/ head.planes # 1
          \/ (head.dib = 40 /\ head.size # 0 /\ head.size # Wrap(Row * Abs(head.h)))
          \/ (head.off < FileHeader + head.dib /\ Fault # "NoOffset")
       THEN Refuse ELSE Go("length")
LengthCheck == phase = "length" /\ IF n # Wrap(head.off + Wrap(Row * Abs(head.h))) /\ Fault # "NoLength" THEN Refuse ELSE Go("read")

\* contents: the pixel k of row r (as stored) is r * 16 + k, its colours are that and 1000, 2000 more
Stored(y, x) == y * 16 + x
Read ==
    /\ phase = "read"
    /\ buf' = [i \in 1 .. OutRow * Abs(head.h) |->
                 LET y == (i - 1) \div Row
                     x == (i - 1) % Row
                 IN IF i <= Row * Abs(head.h) /\ x < head.w * (head.bits \div 8) THEN Stored(y, x) ELSE -1]
    /\ phase' = IF coloured THEN "expand" ELSE "flip"
    /\ r' = IF coloured THEN (IF Fault = "Upwards" THEN 0 ELSE Abs(head.h) - 1) ELSE 0
    /\ k' = IF Fault = "Upwards" THEN 0 ELSE head.w - 1
    /\ UNCHANGED <<head, n, true, coloured, result>>
Expand ==
    /\ phase = "expand"
    /\ LET at == OutRow * r + 3 * k
           v == buf[Row * r + k + 1]
           last == IF Fault = "Upwards" THEN r = Abs(head.h) - 1 /\ k = head.w - 1 ELSE r = (IF Fault = "SkipsRow" THEN 1 ELSE 0) /\ k = 0
       IN IF Fault = "SkipsRow" /\ Abs(head.h) = 1 THEN phase' = "flip" /\ r' = 0 /\ UNCHANGED <<buf, k>>
          ELSE /\ buf' = [buf EXCEPT ![at + 1] = v, ![at + 2] = v + 1000, ![at + 3] = v + 2000]
               /\ IF last THEN phase' = "flip" /\ r' = 0 /\ UNCHANGED k
                  ELSE /\ phase' = "expand"
                       /\ IF Fault = "Upwards" THEN k' = (IF k = head.w - 1 THEN 0 ELSE k + 1) /\ r' = IF k = head.w - 1 THEN r + 1 ELSE r
                          ELSE k' = (IF k = 0 THEN head.w - 1 ELSE k - 1) /\ r' = IF k = 0 THEN r - 1 ELSE r
    /\ UNCHANGED <<head, n, true, coloured, result>>
Flip ==
    /\ phase = "flip"
    /\ IF (head.h < 0 /\ Fault # "AlwaysFlips") \/ r >= (IF Fault = "FlipsTwice" THEN Abs(head.h) ELSE Abs(head.h) \div 2)
       THEN phase' = "done" /\ result' = "image" /\ UNCHANGED <<buf, r>>
       ELSE LET other == Abs(head.h) - 1 - r
            IN /\ buf' = [i \in 1 .. Len(buf) |-> LET y == (i - 1) \div OutRow
                                                      x == (i - 1) % OutRow
                                                  IN IF y = r THEN buf[other * OutRow + x + 1] ELSE IF y = other THEN buf[r * OutRow + x + 1] ELSE buf[i]]
               /\ r' = r + 1 /\ UNCHANGED <<phase, result>>
    /\ UNCHANGED <<head, n, true, coloured, k>>
Next == Open \/ Dib \/ Check \/ LengthCheck \/ Read \/ Expand \/ Flip
Spec == Init /\ [][Next]_vars

\* only right headers are read further
Sound == phase \in {"read", "expand", "flip"} => Describes(head, n)
Complete == phase = "done" => (result = "image" <=> Describes(head, n))
Expected(y, x) == LET stored == IF head.h < 0 THEN y ELSE Abs(head.h) - 1 - y
                  IN IF coloured THEN Stored(stored, x \div 3) + 1000 * (x % 3) ELSE Stored(stored, x)
Exact == phase = "done" /\ result = "image" => \A y \in 0 .. Abs(head.h) - 1, x \in 0 .. head.w * Colours - 1 : buf[y * OutRow + x + 1] = Expected(y, x)
=============================================================================
