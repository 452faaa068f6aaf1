------------------------------- MODULE Bitmap -------------------------------
(* Files: bitmaps as the library writes and reads them, and raw files. A file is a sequence of bytes; an image a record of
   width w, height h, colour count cc and rows, each a sequence of w * cc values. NoImage stands for an empty image.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoImage == [w |-> 0, h |-> 0, cc |-> 0, rows |-> <<>>]
FileHeader == 14
Huge == 1073741824      \* stands for everything from there on

U16(f, k) == f[k + 1] + 256 * f[k + 2]
U32(f, k) == IF f[k + 4] >= 64 THEN Huge ELSE f[k + 1] + 256 * f[k + 2] + 65536 * f[k + 3] + 16777216 * f[k + 4]
\* with sign; far negative values are all -Huge
I32(f, k) == IF f[k + 4] < 128 THEN U32(f, k)
             ELSE IF f[k + 4] = 255 /\ f[k + 3] = 255 THEN U16(f, k) - 65536 ELSE -Huge

Padded(n) == ((n + 3) \div 4) * 4
Abs(a) == IF a < 0 THEN -a ELSE a

(* Header: a record of magic (the first two bytes are BM), off (offset of pixels), dib (size of the second header), w, h
   (negative if the first row comes first), planes, bits, size (of pixel data; 0: not given) and compress. Whether it and
   the length n of the file describe an image; then its colour count.                                                     *)
Describes(d, n) ==
    /\ d.magic /\ d.dib \in {12, 40} /\ d.planes = 1 /\ d.bits \in {8, 24, 32}
    /\ d.off >= FileHeader + d.dib /\ d.off < n
    /\ d.w \in 1 .. n /\ Abs(d.h) \in 1 .. n /\ (d.h < 0 => d.dib = 40)
    /\ LET row == Padded(d.w * (d.bits \div 8))
       IN /\ row <= n /\ (n - d.off) % row = 0 /\ (n - d.off) \div row = Abs(d.h)
          /\ d.dib = 40 => d.size \in {0, n - d.off}

HeaderOf(f) ==
    IF Len(f) < 26 \/ (U32(f, 14) = 40 /\ Len(f) < 54) THEN [magic |-> FALSE, dib |-> 0]
    ELSE IF U32(f, 14) = 12
    THEN [magic |-> f[1] = 66 /\ f[2] = 77, off |-> U32(f, 10), dib |-> 12, w |-> U16(f, 18), h |-> U16(f, 20), planes |-> U16(f, 22), bits |-> U16(f, 24),
          size |-> 0, compress |-> 0]
    ELSE IF U32(f, 14) = 40
    THEN [magic |-> f[1] = 66 /\ f[2] = 77, off |-> U32(f, 10), dib |-> 40, w |-> I32(f, 18), h |-> I32(f, 22), planes |-> U16(f, 26), bits |-> U16(f, 28),
          size |-> U32(f, 34), compress |-> U32(f, 30)]
    ELSE [magic |-> FALSE, dib |-> 0]

\* the palette is as long as everything between headers and pixels; only one of 256 colours counts, and only for 8 bits
PaletteOf(f, d) == SubSeq(f, FileHeader + d.dib + 1, d.off)
GreyPalette == [k \in 1 .. 1024 |-> IF k % 4 = 0 THEN 0 ELSE (k - 1) \div 4]
Coloured(f, d) == d.bits = 8 /\ d.off = FileHeader + d.dib + 1024 /\ PaletteOf(f, d) # GreyPalette
ColourOf(p, v) == << p[4 * v + 1], p[4 * v + 2], p[4 * v + 3] >>

\* the row of the image which is k-th (from 0) in the file
StoredRow(f, d, k) == LET row == Padded(d.w * (d.bits \div 8)) IN SubSeq(f, d.off + k * row + 1, d.off + k * row + d.w * (d.bits \div 8))
Expanded(row, p) == TLCEval([k \in 1 .. 3 * Len(row) |-> ColourOf(p, row[(k + 2) \div 3])[((k + 2) % 3) + 1]])
\* the image the file holds
Decoded(f) ==
    LET d == HeaderOf(f) IN
    IF ~d.magic \/ ~Describes(d, Len(f)) THEN NoImage
    ELSE LET h == Abs(d.h)
             p == TLCEval(PaletteOf(f, d))
             stored(y) == StoredRow(f, d, IF d.h < 0 THEN y - 1 ELSE h - y)
         IN [w |-> d.w, h |-> h, cc |-> IF Coloured(f, d) THEN 3 ELSE d.bits \div 8,
             rows |-> TLCEval([y \in 1 .. h |-> IF Coloured(f, d) THEN Expanded(stored(y), p) ELSE stored(y)])]
Compressed(f) == LET d == HeaderOf(f) IN d.magic /\ d.compress # 0

\* what others need to read the file as well
WellFormed(f) ==
    LET d == HeaderOf(f) IN
    /\ d.magic /\ d.dib = 40 /\ Describes(d, Len(f)) /\ d.compress = 0
    /\ U32(f, 2) = Len(f)
    /\ IF d.bits = 8 THEN PaletteOf(f, d) = GreyPalette ELSE d.off = FileHeader + 40

-----------------------------------------------------------------------------
(* raw files: the values of the rows, low byte first *)
RECURSIVE Joined(_)
Joined(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o Joined(Tail(rows))
RawBytes(rows, bytes) == LET v == Joined(rows) IN
    IF bytes = 1 THEN v ELSE TLCEval([k \in 1 .. 2 * Len(v) |-> IF k % 2 = 1 THEN v[(k + 1) \div 2] % 256 ELSE v[k \div 2] \div 256])
\* w, h, cc are numbers up to Huge; n is the length of the file
RawFits(n, w, h, cc, bytes) == n > 0 /\ w <= n /\ h <= n /\ w * cc * bytes <= n /\ n % (w * cc * bytes) = 0 /\ n \div (w * cc * bytes) = h
RawDecoded(f, w, h, cc, bytes) ==
    IF ~RawFits(Len(f), w, h, cc, bytes) THEN NoImage
    ELSE [w |-> w, h |-> h, cc |-> cc,
          rows |-> TLCEval([y \in 1 .. h |-> [k \in 1 .. w * cc |-> LET at == ((y - 1) * w * cc + k - 1) * bytes
                                                             IN IF bytes = 1 THEN f[at + 1] ELSE f[at + 1] + 256 * f[at + 2]]])]
Swapped(v) == (v % 256) * 256 + v \div 256

\* a region of an image
Region(im, x, y, w, h) == [w |-> w, h |-> h, cc |-> im.cc, rows |-> TLCEval([k \in 1 .. h |-> SubSeq(im.rows[y + k], x * im.cc + 1, (x + w) * im.cc)])]
RegionOk(im, x, y, w, h) == w > 0 /\ h > 0 /\ x < im.w /\ y < im.h /\ w <= im.w - x /\ h <= im.h - y
=============================================================================
