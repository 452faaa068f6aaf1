----------------------------- MODULE BlobModel ------------------------------
(* The flood fill of the library on a map with a frame of empty cells, step by step, for every picture of W x H pixels;
   what it finds is what Blob defines. Fault is a defect to be found, "none" otherwise.                                 *)
EXTENDS Blob, TLC
CONSTANTS W, H, Fault

VARIABLES picture, map, scan, queue, next, edge, contour, phase, found
vars == <<picture, map, scan, queue, next, edge, contour, phase, found>>

Pixels == (0 .. W - 1) \X (0 .. H - 1)
Cells == (W + 2) * (H + 2)
\* cells are numbered row by row; without a frame the last cell of a row is followed by the first of the next
Stride == IF Fault = "NoFrame" THEN W ELSE W + 2
Cell(p) == (p[2] + 1) * Stride + p[1] + 1
PixelOf(c) == IF Fault = "NoFrame" THEN << (c - 1) % W, ((c - 1) \div W) - 1 >> ELSE << (c % Stride) - 1, (c \div Stride) - 1 >>
Four(c) == <<c - Stride, c - 1, c + 1, c + Stride>>
Eight(c) == <<c - Stride - 1, c - Stride, c - Stride + 1, c - 1, c + 1, c + Stride - 1, c + Stride, c + Stride + 1>>
Neighbours(c) == IF Fault = "FourNeighbours" THEN Four(c) ELSE Eight(c)

Init ==
    /\ picture \in SUBSET Pixels
    /\ map = [c \in 0 .. Cells - 1 |-> IF \E p \in picture : Cell(p) = c THEN "new" ELSE "empty"]
    /\ scan = 0 /\ queue = <<>> /\ next = 1 /\ edge = <<>> /\ contour = <<>> /\ phase = "scan" /\ found = <<>>

Scan ==
    /\ phase = "scan" /\ scan < Cells
    /\ IF map[scan] = "new"
       THEN /\ queue' = <<scan>> /\ next' = 1 /\ edge' = <<>> /\ contour' = <<>> /\ phase' = "fill"
            /\ map' = [map EXCEPT ![scan] = "seen"]
            /\ UNCHANGED scan
       ELSE scan' = scan + 1 /\ UNCHANGED <<map, queue, next, edge, contour, phase>>
    /\ UNCHANGED <<picture, found>>

Fill ==
    /\ phase = "fill" /\ next <= Len(queue)
    /\ LET c == queue[next]
           fresh == SelectSeq(Neighbours(c), LAMBDA n : map[n] = "new")
           full == \A n \in ToSet(IF Fault = "EdgeOfFour" THEN Four(c) ELSE Eight(c)) : map[n] # "empty"
           seen == [n \in 0 .. Cells - 1 |-> IF n \in (IF Fault = "MarksLate" THEN {x \in {c} : map[x] = "new"} ELSE ToSet(fresh)) THEN "seen" ELSE map[n]]
       IN /\ queue' = queue \o fresh
          /\ map' = IF full THEN seen ELSE [seen EXCEPT ![c] = "edge"]
          /\ edge' = IF full THEN edge ELSE Append(edge, c)
    /\ next' = next + 1
    /\ UNCHANGED <<picture, scan, contour, phase, found>>

StartContour ==
    /\ phase = "fill" /\ next > Len(queue)
    /\ phase' = "contour" /\ next' = 1
    /\ contour' = <<scan>>
    /\ map' = IF Fault = "ForgetsStart" THEN map ELSE [map EXCEPT ![scan] = "contour"]
    /\ UNCHANGED <<picture, scan, queue, edge, found>>

Contour ==
    /\ phase = "contour" /\ next <= Len(contour)
    /\ LET c == contour[next]
           fresh == SelectSeq(IF Fault = "ContourFour" THEN Four(c) ELSE Eight(c), LAMBDA n : map[n] = "edge")
       IN /\ contour' = contour \o fresh
          /\ map' = [n \in 0 .. Cells - 1 |-> IF n \in ToSet(fresh) THEN "contour" ELSE map[n]]
    /\ next' = next + 1
    /\ UNCHANGED <<picture, scan, queue, edge, phase, found>>

Take ==
    /\ phase = "contour" /\ next > Len(contour)
    /\ found' = Append(found, [points |-> queue, edge |-> edge, contour |-> contour])
    /\ phase' = "scan"
    /\ UNCHANGED <<picture, map, scan, queue, next, edge, contour>>

Next == Scan \/ Fill \/ StartContour \/ Contour \/ Take
Spec == Init /\ [][Next]_vars

AsSet(s) == { PixelOf(s[i]) : i \in 1 .. Len(s) }
Same(s, set) == Len(s) = Cardinality(set) /\ AsSet(s) = set
\* no pixel is taken twice, and nothing outside of the picture
Sound == \A i \in 1 .. Len(queue) : PixelOf(queue[i]) \in picture /\ \A j \in 1 .. i - 1 : queue[i] # queue[j]
\* at the end the blobs are the components, each with its edge and its contour
Exact == scan = Cells =>
    /\ { AsSet(b.points) : b \in ToSet(found) } = Components(picture)
    /\ \A i \in 1 .. Len(found) : LET c == AsSet(found[i].points) IN Same(found[i].points, c) /\ Same(found[i].edge, EdgeOf(c)) /\ Same(found[i].contour, ContourOf(c))
    /\ \A i, j \in 1 .. Len(found) : i < j => AsSet(found[i].points) \cap AsSet(found[j].points) = {}
\* laws of the definitions themselves
Transposed(s) == { <<p[2], p[1]>> : p \in s }
Mirrored(s) == { <<W - 1 - p[1], p[2]>> : p \in s }
Laws == scan = Cells =>
    /\ Components(Transposed(picture)) = { Transposed(c) : c \in Components(picture) }
    /\ \A c \in Components(picture) :
         /\ EdgeOf(c) # {} /\ ContourOf(c) \subseteq EdgeOf(c)
         /\ ContourOf(Mirrored(c)) = Mirrored(ContourOf(c))
         /\ Length2(c) = Max({ Dist2(p, q) : p \in c, q \in c })
         /\ Xs(ContourOf(c)) = Xs(c) /\ Ys(ContourOf(c)) = Ys(c)
=============================================================================
