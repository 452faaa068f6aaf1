------------------------------ MODULE ImageOps ------------------------------
(* The sequential meaning of the image function API of penguinV.

   An image is a record [id, w, h, cc, al, rs, d]: width, height, number of
   colour channels, row alignment, row size and the buffer (h * rs elements,
   row padding included). A call is a record

     op         the operation
     v          the variant that ran: ref, cpu, sse, avx, avx512, pool, pv, ocl
     f          the form: 0 region, 1 whole images, 2 whole image returning a
                new one, 3 region returning a new image
     i, o       image slots of inputs and outputs
     ix, iy, ox, oy   region offsets, one per input / output
     w, h       region size;  w2, h2 the size of the output region
     p, vx, vy  parameters
     t          0 returned, 1 raised penguinVException, 2 or 3 anything else
     r          returned vector or value

   Valid(e, ins, outs) says whether the arguments are valid. For a valid call
   ResultOk says which buffers and values are allowed afterwards; a call which
   is not valid has to raise the library's exception and to change nothing.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Bitwise

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range0(n) == 0 .. n - 1
SumOf(n, F(_)) == FoldLeft(LAMBDA acc, k : acc + F(k), 0, [k \in 1 .. n |-> k])

EmptyImage == [id |-> -1, w |-> 0, h |-> 0, cc |-> 1, al |-> 1, rs |-> 0, d |-> <<>>]
IsEmpty(im) == im.d = <<>>

(* an image whose fields agree with each other *)
WellFormed(im) ==
    /\ im.al >= 1
    /\ IF im.w = 0 \/ im.h = 0 THEN TRUE
       ELSE /\ im.rs >= im.w * im.cc
            /\ im.rs % im.al = 0
            /\ im.rs < im.w * im.cc + im.al
            /\ Len(im.d) = im.rs * im.h

Px(im, x, y, c) == im.d[y * im.rs + x * im.cc + c + 1]

(* a region of an image, as seen by an operation *)
Reg(im, x, y) == [im |-> im, b |-> y * im.rs + x * im.cc + 1, x |-> x, y |-> y]
At(reg, x, y, c) == reg.im.d[reg.b + y * reg.im.rs + x * reg.im.cc + c]
AtI(reg, j, y) == reg.im.d[reg.b + y * reg.im.rs + j]

----------------------------------------------------------------------------
(* Classes of operations *)
TwoIn == {"AbsoluteDifference", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "Maximum", "Minimum", "Subtract"}
SameColour == TwoIn \cup {"Invert", "Copy", "Normalize", "LookupTable", "GammaCorrection", "Resize", "ConvertTo16Bit", "ConvertTo8Bit", "IsEqual"}
GrayOnly == {"Flip", "Threshold", "Threshold2", "Median", "Sobel", "Prewitt", "Transpose", "Shift", "Rotate", "Sum", "IsBinary",
             "BinaryDilate", "BinaryErode", "GetPixel", "SetPixel", "SetPixels"}
NoImageReturned == {"Split", "ReplaceChannel", "Fill", "SetPixel", "SetPixels", "BinaryDilate", "BinaryErode", "IsEqual", "Sum", "Accumulate",
                    "Histogram", "HistogramMask", "ProjectionProfile", "IsBinary", "GetPixel", "GetThreshold"}
PointOps == {"GetPixel", "SetPixel", "SetPixels", "GetThreshold"}

Whole(e) == IF e.op = "Copy" THEN e.f = 1 ELSE e.f \in {1, 2}
ReturnsImage(e) == e.f >= 2 /\ e.op \notin NoImageReturned

----------------------------------------------------------------------------
(* Validity of arguments *)
ImageOk(im) == ~IsEmpty(im) /\ im.cc \in {1, 3, 4}
RegionOk(im, x, y, w, h) == ImageOk(im) /\ w > 0 /\ h > 0 /\ x <= im.w /\ y <= im.h /\ w <= im.w - x /\ h <= im.h - y

AllImages(ins, outs) == ins \o outs
SameSize(ims) == \A k \in 1 .. Len(ims) : ims[k].w = ims[1].w /\ ims[k].h = ims[1].h

OutW(e) == IF e.op = "Resize" THEN e.w2 ELSE IF e.op = "Transpose" THEN e.h ELSE e.w
OutH(e) == IF e.op = "Resize" THEN e.h2 ELSE IF e.op = "Transpose" THEN e.w ELSE e.h

(* the size of the region, in input coordinates, and the size of the output region *)
RegionW(e, ims) == IF Whole(e) THEN ims[1].w ELSE e.w
RegionH(e, ims) == IF Whole(e) THEN ims[1].h ELSE e.h

GeometryOk(e, ins, outs) ==
    IF e.op \in PointOps THEN TRUE
    ELSE IF Whole(e) THEN
        LET ims == AllImages(ins, outs) IN
        /\ \A k \in 1 .. Len(ims) : ImageOk(ims[k])
        /\ CASE e.op \in {"ConvertTo16Bit", "ConvertTo8Bit"} -> Len(outs) = 0 \/ RegionOk(outs[1], 0, 0, ins[1].w, ins[1].h)
             [] e.op = "Transpose" -> Len(outs) = 0 \/ RegionOk(outs[1], 0, 0, ins[1].h, ins[1].w)
             [] e.op = "Resize" -> Len(outs) > 0 \/ (e.w2 > 0 /\ e.h2 > 0)
             [] OTHER -> SameSize(ims)
    ELSE
        /\ \A k \in 1 .. Len(ins) : RegionOk(ins[k], e.ix[k], e.iy[k], e.w, e.h)
        /\ \A k \in 1 .. Len(outs) : RegionOk(outs[k], e.ox[k], e.oy[k], OutW(e), OutH(e))
        /\ OutW(e) > 0 /\ OutH(e) > 0

ColourOk(e, ins, outs) ==
    LET ims == AllImages(ins, outs)
        allAre(seq, c) == \A k \in 1 .. Len(seq) : seq[k].cc = c
    IN CASE e.op = "Copy" /\ Whole(e) -> TRUE
         [] e.op \in SameColour -> \A k \in 1 .. Len(ims) : ims[k].cc = ims[1].cc
         [] e.op \in GrayOnly -> allAre(ims, 1)
         [] e.op \in {"ConvertToGrayScale", "ExtractChannel"} -> allAre(outs, 1)
         [] e.op = "ConvertToRgb" -> allAre(outs, 3)
         [] e.op = "RgbToBgr" -> allAre(ims, 3)
         [] e.op = "RgbToRgba" -> allAre(ins, 3) /\ allAre(outs, 4)
         [] e.op = "RgbaToRgb" -> allAre(ins, 4) /\ allAre(outs, 3)
         [] e.op \in {"Merge", "ReplaceChannel"} -> allAre(ins, 1) /\ allAre(outs, 3)
         [] e.op = "Split" -> allAre(ins, 3) /\ allAre(outs, 1)
         [] e.op = "HistogramMask" -> ins[2].cc = 1
         [] OTHER -> TRUE

(* the device functions support grey-scale images only in a few more places *)
DeviceColourOk(e, ins, outs) ==
    IF e.v = "ocl" /\ e.op \in {"Histogram", "GammaCorrection"} THEN ins[1].cc = 1
    ELSE IF e.v = "ocl" /\ e.op = "Fill" /\ ~Whole(e) THEN outs[1].cc = 1
    ELSE TRUE

InImage(im, x, y) == x < im.w /\ y < im.h

ParametersOk(e, ins, outs) ==
    CASE e.op = "Threshold2" -> e.p[1] <= e.p[2]
      [] e.op = "ExtractChannel" -> e.p[1] < ins[1].cc
      [] e.op = "ReplaceChannel" -> e.p[1] < 3
      [] e.op = "LookupTable" -> Len(e.p) = 256
      [] e.op = "GammaCorrection" -> e.p[1] >= 0 /\ (e.p[4] > 0 \/ e.p[3] = 0)
      [] e.op = "Median" -> e.p[1] >= 3 /\ e.p[1] % 2 = 1 /\ e.p[1] < RegionW(e, ins) /\ e.p[1] < RegionH(e, ins)
      [] e.op \in {"Sobel", "Prewitt"} -> RegionW(e, ins) >= 3 /\ RegionH(e, ins) >= 3
      [] e.op = "Accumulate" -> Len(e.p) = RegionW(e, ins) * RegionH(e, ins) * ins[1].cc
      [] e.op = "Shift" -> Abs(e.p[1]) <= 4 * (RegionW(e, ins) - 1) /\ Abs(e.p[2]) <= 4 * (RegionH(e, ins) - 1)
      [] e.op = "GetThreshold" -> Len(e.p) = 256
      [] e.op = "GetPixel" -> ~IsEmpty(ins[1]) /\ InImage(ins[1], e.ix[1], e.iy[1])
      [] e.op = "SetPixel" -> ~IsEmpty(outs[1]) /\ InImage(outs[1], e.ox[1], e.oy[1])
      [] e.op = "SetPixels" -> /\ ~IsEmpty(outs[1])
                               /\ Len(e.vx) > 0 /\ Len(e.vx) = Len(e.vy)
                               /\ \A k \in 1 .. Len(e.vx) : InImage(outs[1], e.vx[k], e.vy[k])
      [] OTHER -> TRUE

Valid(e, ins, outs) ==
    /\ GeometryOk(e, ins, outs)
    /\ ColourOk(e, ins, outs)
    /\ DeviceColourOk(e, ins, outs)
    /\ ParametersOk(e, ins, outs)

(* Filling a whole image which is empty or has an unusual colour count may be a call without effect or an error.
   penguinV::Copy of a whole image may replace an output image of any shape by a copy, or refuse it.           *)
EitherWay(e, ins, outs) ==
    /\ Whole(e)
    /\ \/ e.op = "Fill" /\ (IsEmpty(outs[1]) \/ outs[1].cc \notin {1, 3, 4})
       \/ e.op = "Copy" /\ e.v \in {"pv", "disp"} /\ ImageOk(ins[1])

----------------------------------------------------------------------------
(* Values of output pixels. Each operator takes the call, the input regions R
   (sequence), the number of the output and decides whether v may be the value
   of channel c of pixel (x, y) of the output region.                          *)
Threshold1(a, t) == IF a < t THEN 0 ELSE 255
Inside(a, lo, hi) == IF a < lo \/ a > hi THEN 0 ELSE 255

(* v is a rounding of num / den to the nearest integer (both neighbours allowed for a tie), capped at 255 *)
Rounds(v, num, den) ==
    \/ (2 * v - 1) * den <= 2 * num /\ 2 * num <= (2 * v + 1) * den
    \/ v = 255 /\ 2 * num >= 509 * den

GammaOk(p, a, v) ==
    LET num == p[1]  den == p[2] IN
    CASE p[3] = 0 -> Rounds(v, num * 255, den)
      [] p[3] = 1 -> (* square root *)
            LET s == 4 * num * num * 255 * a IN
            \/ (v = 0 \/ (2 * v - 1) * (2 * v - 1) * den * den <= s) /\ s <= (2 * v + 1) * (2 * v + 1) * den * den
            \/ v = 255 /\ s >= 509 * 509 * den * den
      [] p[3] = 2 -> Rounds(v, num * a, den)
      [] p[3] = 3 -> Rounds(v, num * a * a, den * 255)
      [] OTHER -> Rounds(v, num * a * a * a, den * 65025)

(* square of the gradient magnitude at the centre of a 3 x 3 neighbourhood; k is the weight of the middle *)
Gradient2(reg, x, y, k) ==
    LET P(dx, dy) == At(reg, x + dx, y + dy, 0)
        gx == P(-1, -1) + k * P(-1, 0) + P(-1, 1) - P(1, -1) - k * P(1, 0) - P(1, 1)
        gy == P(-1, -1) + k * P(0, -1) + P(1, -1) - P(-1, 1) - k * P(0, 1) - P(1, 1)
    IN gx * gx + gy * gy

(* v is the rounded value of Sqrt(s2) / Sqrt(q), up to the precision of the single precision arithmetic used *)
RootOk(v, s2, q) ==
    LET slack == 16 + s2 \div 65536 IN
    /\ v = 0 \/ q * (2 * v - 1) * (2 * v - 1) <= 4 * s2 + slack
    /\ v = 255 \/ 4 * s2 <= q * (2 * v + 1) * (2 * v + 1) + slack

EdgeFilterOk(e, R, w, h, x, y, v, k, q) ==
    LET reg == R[1]
        im == reg.im
        left == reg.x > 0
        top == reg.y > 0
        right == reg.x + w < im.w
        bottom == reg.y + h < im.h
        noX == (x = 0 /\ ~left) \/ (x = w - 1 /\ ~right)
        noY == (y = 0 /\ ~top) \/ (y = h - 1 /\ ~bottom)
        (* a region which ends one pixel before the last column (row) may be treated as one ending at the border *)
        mayX == x = w - 1 /\ reg.x + w + 1 = im.w
        mayY == y = h - 1 /\ reg.y + h + 1 = im.h
    IN IF noX \/ noY THEN v = 0
       ELSE ((mayX \/ mayY) /\ v = 0) \/ RootOk(v, Gradient2(reg, x, y, k), q)

MedianOk(e, R, w, h, x, y, v) ==
    LET k == e.p[1]
        r == k \div 2
    IN IF x < r \/ y < r \/ x >= w - r \/ y >= h - r THEN v = At(R[1], x, y, 0)
       ELSE LET Below == SumOf(k * k, LAMBDA i : IF At(R[1], x - r + ((i - 1) % k), y - r + ((i - 1) \div k), 0) < v THEN 1 ELSE 0)
                UpTo == SumOf(k * k, LAMBDA i : IF At(R[1], x - r + ((i - 1) % k), y - r + ((i - 1) \div k), 0) <= v THEN 1 ELSE 0)
                m == (k * k) \div 2
            IN Below <= m /\ m < UpTo

(* shifts are given in quarters of a pixel *)
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
ShiftOk(e, R, x, y, v) ==
    LET im == R[1].im
        qx == 4 * (R[1].x + x) - e.p[1]
        qy == 4 * (R[1].y + y) - e.p[2]
        x0 == FloorDiv(qx, 4)
        y0 == FloorDiv(qy, 4)
        fx == qx - 4 * x0
        fy == qy - 4 * y0
        x1 == IF fx = 0 THEN x0 ELSE x0 + 1
        y1 == IF fy = 0 THEN y0 ELSE y0 + 1
    IN IF x0 < 0 \/ y0 < 0 \/ x1 >= im.w \/ y1 >= im.h THEN v = 0
       ELSE LET s == (4 - fx) * (4 - fy) * Px(im, x0, y0, 0) + fx * (4 - fy) * Px(im, x1, y0, 0)
                     + (4 - fx) * fy * Px(im, x0, y1, 0) + fx * fy * Px(im, x1, y1, 0)
            IN v = (s + 8) \div 16

(* rotation: p = angle, centre in the input, centre in the output (in halves of a pixel); the angle is a number of quarter
   turns, or 10 + k, one whose cosine and sine are c / n and s / n                                                          *)
Angle(k) ==
    IF k < 10 THEN [n |-> 1, c |-> CASE k = 0 -> 1 [] k \in {2, -2} -> -1 [] OTHER -> 0, s |-> CASE k = 1 -> 1 [] k = -1 -> -1 [] OTHER -> 0]
    ELSE LET big == (k - 10) \div 8
             a == IF big = 0 THEN 3 ELSE 5
             b == IF big = 0 THEN 4 ELSE 12
             swap == (k - 10) % 2 = 1
         IN [n |-> IF big = 0 THEN 5 ELSE 13, c |-> (IF swap THEN b ELSE a) * (IF ((k - 10) \div 2) % 2 = 1 THEN -1 ELSE 1),
             s |-> (IF swap THEN a ELSE b) * (IF ((k - 10) \div 4) % 2 = 1 THEN -1 ELSE 1)]
RotateOk(e, R, w, h, x, y, v) ==
    LET g == Angle(e.p[1])
        D == 2 * g.n
        \* the place in the input, times D
        px == g.c * (2 * x - e.p[4]) + g.s * (2 * y - e.p[5]) + g.n * e.p[2]
        py == -g.s * (2 * x - e.p[4]) + g.c * (2 * y - e.p[5]) + g.n * e.p[3]
        lx == D * R[1].x
        ly == D * R[1].y
        hx == D * (R[1].x + w - 1)
        hy == D * (R[1].y + h - 1)
        x0 == FloorDiv(px, D)
        y0 == FloorDiv(py, D)
        fx == px - D * x0
        fy == py - D * y0
        At4(i, j, k) == IF k = 0 THEN 0 ELSE k * Px(R[1].im, i, j, 0)
        sum == At4(x0, y0, (D - fx) * (D - fy)) + At4(x0 + 1, y0, fx * (D - fy)) + At4(x0, y0 + 1, (D - fx) * fy) + At4(x0 + 1, y0 + 1, fx * fy)
        right == 2 * Abs(v * D * D - sum) <= D * D
    IN IF px < lx \/ py < ly \/ px > hx \/ py > hy THEN v = 0
       ELSE IF px = hx \/ py = hy \/ (e.p[1] # 0 /\ (px = lx \/ py = ly)) THEN v = 0 \/ right
       ELSE right

(* dilation (value 255) and erosion (value 0) of a binary region, first along rows and then along columns *)
MorphOk(e, R, w, h, x, y, v, value) ==
    LET rx == Min2(e.p[1], w \div 2)
        ry == Min2(e.p[2], h \div 2)
        hit == \E i \in Max2(0, x - rx) .. Min2(w - 1, x + rx), j \in Max2(0, y - ry) .. Min2(h - 1, y + ry) : At(R[1], i, j, 0) = value
    IN IF hit THEN v = value ELSE v = At(R[1], x, y, 0)

Table(e, a) == e.p[a + 1]

(* smallest and largest value in a region *)
RegionMin(reg, n, h) == Min({AtI(reg, j, y) : j \in Range0(n), y \in Range0(h)})
RegionMax(reg, n, h) == Max({AtI(reg, j, y) : j \in Range0(n), y \in Range0(h)})

(* what the red, green or blue channel of a converted pixel may be *)
GrayOk(reg, x, y, v) ==
    IF reg.im.cc = 1 THEN v = At(reg, x, y, 0)
    ELSE v = (At(reg, x, y, 0) + At(reg, x, y, 1) + At(reg, x, y, 2)) \div 3

(* All pixels of the output region. ow, oh: its size; cc: its colour count. V(j, y) is the value of element j of
   row y of the output region.                                                                                 *)
ValuesOk(e, R, k, w, h, ow, oh, cc, V(_, _)) ==
    LET n == ow * cc
        All(T(_, _)) == \A y \in Range0(oh) : \A j \in Range0(n) : T(j, y)
        Map1(F(_)) == \A y \in Range0(oh) : \A j \in Range0(n) : V(j, y) = F(AtI(R[1], j, y))
        Map2(F(_, _)) == \A y \in Range0(oh) : \A j \in Range0(n) : V(j, y) = F(AtI(R[1], j, y), AtI(R[2], j, y))
    IN CASE e.op = "AbsoluteDifference" -> Map2(LAMBDA a, b : Abs(a - b))
         [] e.op = "BitwiseAnd" -> Map2(LAMBDA a, b : a & b)
         [] e.op = "BitwiseOr" -> Map2(LAMBDA a, b : a | b)
         [] e.op = "BitwiseXor" -> Map2(LAMBDA a, b : a ^^ b)
         [] e.op = "Maximum" -> Map2(Max2)
         [] e.op = "Minimum" -> Map2(Min2)
         [] e.op = "Subtract" -> Map2(LAMBDA a, b : Max2(a - b, 0))
         [] e.op = "Invert" -> Map1(LAMBDA a : 255 - a)
         [] e.op = "Copy" -> Map1(LAMBDA a : a)
         [] e.op = "Threshold" -> Map1(LAMBDA a : Threshold1(a, e.p[1]))
         [] e.op = "Threshold2" -> Map1(LAMBDA a : Inside(a, e.p[1], e.p[2]))
         [] e.op = "LookupTable" -> Map1(LAMBDA a : Table(e, a))
         [] e.op = "GammaCorrection" -> All(LAMBDA j, y : GammaOk(e.p, AtI(R[1], j, y), V(j, y)))
         [] e.op = "Normalize" ->
                LET lo == RegionMin(R[1], n, oh)
                    hi == RegionMax(R[1], n, oh)
                IN IF lo = hi THEN Map1(LAMBDA a : a)
                   ELSE All(LAMBDA j, y : Rounds(V(j, y), (AtI(R[1], j, y) - lo) * 255, hi - lo))
         [] e.op = "ConvertTo16Bit" -> Map1(LAMBDA a : a * 256)
         [] e.op = "ConvertTo8Bit" -> Map1(LAMBDA a : a \div 256)
         [] e.op = "ConvertToGrayScale" -> All(LAMBDA x, y : GrayOk(R[1], x, y, V(x, y)))
         [] e.op = "ConvertToRgb" -> All(LAMBDA j, y : V(j, y) = At(R[1], j \div 3, y, IF R[1].im.cc = 1 THEN 0 ELSE j % 3))
         [] e.op = "RgbToBgr" -> All(LAMBDA j, y : V(j, y) = At(R[1], j \div 3, y, 2 - (j % 3)))
         [] e.op = "RgbToRgba" -> All(LAMBDA j, y : V(j, y) = IF j % 4 = 3 THEN 255 ELSE At(R[1], j \div 4, y, j % 4))
         [] e.op = "RgbaToRgb" -> All(LAMBDA j, y : V(j, y) = At(R[1], j \div 3, y, j % 3))
         [] e.op = "ExtractChannel" -> All(LAMBDA x, y : V(x, y) = At(R[1], x, y, e.p[1]))
         [] e.op = "Merge" -> All(LAMBDA j, y : V(j, y) = At(R[(j % 3) + 1], j \div 3, y, 0))
         [] e.op = "Split" -> All(LAMBDA x, y : V(x, y) = At(R[1], x, y, k - 1))
         [] e.op = "Flip" -> All(LAMBDA x, y : V(x, y) = At(R[1], IF e.p[1] = 1 THEN w - 1 - x ELSE x, IF e.p[2] = 1 THEN h - 1 - y ELSE y, 0))
         [] e.op = "Transpose" -> All(LAMBDA x, y : V(x, y) = At(R[1], y, x, 0))
         [] e.op = "Resize" -> All(LAMBDA j, y : V(j, y) = At(R[1], ((j \div cc) * w) \div ow, (y * h) \div oh, j % cc))
         [] e.op = "Median" -> All(LAMBDA x, y : MedianOk(e, R, w, h, x, y, V(x, y)))
         [] e.op = "Sobel" -> All(LAMBDA x, y : EdgeFilterOk(e, R, w, h, x, y, V(x, y), 2, 32))
         [] e.op = "Prewitt" -> All(LAMBDA x, y : EdgeFilterOk(e, R, w, h, x, y, V(x, y), 1, 18))
         [] e.op = "Shift" -> All(LAMBDA x, y : ShiftOk(e, R, x, y, V(x, y)))
         [] e.op = "Rotate" -> All(LAMBDA x, y : RotateOk(e, R, w, h, x, y, V(x, y)))
         [] e.op = "Fill" -> All(LAMBDA j, y : V(j, y) = e.p[1])
         [] OTHER -> FALSE

(* operations which change their only image in place *)
InPlaceValuesOk(e, R, w, h, cc, V(_, _)) ==
    CASE e.op = "Fill" -> \A y \in Range0(h) : \A j \in Range0(w * cc) : V(j, y) = e.p[1]
      [] e.op \in {"BinaryDilate", "BinaryErode"} ->   (* specified for binary regions only *)
            (\A y \in Range0(h) : \A x \in Range0(w) : At(R[1], x, y, 0) \in {0, 255}) =>
                LET value == IF e.op = "BinaryDilate" THEN 255 ELSE 0
                IN \A y \in Range0(h) : \A x \in Range0(w) : MorphOk(e, R, w, h, x, y, V(x, y), value)

----------------------------------------------------------------------------
(* Returned vectors and values *)
RECURSIVE GCD2(_, _)
GCD2(a, b) == IF b = 0 THEN a ELSE GCD2(b, a % b)

HistogramOk(e, R, w, h, cc, masked) ==
    LET r == e.r
        N == w * h
        Counted(i) == ~masked \/ At(R[2], i % w, i \div w, 0) > 0
        Slot(k) == LET i == (k - 1) \div cc  c == (k - 1) % cc IN At(R[1], i % w, i \div w, c) * cc + c + 1
    IN r = FoldLeft(LAMBDA acc, k : IF Counted((k - 1) \div cc) THEN [acc EXCEPT ![Slot(k)] = @ + 1] ELSE acc,
                    [v \in 1 .. 256 * cc |-> 0], [k \in 1 .. N * cc |-> k])

ProjectionOk(e, R, w, h, cc) ==
    IF e.p[1] = 1
      THEN /\ Len(e.r) = w * cc
           /\ \A j \in Range0(w * cc) : e.r[j + 1] = SumOf(h, LAMBDA y : AtI(R[1], j, y - 1))
      ELSE /\ Len(e.r) = h
           /\ \A y \in Range0(h) : e.r[y + 1] = SumOf(w * cc, LAMBDA j : AtI(R[1], j - 1, y))

AccumulateOk(e, R, w, h, cc) ==
    /\ Len(e.r) = w * h * cc
    /\ \A y \in Range0(h) : \A j \in Range0(w * cc) : e.r[y * w * cc + j + 1] = e.p[y * w * cc + j + 1] + AtI(R[1], j, y)

(* the between-class variance of the threshold t is Num(t)^2 / Den(t), up to a constant factor *)
OtsuOk(e) ==
    LET hist == e.p
        g == FoldLeft(LAMBDA acc, x : GCD2(acc, x), 0, hist)
        H(i) == hist[i] \div g
        N == SumOf(256, H)
        S == SumOf(256, LAMBDA i : (i - 1) * H(i))
        n1 == [t \in 1 .. 256 |-> SumOf(t, H)]
        s1 == [t \in 1 .. 256 |-> SumOf(t, LAMBDA i : (i - 1) * H(i))]
        occupied == {t \in 1 .. 256 : hist[t] > 0}
        candidates == {t \in occupied : n1[t] < N}
        a(t) == (s1[t] * N - S * n1[t]) * (s1[t] * N - S * n1[t])
        b(t) == n1[t] * (N - n1[t])
        Less(t, u) == LET qt == a(t) \div b(t)  qu == a(u) \div b(u) IN
                      qt < qu \/ (qt = qu /\ (a(t) % b(t)) * b(u) < (a(u) % b(u)) * b(t))
    IN /\ Len(e.r) = 1
       /\ IF g = 0 \/ candidates = {} THEN e.r[1] = 0
          ELSE LET t == e.r[1] + 1
               IN /\ t <= 256
                  /\ n1[t] > 0 /\ n1[t] < N
                  /\ \A u \in candidates : ~Less(Max({o \in occupied : o <= t}), u)

ReturnedOk(e, R, w, h) ==
    LET cc == R[1].im.cc IN
    CASE e.op = "Histogram" -> HistogramOk(e, R, w, h, cc, FALSE)
      [] e.op = "HistogramMask" -> HistogramOk(e, R, w, h, cc, TRUE)
      [] e.op = "ProjectionProfile" -> ProjectionOk(e, R, w, h, cc)
      [] e.op = "Accumulate" -> AccumulateOk(e, R, w, h, cc)
      [] e.op = "Sum" -> e.r = <<SumOf(h, LAMBDA y : SumOf(w, LAMBDA x : At(R[1], x - 1, y - 1, 0)))>>
      [] e.op = "IsEqual" -> e.r = <<IF \A y \in Range0(h) : \A j \in Range0(w * cc) : AtI(R[1], j, y) = AtI(R[2], j, y) THEN 1 ELSE 0>>
      [] e.op = "IsBinary" -> e.r = <<IF Cardinality({At(R[1], x, y, 0) : x \in Range0(w), y \in Range0(h)}) < 3 THEN 1 ELSE 0>>
      [] e.op = "GetPixel" -> e.r = <<Px(R[1].im, e.ix[1], e.iy[1], 0)>>
      [] OTHER -> TRUE

----------------------------------------------------------------------------
(* The output colour count of forms which return a new image *)
ReturnedCc(e, ins) ==
    CASE e.op \in {"ConvertToGrayScale", "ExtractChannel"} -> 1
      [] e.op \in {"ConvertToRgb", "RgbToBgr", "RgbaToRgb", "Merge"} -> 3
      [] e.op = "RgbToRgba" -> 4
      [] OTHER -> ins[1].cc
ReturnedW(e, w, h) == IF e.op = "Resize" THEN e.w2 ELSE IF e.op = "Transpose" THEN h ELSE w
ReturnedH(e, w, h) == IF e.op = "Resize" THEN e.h2 ELSE IF e.op = "Transpose" THEN w ELSE h

SameShape(a, b) == a.w = b.w /\ a.h = b.h /\ a.cc = b.cc /\ a.al = b.al /\ a.rs = b.rs /\ Len(a.d) = Len(b.d)

(* elements of image b outside of the region are those of a *)
SameOutside(a, b, x, y, w, h) ==
    IF w = a.w /\ h = a.h /\ a.rs = a.w * a.cc THEN TRUE
    ELSE \A yy \in Range0(a.h) :
           LET row == yy * a.rs IN
           IF yy < y \/ yy >= y + h THEN \A j \in 1 .. a.rs : b.d[row + j] = a.d[row + j]
           ELSE /\ \A j \in 1 .. x * a.cc : b.d[row + j] = a.d[row + j]
                /\ \A j \in (x + w) * a.cc + 1 .. a.rs : b.d[row + j] = a.d[row + j]

(* Judges a call which returned. ins, outs: the images before the call; after: the outputs after it. The result is
   the set of the ways in which the call went wrong, as strings; empty when all is well.                         *)
Defects(e, ins, outs, after) ==
    LET w == RegionW(e, ins)
        h == RegionH(e, ins)
        inX(k) == IF Whole(e) THEN 0 ELSE e.ix[k]
        inY(k) == IF Whole(e) THEN 0 ELSE e.iy[k]
        outX(k) == IF Whole(e) THEN 0 ELSE e.ox[k]
        outY(k) == IF Whole(e) THEN 0 ELSE e.oy[k]
        R == [k \in 1 .. Len(ins) |-> Reg(ins[k], inX(k), inY(k))]
        ow(k) == IF Whole(e) /\ e.op = "Resize" THEN outs[k].w ELSE ReturnedW(e, w, h)
        oh(k) == IF Whole(e) /\ e.op = "Resize" THEN outs[k].h ELSE ReturnedH(e, w, h)
        Val(k, j, y) == LET im == after[k] IN im.d[(outY(k) + y) * im.rs + outX(k) * im.cc + j + 1]
    IN CASE e.op = "GetThreshold" -> IF OtsuOk(e) THEN {} ELSE {"value"}
         [] e.op = "GetPixel" -> IF e.r = <<Px(ins[1], e.ix[1], e.iy[1], 0)>> THEN {} ELSE {"value"}
         [] e.op \in {"SetPixel", "SetPixels"} ->
                LET pts == IF e.op = "SetPixel" THEN {<<e.ox[1], e.oy[1]>>} ELSE {<<e.vx[k], e.vy[k]>> : k \in 1 .. Len(e.vx)}
                    a == outs[1]
                    b == after[1]
                    pos == {p[2] * a.rs + p[1] + 1 : p \in pts}
                IN IF ~SameShape(a, b) THEN {"shape"}
                   ELSE (IF \A i \in pos : b.d[i] = e.p[1] THEN {} ELSE {"value"})
                        \cup (IF \A i \in DOMAIN a.d : i \in pos \/ a.d[i] = b.d[i] THEN {} ELSE {"outside"})
         [] e.op \in {"Fill", "BinaryDilate", "BinaryErode"} ->
                LET a == outs[1]
                    b == after[1]
                    x0 == IF Whole(e) THEN 0 ELSE e.ox[1]
                    y0 == IF Whole(e) THEN 0 ELSE e.oy[1]
                    ww == IF Whole(e) THEN a.w ELSE e.w
                    hh == IF Whole(e) THEN a.h ELSE e.h
                    Old == <<Reg(a, x0, y0)>>
                IN IF IsEmpty(a) THEN IF IsEmpty(b) THEN {} ELSE {"shape"}
                   ELSE IF ~SameShape(a, b) THEN {"shape"}
                   ELSE (IF InPlaceValuesOk(e, Old, ww, hh, a.cc, LAMBDA j, y : b.d[(y0 + y) * b.rs + x0 * b.cc + j + 1]) THEN {} ELSE {"value"})
                        \cup (IF (e.op = "Fill" /\ Whole(e)) \/ SameOutside(a, b, x0, y0, ww, hh) THEN {} ELSE {"outside"})
         [] e.op = "ReplaceChannel" ->
                LET a == outs[1]
                    b == after[1]
                    ch(j) == j % 3 = e.p[1]
                IN IF ~SameShape(a, b) THEN {"shape"}
                   ELSE (IF \A y \in Range0(h) : \A j \in Range0(w * 3) :
                               ch(j) => Val(1, j, y) = At(R[1], j \div 3, y, 0) THEN {} ELSE {"value"})
                        \cup (IF SameOutside(a, b, outX(1), outY(1), w, h)
                                 /\ \A y \in Range0(h) : \A j \in Range0(w * 3) :
                                      ~ch(j) => Val(1, j, y) = a.d[(outY(1) + y) * a.rs + outX(1) * 3 + j + 1]
                              THEN {} ELSE {"outside"})
         [] Len(e.o) = 0 -> IF ReturnedOk(e, R, w, h) THEN {} ELSE {"value"}
         [] ReturnsImage(e) ->
                LET b == after[1]
                    cc == ReturnedCc(e, ins)
                    rw == ReturnedW(e, w, h)
                    rh == ReturnedH(e, w, h)
                IN IF b.w # rw \/ b.h # rh \/ b.cc # cc \/ ~WellFormed(b) THEN {"shape"}
                   ELSE IF ValuesOk(e, R, 1, w, h, rw, rh, cc, LAMBDA j, y : b.d[y * b.rs + j + 1]) THEN {} ELSE {"value"}
         [] e.op = "Copy" /\ Whole(e) ->
                LET b == after[1]
                IN IF b.w # w \/ b.h # h \/ b.cc # ins[1].cc \/ ~WellFormed(b) THEN {"shape"}
                   ELSE IF ValuesOk(e, R, 1, w, h, w, h, b.cc, LAMBDA j, y : b.d[y * b.rs + j + 1]) THEN {} ELSE {"value"}
         [] OTHER ->
                UNION {LET a == outs[k]
                           b == after[k]
                       IN IF ~SameShape(a, b) THEN {"shape"}
                          ELSE (IF ValuesOk(e, R, k, w, h, ow(k), oh(k), a.cc, LAMBDA j, y : Val(k, j, y)) THEN {} ELSE {"value"})
                               \cup (IF SameOutside(a, b, outX(k), outY(k), ow(k), oh(k)) THEN {} ELSE {"outside"})
                       : k \in 1 .. Len(outs)}
=============================================================================
