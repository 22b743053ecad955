-------------------------------- MODULE Morph --------------------------------
(***************************************************************************)
(* Functions that move samples between grids: padding, binning, repeating, *)
(* stitching of 360 degree data, extraction of a region of interest.       *)
(* Each is an exact map from output index to input indices.                *)
(***************************************************************************)
EXTENDS Arrays

SetAx(x, ax, i) == [x EXCEPT ![ax + 1] = i]
ShapeWith(sh, ax, n) == [sh EXCEPT ![ax + 1] = n]

(* default pad: the smallest k with n + 2k >= sqrt(2) n *)
DefaultPad(n) == CHOOSE k \in 0..n : /\ (n + 2 * k) * (n + 2 * k) >= 2 * n * n
                                     /\ (k = 0 \/ (n + 2 * (k - 1)) * (n + 2 * (k - 1)) < 2 * n * n)
Pad(a, ax, k, mode, c) ==
    LET n == a.sh[ax + 1] IN
    MkArr(ShapeWith(a.sh, ax, n + 2 * k),
          LAMBDA x : LET i == x[ax + 1] - k IN
                     IF i >= 0 /\ i < n THEN AtI(a, SetAx(x, ax, i))
                     ELSE IF mode = "edge" THEN AtI(a, SetAx(x, ax, Nearest(i, n)))
                     ELSE c)

Pow2(l) == 2 ^ l
(* binning by 2^level (times 2^level, so that it is an integer); what does  *)
(* not fill a bin at the end is left out                                    *)
DownX(a, ax, l) ==
    LET b == Pow2(l) IN
    MkArr(ShapeWith(a.sh, ax, a.sh[ax + 1] \div b),
          LAMBDA x : SumSeq([p \in 1..b |-> AtI(a, SetAx(x, ax, x[ax + 1] * b + p - 1))]))
Up(a, ax, l) ==
    MkArr(ShapeWith(a.sh, ax, a.sh[ax + 1] * Pow2(l)),
          LAMBDA x : AtI(a, SetAx(x, ax, x[ax + 1] \div Pow2(l))))

(* 360 -> 180 degrees, times Max(overlap - 1, 2 if overlap = 1)              *)
StitchScale(ov) == IF ov = 0 THEN 1 ELSE IF ov = 1 THEN 2 ELSE ov - 1
StitchX(a, ov, rot) ==
    LET h == a.sh[1] \div 2
        dz == a.sh[3]
        S == StitchScale(ov)
        w(i) == IF ov = 1 THEN 1 ELSE i            \* weight of the image going in
        A(x, k) == At(a, x[1], x[2], k)
        B(x, k) == At(a, x[1] + h, x[2], k)        \* opposite half, seen mirrored
    IN  MkArr(<<h, a.sh[2], 2 * dz - ov>>, LAMBDA x :
          LET c == x[3] IN
          IF rot = "left"
          THEN IF c < dz - ov THEN S * B(x, dz - 1 - c)
               ELSE IF c >= dz THEN S * A(x, c - dz + ov)
               ELSE LET i == c - (dz - ov) IN
                    w(i) * A(x, i) + (IF ov = 1 THEN 1 ELSE ov - 1 - i) * B(x, ov - 1 - i)
          ELSE IF c < dz - ov THEN S * A(x, c)
               ELSE IF c >= dz THEN S * B(x, 2 * dz - ov - 1 - c)
               ELSE LET i == c - (dz - ov) IN
                    (IF ov = 1 THEN 1 ELSE ov - 1 - i) * A(x, dz - ov + i) + w(i) * B(x, dz - 1 - i))

(* Region of interest of diameter d at (x, y) pixels from the axis.  Row m is at *)
(* angle m*pi/dx; the window starts at center - d/2 + y*cos + x*sin.  Lengths    *)
(* are scaled by 2^16; only angles 0, 45, 90, 135 degrees are used.              *)
One == 65536
Cos45 == 46341
CosT(m, dx) == LET q == (m * 4) \div dx IN CASE q = 0 -> One [] q = 1 -> Cos45 [] q = 2 -> 0 [] q = 3 -> -Cos45
SinT(m, dx) == LET q == (m * 4) \div dx IN CASE q = 0 -> 0 [] q = 1 -> Cos45 [] q = 2 -> One [] q = 3 -> Cos45
FloorDiv(a, b) == (a - Mod(a, b)) \div b
TrimStart(m, dx, c4, d, x, y) ==       \* center is c4/4
    c4 * 16384 - d * 32768 + y * CosT(m, dx) + x * SinT(m, dx)
TrimLo(m, dx, c4, d, x, y) == -FloorDiv(-TrimStart(m, dx, c4, d, x, y), One)       \* ceiling
TrimHi(m, dx, c4, d, x, y) == FloorDiv(TrimStart(m, dx, c4, d, x, y) + d * One, One)
Trim(a, c4, d, x, y) ==
    MkArr(<<a.sh[1], a.sh[2], d>>, LAMBDA p :
        LET lo == TrimLo(p[1], a.sh[1], c4, d, x, y)
            hi == TrimHi(p[1], a.sh[1], c4, d, x, y)
        IN  IF p[3] < hi - lo THEN At(a, p[1], p[2], lo + p[3]) ELSE 1)
(* decidable cases: the window is inside the frame and not within rounding of a pixel *)
TrimClear(sh, c4, d, x, y) ==
    \A m \in 0..(sh[1] - 1) :
        LET s == Mod(TrimStart(m, sh[1], c4, d, x, y), One) IN
        /\ s > 600 /\ s < One - 600
        /\ TrimLo(m, sh[1], c4, d, x, y) >= 0 /\ TrimHi(m, sh[1], c4, d, x, y) <= sh[3]
=============================================================================
