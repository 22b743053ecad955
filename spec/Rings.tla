------------------------------- MODULE Rings -------------------------------
(***************************************************************************)
(* Removal of ring artefacts from reconstructed slices.  A slice is looked *)
(* at in polar coordinates about the rotation axis (cx, cy): R radii, H    *)
(* directions.  What differs from the median along the radius, unless it   *)
(* differs too much to be an artefact, and persists along the ring (the    *)
(* mean over neighbouring directions) is taken away.                       *)
(*                                                                         *)
(* A slice is a sequence of rows of integers; x, y count from 0.  An       *)
(* artefact is a pair <<sum, n>>, the number sum / n.                      *)
(***************************************************************************)
EXTENDS Num, SequencesExt, FiniteSets
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
RoundD(d) == DFloor(DAdd(d, DHalf))
TwoPi == DMul(D2, DPi)

(* p: cx, cy (reals), tmax, tmin, thresh, theta, width (integers), wrap *)
Radii(p, w, h) ==
    Lesser(Lesser(DFloor(p.cx) + 1, DFloor(p.cy) + 1),
        Lesser(DFloor(DSub(DInt(w), p.cx)), DFloor(DSub(DInt(h), p.cy))))
Directions(radii) == RoundD(DMul(TwoPi, DInt(radii)))
\* the angle of direction i = 0..H-1
Angle(i, H) == DDiv(DMul(DPi, DInt(2 * i + 1)), DInt(H))

Clip(v, p) == IF v > p.tmax THEN p.tmax ELSE IF v < p.tmin THEN p.tmin ELSE v
\* polar[i + 1][k + 1]: direction i, radius k
Polar(img, p, R, H) ==
    Eager([i \in 1..H |->
        LET a == Angle(i - 1, H)
            c == DCos(a)
            s == DSin(a)
        IN  Eager([k \in 1..R |-> Clip(img[RoundD(DAdd(DMul(DInt(k - 1), s), p.cy)) + 1]
                                  [RoundD(DAdd(DMul(DInt(k - 1), c), p.cx)) + 1], p)])])

\* half the kernel: a third of it in the inner, two thirds in the middle third of the radii
Part(k, R, full) == IF k < R \div 3 THEN full \div 3 ELSE IF k < (2 * R) \div 3 THEN (2 * full) \div 3 ELSE full
Opposite(i, H) == IF i < H \div 2 THEN i + H \div 2 ELSE i - H \div 2
\* the value at radius k, on the opposite side if negative, 0 outside
Along(P, i, k, R, H) ==
    IF k >= 0 THEN (IF k < R THEN P[i + 1][k + 1] ELSE 0)
    ELSE IF -k < R THEN P[Opposite(i, H) + 1][-k + 1] ELSE 0
MiddleOf(s) == SortSeq(s, LAMBDA a, b : a < b)[(Len(s) + 1) \div 2]
RadialMedian(P, i, k, p, R, H) ==
    LET m == Part(k, R, 2 * p.width + 1)
    IN  MiddleOf([j \in 1..(2 * m + 1) |-> Along(P, i, k + j - 1 - m, R, H)])
Difference(P, p, R, H) ==
    Eager([i \in 1..H |-> Eager([k \in 1..R |->
        LET d == P[i][k] - RadialMedian(P, i - 1, k - 1, p, R, H)
        IN  IF d > p.thresh \/ -d > p.thresh THEN 0 ELSE d])])

\* the direction i of a window, at the end of the half or the whole circle
Wrapped(i, H) == (i + H) % H
Reflected(i, j, H) ==
    LET h == H \div 2 IN
    IF i < h THEN (IF j < 0 THEN -j ELSE IF j >= h THEN 2 * h - 2 - j ELSE j)
    ELSE (IF j < h THEN 2 * h - j ELSE IF j >= H THEN 2 * H - 2 - j ELSE j)
Azimuth(p, H) == LET a == (H * p.theta) \div 360 IN IF p.wrap THEN a ELSE Lesser(a, H \div 2 - 1)
Artefact(D, p, i, k, R, H) ==
    LET a == Part(k, R, Azimuth(p, H))
        at(j) == D[(IF p.wrap THEN Wrapped(j, H) ELSE Reflected(i, j, H)) + 1][k + 1]
    IN  IF D[i + 1][k + 1] = 0 THEN <<0, 1>>
        ELSE <<FoldLeft(LAMBDA x, j : x + at(i + j - 1 - a), 0, [j \in 1..(2 * a + 1) |-> j]), 2 * a + 1>>

\* directions and radii that a pixel belongs to; two of them on the line between
Slack == DRat(1, 10000)
Around(d) == {DFloor(DSub(d, Slack)), DFloor(DAdd(d, Slack))}
Rays(x, y, p, H) ==
    LET a == DAtan2(DSub(DInt(y), p.cy), DSub(DInt(x), p.cx))
        u == DDiv(DMul(a, DInt(H)), TwoPi)
    IN  IF DEq(DInt(x), p.cx) /\ DEq(DInt(y), p.cy) THEN 0..(H - 1) ELSE {(n + H) % H : n \in Around(u)}
Rad(x, y, p) ==
    LET d == DSqrt(DAdd(DSq(DSub(DInt(x), p.cx)), DSq(DSub(DInt(y), p.cy))))
    IN  Around(DAdd(d, DHalf))

\* what may be taken away from pixel x, y
Corrections(D, p, x, y, R, H) ==
    {IF k < R THEN Artefact(D, p, i, k, R, H) ELSE <<0, 1>> : i \in Rays(x, y, p, H), k \in Rad(x, y, p)}

Analysed(img, p) ==
    LET R == Radii(p, Len(img[1]), Len(img))
        H == Directions(R)
    IN  [R |-> R, H |-> H, D |-> Difference(Polar(img, p, R, H), p, R, H)]
\* out: rows of reals
IsRemoved(img, out, p) ==
    LET A == Analysed(img, p) IN
    /\ Len(out) = Len(img)
    /\ \A y \in 1..Len(img) : Len(out[y]) = Len(img[y])
    /\ \A y \in 1..Len(img) : \A x \in 1..Len(img[y]) :
         \E c \in Corrections(A.D, p, x - 1, y - 1, A.R, A.H) :
            DLeq(DAbs(DSub(out[y][x], DSub(DInt(img[y][x]), DRat(c[1], c[2])))), DRat(1, 1000))
=============================================================================
