------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Corrections of the geometry of projection images: lens distortion,      *)
(* shifts, drift of the detector seen at the slits.  Images are given by   *)
(* their rows; positions count from 0.                                     *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt
Rows(x) == Len(x)
Cols(x) == Len(x[1])
At(x, y, c) == x[y + 1][c + 1]
Img(m, n, f(_, _)) == Eager([y \in 1..m |-> Eager([c \in 1..n |-> f(y - 1, c - 1)])])
\* ---- distortion: polynomial of the distance from the centre, looked up backwards ----
RECURSIVE Poly(_, _)
Poly(f, r) == IF f = <<>> THEN D0 ELSE DAdd(Head(f), DMul(r, Poly(Tail(f), r)))
(* linear interpolation between the four neighbours *)
Bilinear(x, y, c) ==
    LET y0 == IF DFloor(y) >= Rows(x) - 1 THEN IF Rows(x) = 1 THEN 0 ELSE Rows(x) - 2 ELSE DFloor(y)
        c0 == IF DFloor(c) >= Cols(x) - 1 THEN IF Cols(x) = 1 THEN 0 ELSE Cols(x) - 2 ELSE DFloor(c)
        y1 == IF Rows(x) = 1 THEN 0 ELSE y0 + 1
        c1 == IF Cols(x) = 1 THEN 0 ELSE c0 + 1
        fy == DSub(y, DInt(y0))
        fc == DSub(c, DInt(c0))
        row(i) == DAdd(DMul(DSub(D1, fc), At(x, i, c0)), DMul(fc, At(x, i, c1)))
    IN  DAdd(DMul(DSub(D1, fy), row(y0)), DMul(fy, row(y1)))
Unwarped(x, xc, yc, f, y, c) ==
    LET xu == DSub(DInt(c), xc)
        yu == DSub(DInt(y), yc)
        k == Poly(f, DSqrt(DAdd(DSq(xu), DSq(yu))))
    IN  Bilinear(x, DClamp(DAdd(yc, DMul(k, yu)), D0, DInt(Rows(x) - 1)),
                    DClamp(DAdd(xc, DMul(k, xu)), D0, DInt(Cols(x) - 1)))
Unwarp(x, xc, yc, f) == Img(Rows(x), Cols(x), LAMBDA y, c : Unwarped(x, xc, yc, f, y, c))
UnwarpRow(x, xc, yc, f, y) == Eager([c \in 1..Cols(x) |-> Unwarped(x, xc, yc, f, y, c - 1)])
\* ---- shifts ----
Moved(x, dy, dc) == Img(Rows(x), Cols(x), LAMBDA y, c :
    IF y + dy \in 0..(Rows(x) - 1) /\ c + dc \in 0..(Cols(x) - 1) THEN At(x, y + dy, c + dc) ELSE D0)
\* to the nearest pixel
Jittered(x, jc, jy) == Img(Rows(x), Cols(x), LAMBDA y, c :
    LET a == DRound(DAdd(DInt(y), jy))
        b == DRound(DAdd(DInt(c), jc))
    IN  IF a \in 0..(Rows(x) - 1) /\ b \in 0..(Cols(x) - 1) THEN At(x, a, b) ELSE D0)
Biggest(x) == DMaxAbs([i \in 1..Len(x) |-> DMaxAbs(x[i])])
\* ---- weights that fall from 1 to 0 between two radii ----
\* (without a frame in between: cut; edge is the value where the cut is)
BlurredTo(x, low, high, edge) ==
    LET rad(y, c) == DSqrt(DAdd(DSq(DSub(DInt(y), DRat(Rows(x), 2))), DSq(DSub(DInt(c), DRat(Cols(x), 2)))))
        most == DMaxAbs([k \in 1..(Rows(x) * Cols(x)) |-> rad((k - 1) \div Cols(x), (k - 1) % Cols(x))])
        a == DMul(low, most)
        b == DMul(high, most)
    IN  Img(Rows(x), Cols(x), LAMBDA y, c :
            DMul(At(x, y, c), IF DLt(a, b) THEN DClamp(DDiv(DSub(b, rad(y, c)), DSub(b, a)), D0, D1)
                              ELSE IF DLeq(DAbs(DSub(b, rad(y, c))), DRat(1, 1000000)) THEN edge
                              ELSE IF DLt(rad(y, c), b) THEN D1 ELSE D0))
Blurred(x, low, high) == BlurredTo(x, low, high, D1)
\* ---- the box between the slits ----
MidOf(v) == SortSeq(v, LAMBDA a, b : DLt(a, b))[1 + Len(v) \div 2]
OrZero(x, y, c) == IF y \in 0..(Rows(x) - 1) /\ c \in 0..(Cols(x) - 1) THEN At(x, y, c) ELSE D0
Medians(x, k) == LET h == k \div 2 IN
    IF k = 1 THEN x
    ELSE Img(Rows(x), Cols(x), LAMBDA y, c :
            MidOf([i \in 1..(k * k) |-> OrZero(x, y - h + ((i - 1) \div k), c - h + ((i - 1) % k))]))
Medians1(v, k) == LET h == k \div 2 IN
    Eager([i \in 1..Len(v) |-> MidOf([j \in 1..k |-> LET p == i - h + j - 1 IN IF p \in 1..Len(v) THEN v[p] ELSE D0])])
MeanOf(v) == DDiv(DSum(v), DInt(Len(v)))
Std(v) == LET m == MeanOf(v) IN DSqrt(DDiv(DSum([i \in 1..Len(v) |-> DSq(DSub(v[i], m))]), DInt(Len(v))))
Slope(v) == LET n == Len(v) IN
    Eager([i \in 1..n |-> IF i = 1 THEN DSub(v[2], v[1])
                          ELSE IF i = n THEN DSub(v[n], v[n - 1])
                          ELSE DMul(DHalf, DSub(v[i + 1], v[i - 1]))])
Part(x, y0, y1, c0, c1) == Eager([y \in 1..(y1 - y0) |-> SubSeq(x[y0 + y], c0 + 1, c1)])
ColumnOf(x, c) == [y \in 1..Rows(x) |-> x[y][c]]
AcrossCols(x, k) == Slope(Medians1(Eager([c \in 1..Cols(x) |-> Std(ColumnOf(x, c))]), k))
AcrossRows(x, k) == Slope(Medians1(Eager([y \in 1..Rows(x) |-> Std(x[y])]), k))
\* p (from 0) is where v is largest, or smallest, within rounding
Peak(v, p, up) == /\ p \in 0..(Len(v) - 1)
                  /\ \A i \in 1..Len(v) : IF up THEN DLeq(DSub(v[i], v[p + 1]), Tol(1)) ELSE DLeq(DSub(v[p + 1], v[i]), Tol(1))
(* corners: upper left, lower left, lower right, upper right, each <<column, row>> *)
LogImage(x) == Img(Rows(x), Cols(x), LAMBDA y, c : DLn(At(x, y, c)))
Rise == <<TRUE, TRUE, FALSE, FALSE>>     \* the left side: the spread grows with the column
Down == <<TRUE, FALSE, FALSE, TRUE>>     \* the upper side
Corners(x, k2, k1, quadrant, found) ==
    LET f == Medians(LogImage(x), k2)
        hy == Rows(x) \div 2
        hc == Cols(x) \div 2
        part(i) == IF ~quadrant THEN f
                   ELSE Part(f, IF Down[i] THEN 0 ELSE hy, IF Down[i] THEN hy ELSE Rows(x), IF Rise[i] THEN 0 ELSE hc, IF Rise[i] THEN hc ELSE Cols(x))
        oc(i) == IF quadrant /\ ~Rise[i] THEN hc ELSE 0
        oy(i) == IF quadrant /\ ~Down[i] THEN hy ELSE 0
    IN  \A i \in 1..4 : /\ Peak(AcrossCols(part(i), k1), found[i][1] - oc(i), Rise[i])
                        /\ Peak(AcrossRows(part(i), k1), found[i][2] - oy(i), Down[i])
Lowest(s) == CHOOSE v \in s : \A w \in s : DLeq(v, w)
Highest(s) == CHOOSE v \in s : \A w \in s : DLeq(w, v)
CeilOf(a) == -DFloor(DNeg(a))
Inside(x, cnr, clip) ==
    LET cs == {cnr[i][1] : i \in 1..4}
        ys == {cnr[i][2] : i \in 1..4}
    IN  Part(x, DFloor(Lowest(ys)) + clip[3], CeilOf(Highest(ys)) - clip[4], DFloor(Lowest(cs)) + clip[1], CeilOf(Highest(cs)) - clip[2])
\* an affine map <<x, y>> -> M <<x, y, 1>>
Maps(M, p) == <<DDot(SubSeq(M[1], 1, 3), <<p[1], p[2], D1>>), DDot(SubSeq(M[2], 1, 3), <<p[1], p[2], D1>>)>>
=============================================================================
