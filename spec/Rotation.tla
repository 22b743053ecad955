------------------------------ MODULE Rotation ------------------------------
(***************************************************************************)
(* Where the rotation axis is.  Sinograms and images are given by rows.    *)
(***************************************************************************)
EXTENDS Linear, Integers
Rows(x) == Len(x)
Cols(x) == Len(x[1])
Mod(a, n) == ((a % n) + n) % n
Ceil(a) == -DFloor(DNeg(a))
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* ---- smoothing with a Gaussian, borders reflected (d c b a | a b c d | d c b a) ----
Weights(sigma) ==
    LET rad == 4 * sigma
        raw == Eager([k \in 1..(2 * rad + 1) |-> DExp(DDiv(DInt(-((k - rad - 1) * (k - rad - 1))), DInt(2 * sigma * sigma)))])
    IN  VScale(DDiv(D1, DSum(raw)), raw)
Sym(i, n) == LET m == Mod(i, 2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
SmoothRow(v, w) == LET rad == (Len(w) - 1) \div 2 IN
    Eager([i \in 1..Len(v) |-> DDot(w, [k \in 1..Len(w) |-> v[1 + Sym(i - 1 + k - 1 - rad, Len(v))]])])
SmoothCols(x, w) == LET rad == (Len(w) - 1) \div 2 IN
    Eager([i \in 1..Len(x) |-> DComb(w, [k \in 1..Len(w) |-> x[1 + Sym(i - 1 + k - 1 - rad, Len(x))]])])
Smoothed(x, s1, s2) == LET w == Weights(s2)
                           y == SmoothCols(x, Weights(s1))
                       IN  Eager([i \in 1..Len(y) |-> SmoothRow(y[i], w)])
\* ---- cubic splines through the samples, mirrored at the ends (d c b | a b c d | c b a) ----
RECURSIVE Forward(_, _, _, _)
(* the equations  c[i-1] + 4 c[i] + c[i+1] = 6 v[i], eliminated downwards: pairs <<upper coefficient, right hand side>> *)
Forward(v, i, up, acc) ==
    IF i > Len(v) THEN acc
    ELSE LET lo == IF i = 1 THEN D0 ELSE IF i = Len(v) THEN D2 ELSE D1
             hi == IF i = 1 THEN D2 ELSE IF i = Len(v) THEN D0 ELSE D1
             d == DSub(DInt(4), DMul(lo, up[1]))
             e == <<DDiv(hi, d), DDiv(DSub(DMul(DInt(6), v[i]), DMul(lo, up[2])), d)>>
         IN  Forward(v, i + 1, e, Append(acc, e))
RECURSIVE Backward(_, _, _)
Backward(eq, i, c) == IF i = 0 THEN c
                      ELSE Backward(eq, i - 1, <<DSub(eq[i][2], DMul(eq[i][1], IF c = <<>> THEN D0 ELSE c[1]))>> \o c)
SplineOf(v) == LET eq == Forward(v, 1, <<D0, D0>>, <<>>) IN Backward(eq, Len(v), <<>>)
Mirror(i, n) == LET m == Mod(i, 2 * n - 2) IN IF m < n THEN m ELSE 2 * n - 2 - m
(* at position i + h/4 (i counts from 0, h is 0, 1, 2 or 3) *)
SplineAt(c, i, h) ==
    LET at(k) == c[1 + Mirror(i + k, Len(c))]
    IN  IF h = 0 THEN DDiv(DAdd(DAdd(at(-1), DMul(DInt(4), at(0))), at(1)), DInt(6))
        ELSE LET far(q) == (4 - q) * (4 - q) * (4 - q)          \* the weights of the cubic B-spline, times 384
                 near(q) == 256 - 24 * q * q + 3 * q * q * q
             IN  DDiv(DAdd(DAdd(DMul(DInt(far(h)), at(-1)), DMul(DInt(near(h)), at(0))),
                           DAdd(DMul(DInt(near(4 - h)), at(1)), DMul(DInt(far(4 - h)), at(2)))), DInt(384))
\* ---- Vo's metric: the sinogram of 360 degrees that a centre gives has no energy outside of a double wedge ----
(* s4: the shift in quarters, splines: the spline of every row of the mirrored sinogram *)
Completed(sino, splines, s4) ==
    LET n == Rows(sino)
        w == Cols(sino)
        i0 == s4 \div 4                      \* floor of the shift
        h == s4 % 4
    IN  Eager([p \in 1..n |-> Eager([x \in 1..w |->
            \* column x - 1 - shift of the mirrored row, the reversed sinogram where that is outside
            IF (IF s4 >= 0 THEN 4 * (x - 1) < s4 ELSE x - 1 >= w - ((3 - s4) \div 4))
            THEN sino[n + 1 - p][x]
            ELSE IF h = 0 THEN sino[p][w + 1 - (x - i0)]
            ELSE SplineAt(splines[p], x - 1 - i0 - 1, 4 - h)])])
Mask(n, w, ratio, drop) ==       \* n rows, w columns, zero frequency in the middle
    LET cy == (n + 1) \div 2 - 1
        cx == (w + 1) \div 2 - 1
        dv == DDiv(DInt(n - 1), DMul(DInt(n), TwoPi))
        radius == DMul(DMul(DHalf, ratio), DInt(w))
        keep == MinI(drop, Ceil(DMul(DRat(1, 20), DInt(n))))
        reach(i) == LET p == Ceil(DMul(DDiv(DMul(DInt(i - cy), dv), radius), DInt(w))) IN IF p < 0 THEN -p ELSE p
    IN  Eager([i \in 1..n |-> LET p == reach(i - 1)
                                  a == MinI(MaxI(cx - p, 0), w - 1)
                                  b == MinI(MaxI(cx + p, 0), w - 1)
                              IN  Eager([x \in 1..w |->
            IF (i - 1) \in (cy - keep)..(cy + keep) \/ (x - 1) \in (cx - 1)..(cx + 1) THEN D0
            ELSE IF x - 1 >= a /\ x - 1 <= b THEN D1 ELSE D0])])
Metric(sino, splines, mask, s4) ==
    LET all == Eager(sino \o Completed(sino, splines, s4))
        m == Shifted(Modulus(Dft2(all)))
    IN  DDiv(DSum([i \in 1..Len(m) |-> DDot(m[i], mask[i])]), DInt(Len(m) * Len(m[1])))
(* candidates count in eighths of a pixel; the shift is twice the distance to the middle column *)
ShiftOf(c8, w) == c8 - 4 * (w - 1)          \* = 4 * (2 (c8/8 - (w-1)/2))
Metrics(sino, cands, ratio, drop) ==
    LET w == Cols(sino)
        mask == Mask(2 * Rows(sino), w, ratio, drop)
        spl == Eager([p \in 1..Rows(sino) |-> SplineOf(Eager([x \in 1..w |-> sino[p][w + 1 - x]]))])
    IN  Eager([k \in 1..Len(cands) |-> Metric(sino, spl, mask, ShiftOf(cands[k], w))])
Minimal(ms, k) == \A j \in 1..Len(ms) : DLeq(ms[k], DMul(ms[j], DAdd(D1, DRat(1, 50000))))
TowardsZero2(a) == IF a >= 0 THEN a \div 2 ELSE -((-a) \div 2)
ClampI(a, lo, hi) == MinI(MaxI(a, lo), hi)
(* every half pixel between the limits (given relative to the middle) *)
CoarseCands(w, smin, smax) ==
    LET lim(s) == TowardsZero2(ClampI(2 * s + w - 1, 0, 2 * (w - 1)) - (w - 1))
        a == w \div 2 + lim(smin)
        b == w \div 2 + lim(smax)
    IN  Eager([k \in 1..(2 * (b - a) + 1) |-> 8 * a + 4 * (k - 1)])
(* srad8, step8: in eighths *)
FineCands(w, c8, srad8, step8) ==
    LET from == ClampI(c8, srad8, 8 * (w - 1) - srad8)
    IN  Eager([k \in 1..(2 * (srad8 \div step8) + 1) |-> from - srad8 + (k - 1) * step8])
(* all centres (in eighths) that the search may return *)
Centres(sino, q) ==
    LET w == Cols(sino)
        cs == Smoothed(sino, 3, 1)
        fs == Smoothed(sino, 2, 2)
        coarse == CoarseCands(w, q.smin, q.smax)
        cm == Metrics(cs, coarse, q.ratio, q.drop)
        starts == {coarse[k] : k \in {j \in 1..Len(coarse) : Minimal(cm, j)}}
        one(c) == LET f == FineCands(w, c, q.srad8, q.step8)
                      fm == Metrics(fs, f, q.ratio, q.drop)
                  IN  {f[k] : k \in {j \in 1..Len(f) : Minimal(fm, j)}}
    IN  UNION {one(c) : c \in starts}
AverageSino(sinos) == Eager([p \in 1..Len(sinos[1]) |-> VScale(DRat(1, Len(sinos)), DComb(VConst(Len(sinos), D1), [k \in 1..Len(sinos) |-> sinos[k][p]]))])
\* ---- two projections, half a turn apart: mirrored at column a2/2 ----
MirroredAt(p1, p2, a2) == \A y \in 1..Rows(p1) : \A x \in 0..(Cols(p1) - 1) :
    p1[y][x + 1] = p2[y][1 + Mod(a2 - x, Cols(p1))]
\* ---- entropy of an image, on 64 bins ----
Limit(v, lower) == IF DLt(v, D0) = lower THEN DMul(D2, v) ELSE DMul(DHalf, v)
Flat(x) == [k \in 1..(Rows(x) * Cols(x)) |-> x[1 + ((k - 1) \div Cols(x))][1 + ((k - 1) % Cols(x))]]
Entropy(x, lo, hi) ==
    LET v == Flat(x)
        in == {k \in 1..Len(v) : DLeq(lo, v[k]) /\ DLeq(v[k], hi)}
        bin(k) == MinI(63, DFloor(DDiv(DMul(DSub(v[k], lo), DInt(64)), DSub(hi, lo))))
        bins == [k \in in |-> bin(k)]
        share(b) == DAdd(DRat(Cardinality({k \in in : bins[k] = b}), Len(v)), DPow(DInt(10), DInt(-12)))
    IN  DNeg(DSum([b \in 1..64 |-> LET p == share(b - 1) IN DDiv(DMul(p, DLn(p)), DLn(D2))]))
Masked(x, ratio) ==
    LET m == MinI(Rows(x), Cols(x)) IN
    Eager([i \in 1..Rows(x) |-> Eager([j \in 1..Cols(x) |->
        IF DLt(DInt((2 * i - 1 - Rows(x)) * (2 * i - 1 - Rows(x)) + (2 * j - 1 - Cols(x)) * (2 * j - 1 - Cols(x))), DMul(DSq(ratio), DInt(m * m)))
        THEN x[i][j] ELSE D0])])
\* ---- slices without a sample ----
MeanOf(v) == DDiv(DSum(v), DInt(Len(v)))
Std(v) == LET m == MeanOf(v) IN DSqrt(DDiv(DSum([i \in 1..Len(v) |-> DSq(DSub(v[i], m))]), DInt(Len(v))))
Top(v) == CHOOSE a \in {v[k] : k \in 1..Len(v)} : \A k \in 1..Len(v) : DLeq(v[k], a)
(* how much the spread of row i is below the limit; sums: the projections summed over the angles *)
Margins(sums, threshold) ==
    LET top == Top([y \in 1..Rows(sums) |-> Top(sums[y])])
        rel == Eager([y \in 1..Rows(sums) |-> VScale(DDiv(D1, top), sums[y])])
        tot == Eager([x \in 1..Cols(sums) |-> DSum([y \in 1..Rows(sums) |-> rel[y][x]])])
        ref == DMul(Std(VScale(DDiv(D1, Top(tot)), tot)), threshold)
    IN  Eager([y \in 1..Rows(sums) |-> DSub(ref, Std(rel[y]))])
=============================================================================
