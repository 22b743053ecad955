------------------------------ MODULE Stripes ------------------------------
(***************************************************************************)
(* Removal of stripes from one sinogram: a sequence of projections, each a *)
(* sequence of detector values (1-based).                                  *)
(* The methods that decide something by comparison give a record           *)
(* [s |-> result, sure |-> whether the decisions do not hang on rounding]. *)
(***************************************************************************)
EXTENDS Linear, Arrays, TLC

N(s) == Len(s)
W(s) == Len(s[1])
Col(s, x) == [p \in 1..N(s) |-> s[p][x]]
Mat(n, w, F(_, _)) == Eager([p \in 1..n |-> Eager([x \in 1..w |-> F(p, x)])])
Turn(m) == Mat(Len(m[1]), Len(m), LAMBDA i, j : m[j][i])
MeanOf(v) == DDiv(DSum(v), DInt(Len(v)))
MaxAbs(s) == DMaxAbs([p \in 1..N(s) |-> DMaxAbs(s[p])])
DSort(v) == SortSeq(v, LAMBDA a, b : DLt(a, b))
Sy(i, n) == Sym(i - 1, n) + 1
Sure == DRat(2, 100000)

(* ---- smoothing of the mean projection ---- *)
Smooth(v, size) == [x \in 1..Len(v) |->
    DDiv(DSum([j \in 1..size |-> v[Nearest(x - 1 + (j - 1) - size \div 2, Len(v)) + 1]]), DInt(size))]
BySmoothing(s, size) ==
    LET av == Eager([x \in 1..W(s) |-> MeanOf(Col(s, x))])
        sm == Eager(Smooth(av, size))
    IN  Mat(N(s), W(s), LAMBDA p, x : DSub(s[p][x], DSub(av[x], sm[x])))

(* ---- sorting: the columns sorted, smoothed by a median, and sorted back ---- *)
RankIn(v, p) == 1 + Cardinality({q \in 1..Len(v) : DLt(v[q], v[p]) \/ (DEq(v[q], v[p]) /\ q < p)})
Ranks(s) == Mat(N(s), W(s), LAMBDA p, x : RankIn(Col(s, x), p))
SortCols(s) == LET c == Eager([x \in 1..W(s) |-> DSort(Col(s, x))]) IN Turn(c)
MidOf(win) == DSort(win)[1 + Len(win) \div 2]
Median1(v, size) == [x \in 1..Len(v) |-> MidOf([j \in 1..size |-> v[Sy(x + (j - 1) - size \div 2, Len(v))]])]
MedianRows(m, size) == Eager([p \in 1..Len(m) |-> Eager(Median1(m[p], size))])
Median2(m, size) == Mat(Len(m), Len(m[1]), LAMBDA p, x :
    MidOf([j \in 1..(size * size) |-> m[Sy(p + ((j - 1) \div size) - size \div 2, Len(m))]
                                       [Sy(x + ((j - 1) % size) - size \div 2, Len(m[1]))]]))
SortBack(r, m) == Mat(Len(m), Len(m[1]), LAMBDA p, x : m[r[p][x]][x])
\* no two values of a column are so close that rounding could exchange them
Apart(s) == LET g == DMul(Sure, MaxAbs(s))
                t == SortCols(s)
            IN  \A x \in 1..W(s) : \A p \in 1..(N(s) - 1) : DLt(g, DSub(t[p + 1][x], t[p][x]))
BySorting(s, size, dim) ==
    LET t == SortCols(s)
        m == IF dim = 1 THEN MedianRows(t, size) ELSE Median2(t, size)
    IN  [s |-> SortBack(Ranks(s), m), sure |-> Apart(s)]

(* ---- filtering: sorting applied to the smooth part along the angles ---- *)
PadReflect(v, pad) == [k \in 1..(Len(v) + 2 * pad) |-> v[Mirror(k - 1 - pad, Len(v)) + 1]]
LowPass(s, sigma, pad) ==
    LET w == Gauss(N(s) + 2 * pad, sigma)
        f == Eager([x \in 1..W(s) |-> Centred(w, Eager(PadReflect(Col(s, x), pad)))])
    IN  Mat(N(s), W(s), LAMBDA p, x : f[x][p + pad])
ByFiltering(s, sigma, size, dim) ==
    LET pad == MinI(150, N(s) \div 10)
        low == LowPass(s, sigma, pad)
        cor == BySorting(low, size, dim)
    IN  [s |-> Mat(N(s), W(s), LAMBDA p, x : DAdd(cor.s[p][x], DSub(s[p][x], low[p][x]))),
         sure |-> \A x \in 1..W(s) : LET t == DSort(Col(low, x)) IN
                     \A p \in 1..(N(s) - 1) : DLt(DMul(Sure, MaxAbs(s)), DSub(t[p + 1], t[p]))]

(* ---- detection of outliers in a list ---- *)
Detect(v, snr) ==
    LET n == Len(v)
        t == LET u == DSort(v) IN Eager([i \in 1..n |-> u[n + 1 - i]])      \* falling
        drop == n \div 4
        k == n - 2 * drop - 1                                               \* points of the fit: drop .. n-drop-2
        X == [i \in 1..k |-> DInt(drop + i - 1)]
        Y == [i \in 1..k |-> t[drop + i]]
        mx == MeanOf(X)
        my == MeanOf(Y)
        slope == DDiv(DSum([i \in 1..k |-> DMul(DSub(X[i], mx), DSub(Y[i], my))]),
                      DSum([i \in 1..k |-> DSq(DSub(X[i], mx))]))
        first == DSub(my, DMul(slope, mx))
        last == DAdd(first, DMul(slope, DInt(n - 1)))
        noise == DMax(DAbs(DSub(last, first)), DRat(1, 1000000))
        half == DMul(DMul(noise, snr), DHalf)
        up == DAdd(first, half)
        low == DSub(last, half)
        d1 == DSub(DAbs(DSub(t[1], first)), DMul(noise, snr))
        d2 == DSub(DAbs(DSub(t[n], last)), DMul(noise, snr))
        high == DLeq(D0, d1)
        deep == DLeq(D0, d2)
        clear(a) == DLt(Sure, DAbs(a))
    IN  [mask |-> [i \in 1..n |-> (high /\ DLt(up, v[i])) \/ (deep /\ DLeq(v[i], low))],
         sure |-> /\ clear(d1) /\ clear(d2)
                  /\ high => \A i \in 1..n : clear(DSub(v[i], up))
                  /\ deep => \A i \in 1..n : clear(DSub(v[i], low))]
Dilate(m) == [i \in 1..Len(m) |-> m[i] \/ (i > 1 /\ m[i - 1]) \/ (i < Len(m) /\ m[i + 1])]
Inner(m) == [i \in 1..Len(m) |-> m[i] /\ i > 2 /\ i < Len(m) - 1]
Quotient(a, b) == [i \in 1..Len(a) |-> IF DEq(b[i], D0) THEN D1 ELSE DDiv(a[i], b[i])]
\* response of every column relative to its neighbourhood
Factors(s, size, drop) ==
    LET t == SortCols(s)
        m == MedianRows(t, size)
        k == (drop * N(s)) \div 200
        av(u) == [x \in 1..W(s) |-> MeanOf([p \in 1..(N(s) - 2 * k) |-> u[p + k][x]])]
    IN  Eager(Quotient(av(t), av(m)))
Divided(s, f) == Mat(N(s), W(s), LAMBDA p, x : DDiv(s[p][x], f[x]))
(* ---- large stripes ---- *)
Large(s, snr, size, drop, norm) ==
    LET f == Factors(s, size, drop)
        d == Detect(f, snr)
        m == Eager(Dilate(d.mask))
        sm == MedianRows(SortCols(s), size)
        r == Ranks(s)
    IN  [s |-> Mat(N(s), W(s), LAMBDA p, x :
                   IF m[x] THEN sm[r[p][x]][x] ELSE IF norm THEN DDiv(s[p][x], f[x]) ELSE s[p][x]),
         mask |-> m, sure |-> d.sure /\ Apart(s)]
(* ---- dead stripes: interpolation over columns that fluctuate too much or too little ---- *)
LeftOf(m, x) == CHOOSE y \in 1..x : ~m[y] /\ \A z \in (y + 1)..x : m[z]
RightOf(m, x) == CHOOSE y \in x..Len(m) : ~m[y] /\ \A z \in x..(y - 1) : m[z]
Bridge(s, m) == Mat(N(s), W(s), LAMBDA p, x :
    IF ~m[x] THEN s[p][x]
    ELSE LET l == LeftOf(m, x)
             r == RightOf(m, x)
         IN  DAdd(DMul(DRat(r - x, r - l), s[p][l]), DMul(DRat(x - l, r - l), s[p][r])))
Box10(v) == [p \in 1..Len(v) |-> DDiv(DSum([j \in 1..10 |-> v[Sy(p + j - 6, Len(v))]]), DInt(10))]
Fluctuation(s) == Eager([x \in 1..W(s) |-> LET v == Col(s, x)
                                              b == Eager(Box10(v))
                                          IN  DSum([p \in 1..N(s) |-> DAbs(DSub(v[p], b[p]))])])
DeadMask(s, snr, size) ==
    LET l == Fluctuation(s)
        d == Detect(Eager(Quotient(l, Eager(Median1(l, size)))), snr)
    IN  [mask |-> Eager(Inner(Dilate(d.mask))), sure |-> d.sure]
Dead(s, snr, size, norm) ==
    LET d == DeadMask(s, snr, size)
        b == Bridge(s, d.mask)
        l == Large(b, snr, size, 10, TRUE)
    IN  IF norm THEN [s |-> l.s, mask |-> d.mask, sure |-> d.sure /\ l.sure]
        ELSE [s |-> b, mask |-> d.mask, sure |-> d.sure]
AllStripes(s, snr, la, sm, dim) ==
    LET d == Dead(s, snr, la, TRUE)
        o == BySorting(d.s, sm, dim)
    IN  [s |-> o.s, mask |-> d.mask, sure |-> d.sure /\ o.sure]
ByInterpolation(s, snr, size, drop, norm) ==
    LET f == Factors(s, size, drop)
        d == Detect(f, snr)
        m == Eager(Inner(Dilate(d.mask)))
    IN  [s |-> Bridge(IF norm THEN Divided(s, f) ELSE s, m), mask |-> m, sure |-> d.sure]

(* ---- fitting: divided by a polynomial along the angles, multiplied by its smooth version ---- *)
RECURSIVE DPowI(_, _)
DPowI(a, k) == IF k = 0 THEN D1 ELSE DMul(a, DPowI(a, k - 1))
\* weights of the value at 0 of the least-squares polynomial through the points -h..h
FitWeights(h, order) ==
    LET A == [i \in 1..(2 * h + 1) |-> [j \in 1..(order + 1) |-> DPowI(DInt(i - 1 - h), j - 1)]]
        c == Solve(Gram(A), [j \in 1..(order + 1) |-> IF j = 1 THEN D1 ELSE D0])
    IN  Eager([i \in 1..(2 * h + 1) |-> DSum([j \in 1..(order + 1) |-> DMul(c[j], A[i][j])])])
Fitted(s, order) ==
    LET n == N(s)
        h == IF n % 2 = 0 THEN n \div 2 - 1 ELSE (n - 1) \div 2
        w == FitWeights(h, MinI(order, 2 * h))
    IN  Mat(n, W(s), LAMBDA p, x :
            DSum([i \in 1..(2 * h + 1) |-> DMul(w[i], s[Mirror(p - 1 + i - 1 - h, n) + 1][x])]))
Gauss2(s, sx, sy, pad) ==        \* columns repeated at the edge, rows continued with the mean of the column
    LET wx == Gauss(W(s) + 2 * pad, sx)
        wy == Gauss(N(s) + 2 * pad, sy)
        mean == Eager([x \in 1..W(s) |-> MeanOf(Col(s, x))])
        big == Mat(N(s) + 2 * pad, W(s) + 2 * pad, LAMBDA p, x :
                 LET y == Nearest(x - 1 - pad, W(s)) + 1
                 IN  IF p - pad \in 1..N(s) THEN s[p - pad][y] ELSE mean[y])
        fx == Eager([p \in 1..Len(big) |-> Centred(wx, big[p])])
        gx == Eager([p \in 1..Len(big) |-> CentredIm(wx, big[p])])
        fy == Turn(Eager([x \in 1..Len(big[1]) |-> VSub(Centred(wy, Eager(Col(fx, x))), CentredIm(wy, Eager(Col(gx, x))))]))
    IN  Mat(N(s), W(s), LAMBDA p, x : fy[p + pad][x + pad])
MeanAll(s) == MeanOf([p \in 1..N(s) |-> MeanOf(s[p])])
ByFitting(s, order, sx, sy) ==
    LET pad == MinI(150, N(s) \div 10)
        fit == Fitted(s, order)
        sm == Gauss2(fit, sx, sy, pad)
        g == DDiv(MeanAll(fit), MeanAll(sm))
    IN  Mat(N(s), W(s), LAMBDA p, x : DMul(DDiv(s[p][x], fit[p][x]), DMul(g, sm[p][x])))

(* ---- Titarenko's regularization, by blocks of projections ---- *)
\* differences of order m as a matrix
DiffRows(n, m) ==
    LET h == IF m = 1 THEN <<D1, DInt(-1)>> ELSE <<DInt(-1), D2, DInt(-1)>> IN
    Eager([i \in 1..(n - m) |-> Eager([j \in 1..n |-> IF j - i \in 0..m THEN h[j - i + 1] ELSE D0])])
\* q minimizing |D(mean + q)|^2 + alpha |q|^2
Offset(s, m) ==
    LET n == W(s)
        sums == [p \in 1..N(s) |-> DSum(s[p])]
        srt == DSort(sums)
        spread == DSub(srt[N(s)], srt[1])
        alpha == DDiv(D1, DMul(D2, spread))
        mean == Eager([x \in 1..n |-> MeanOf(Col(s, x))])
        G == Gram(DiffRows(n, m))
        A == Eager([i \in 1..n |-> Eager([j \in 1..n |-> IF i = j THEN DAdd(G[i][j], alpha) ELSE G[i][j]])])
    IN  IF DLeq(spread, D0) THEN VConst(n, D0)
        ELSE Solve(A, Eager([i \in 1..n |-> DNeg(DDot(G[i], mean))]))
Ring(s, m) == LET q == Offset(s, m) IN Mat(N(s), W(s), LAMBDA p, x : DAdd(s[p][x], q[x]))
RECURSIVE Blocks(_, _, _, _)
Blocks(s, m, step, k) ==         \* the remaining projections belong to the last block
    IF Len(s) < 2 * step THEN Ring(s, m)
    ELSE Ring(SubSeq(s, 1, step), m) \o Blocks(SubSeq(s, step + 1, Len(s)), m, step, k)
NoNan(s) == Mat(N(s), W(s), LAMBDA p, x : IF DIsNan(s[p][x]) THEN D0 ELSE s[p][x])
Titarenko(raw, nblock, alpha) ==
    LET s == NoNan(raw)
        d(m) == IF nblock = 0 THEN Ring(s, m) ELSE Blocks(s, m, N(s) \div nblock, 0)
        a == d(1)
        b == d(2)
        p == Mat(N(s), W(s), LAMBDA i, x : DMul(a[i][x], b[i][x]))
        least == [i \in 1..N(s) |-> DSort(p[i])[1]]
        low == DAbs(DSort(least)[1])
    IN  Mat(N(s), W(s), LAMBDA i, x : DSqrt(DAdd(p[i][x], DMul(alpha, low))))

(* ---- Fourier-wavelet: vertical details damped at low angular frequency ---- *)
\* lo: low-pass decomposition filter (orthogonal wavelet)
Hi(lo) == [j \in 1..Len(lo) |-> IF j % 2 = 1 THEN DNeg(lo[Len(lo) + 1 - j]) ELSE lo[Len(lo) + 1 - j]]
Half(n, L) == (n + L - 1) \div 2
Analyse(f, v) == LET L == Len(f) IN
    Eager([k \in 1..Half(Len(v), L) |-> DSum([j \in 1..L |-> DMul(f[j], v[Sym(2 * (k - 1) + 1 - (j - 1), Len(v)) + 1])])])
\* c, d: approximation and details; the result has 2 n - L + 2 elements
Synth(lo, hi, c, d) ==
    LET L == Len(lo)
        n == Len(c)
    IN  Eager([i \in 1..(2 * n - L + 2) |->
          \* element i - 1 of the inverse: every coefficient it went into, with the weight it had
          DSum([k \in 1..n |-> LET j == 2 * (k - 1) + 1 - (i - 1) IN
                IF j \in 0..(L - 1) THEN DAdd(DMul(lo[j + 1], c[k]), DMul(hi[j + 1], d[k])) ELSE D0])])
RowsBy(f, s) == Eager([p \in 1..N(s) |-> Analyse(f, s[p])])
ColsBy(f, s) == Turn(Eager([x \in 1..W(s) |-> Analyse(f, Eager(Col(s, x)))]))
Damp(v, sigma) ==
    LET n == Len(v)
        \* by index of the frequency: shifted so that frequency 0 is at n \div 2
        w == [k \in 1..n |-> LET q == (k - 1 + n \div 2) % n
                                 y == DRat(2 * q + 1 - n, 2)
                             IN  DSub(D1, DExp(DNeg(DDiv(DSq(y), DMul(D2, DSq(sigma))))))]
    IN  Circular(Kernel(w), v)
RECURSIVE FwLevels(_, _, _, _)
FwLevels(s, lo, sigma, level) ==
    IF level = 0 THEN s
    ELSE LET hi == Hi(lo)
             r == RowsBy(lo, s)
             t == RowsBy(hi, s)
             cA == FwLevels(ColsBy(lo, r), lo, sigma, level - 1)
             cH == ColsBy(hi, r)
             cV0 == ColsBy(lo, t)
             cV == Turn(Eager([x \in 1..W(cV0) |-> Damp(Eager(Col(cV0, x)), sigma)]))
             cD == ColsBy(hi, t)
             n == N(cH)
             w == W(cH)
             colsyn(a, b) == Turn(Eager([x \in 1..w |-> Synth(lo, hi, Eager([p \in 1..n |-> a[p][x]]), Eager([p \in 1..n |-> b[p][x]]))]))
             L == colsyn(cA, cH)
             H == colsyn(cV, cD)
         IN  Eager([p \in 1..N(L) |-> Synth(lo, hi, L[p], H[p])])
FourierWavelet(s, lo, sigma, level, pad) ==
    LET n == N(s)
        k == IF pad THEN n \div 8 ELSE 0
        sh == k \div 2
        zero == VConst(W(s), D0)
        big == Eager([p \in 1..(n + k) |-> IF p - sh \in 1..n THEN s[p - sh] ELSE zero])
        o == FwLevels(big, lo, sigma, level)
    IN  Mat(n, W(s), LAMBDA p, x : o[p + sh][x])
=============================================================================
