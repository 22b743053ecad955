------------------------------ MODULE Enhance ------------------------------
(***************************************************************************)
(* Smoothing (gaussian_filter), contrast enhancement, cumulative           *)
(* distributions, the names of image files.  Images are sequences of rows  *)
(* of reals.                                                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt
(* ---- Gaussian and its derivatives along a line, mirrored at the ends ---- *)
HalfLength(sigma) == DFloor(DAdd(DMul(DInt(4), sigma), DHalf))
Gauss(x, sigma) == DExp(DNeg(DDiv(DSq(x), DMul(D2, DSq(sigma)))))
\* the derivative is the Gaussian times this
Factor(x, sigma, order) ==
    LET u == DDiv(x, DSq(sigma))
        c == DDiv(D1, DSq(sigma))
    IN  CASE order = 0 -> D1
          [] order = 1 -> DNeg(u)
          [] order = 2 -> DSub(DSq(u), c)
          [] order = 3 -> DSub(DMul(DInt(3), DMul(u, c)), DMul(u, DSq(u)))
\* weights at -h..h
Weights(sigma, order) ==
    LET h == HalfLength(sigma)
        g == Vec(2 * h + 1, LAMBDA k : Gauss(DInt(k - 1 - h), sigma))
        s == DSum(g)
    IN  Vec(2 * h + 1, LAMBDA k : DDiv(DMul(g[k], Factor(DInt(k - 1 - h), sigma, order)), s))
\* position i (from 0, any integer) of a line of n, repeated by reflection
Fold(i, n) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
Smooth1(line, sigma, order) ==
    IF DEq(sigma, D0) THEN line
    ELSE LET w == Weights(sigma, order)
             h == (Len(w) - 1) \div 2
             n == Len(line)
         IN  Vec(n, LAMBDA i : DDot(w, [k \in 1..Len(w) |-> line[Fold(i - 1 - (k - 1 - h), n) + 1]]))
Transpose(a) == Eager([x \in 1..Len(a[1]) |-> Eager([y \in 1..Len(a) |-> a[y][x]])])
Rows(a, sigma, order) == Eager([y \in 1..Len(a) |-> Smooth1(a[y], sigma, order)])
Smooth(a, s1, s2, o1, o2) == Rows(Transpose(Rows(Transpose(a), s1, o1)), s2, o2)

(* ---- contrast: squared median times rank, at most 1 ---- *)
Sorted(s) == SortSeq(s, LAMBDA a, b : DLt(a, b))
Pixel(a, y, x) == IF y \in 1..Len(a) /\ x \in 1..Len(a[1]) THEN a[y][x] ELSE D0
MedianAt(a, y, x, size) ==
    LET h == size \div 2
    IN  Sorted([k \in 1..(size * size) |-> Pixel(a, y + ((k - 1) \div size) - h, x + ((k - 1) % size) - h)])[(size * size + 1) \div 2]
Pixels(a) == FoldLeft(LAMBDA p, q : p \o q, <<>>, a)
Rank(v, px) == DRat(Cardinality({k \in 1..Len(px) : DLt(px[k], v)}) + 1, Len(px))
Enhanced(a, size) ==
    LET px == Eager(Pixels(a))
        e == Eager([y \in 1..Len(a) |-> Eager([x \in 1..Len(a[1]) |-> DMul(DSq(MedianAt(a, y, x, size)), Rank(a[y][x], px))])])
        top == DMaxAbs(Pixels(e))
    IN  IF DEq(top, D0) THEN e ELSE Eager([y \in 1..Len(a) |-> VScale(DDiv(D1, top), e[y])])

(* ---- cumulative distribution: a staircase from 0 to 1 ---- *)
Thinned(s, steps) ==
    IF steps = 0 \/ Len(s) <= steps THEN s
    ELSE LET d == (Len(s) + steps - 1) \div steps IN [k \in 1..((Len(s) + d - 1) \div d) |-> s[(k - 1) * d + 1]]
CdfX(data, steps) == LET s == Thinned(Sorted(data), steps) IN [k \in 1..(2 * Len(s)) |-> s[(k + 1) \div 2]]
CdfY(data, steps) == LET n == Len(Thinned(Sorted(data), steps)) IN [k \in 1..(2 * n) |-> DRat(k \div 2, n)]
Bell(x, A, mu, sigma) == DMul(A, Gauss(DSub(x, mu), sigma))

(* ---- the file an image is written to: name \o tail, tail possibly the extension ---- *)
FileName(name, tail, digit, ext) ==
    IF digit # "" THEN name \o tail \o "/" \o digit \o "." \o ext
    ELSE IF tail = "." \o ext THEN name \o tail ELSE name \o tail \o "." \o ext
(* ---- discrete Fourier transforms of lines [re, im], cut or filled with zeros to n values ---- *)
Fitted(v, n) == Eager([k \in 1..n |-> IF k <= Len(v) THEN v[k] ELSE D0])
Turn(n, f) == Eager([d \in 1..n |-> f[d]])
Fourier(v, n, inverse) ==
    LET re == Fitted(v.re, n)
        im == Fitted(v.im, n)
        angle(d) == DMul(DMul(D2, DPi), DRat(d, n))
        c == Turn(n, [d \in 1..n |-> DCos(angle(d - 1))])
        s == Turn(n, [d \in 1..n |-> IF inverse THEN DSin(angle(d - 1)) ELSE DNeg(DSin(angle(d - 1)))])
        cs(k) == Eager([j \in 1..n |-> c[1 + (((j - 1) * (k - 1)) % n)]])
        sn(k) == Eager([j \in 1..n |-> s[1 + (((j - 1) * (k - 1)) % n)]])
        part(x) == IF inverse THEN DDiv(x, DInt(n)) ELSE x
    IN [re |-> Eager([k \in 1..n |-> part(DSub(DDot(re, cs(k)), DDot(im, sn(k))))]),
        im |-> Eager([k \in 1..n |-> part(DAdd(DDot(re, sn(k)), DDot(im, cs(k))))])]
(* images [re, im]: the rows, then the columns *)
ByRows(F, n, inverse) ==
    LET f == Eager([y \in 1..Len(F.re) |-> Fourier([re |-> F.re[y], im |-> F.im[y]], n, inverse)]) IN
    [re |-> Eager([y \in 1..Len(F.re) |-> f[y].re]), im |-> Eager([y \in 1..Len(F.re) |-> f[y].im])]
Flip(F) == [re |-> Transpose(F.re), im |-> Transpose(F.im)]
Fourier2(F, m, n, inverse) == Flip(ByRows(Flip(ByRows(F, n, inverse)), m, inverse))

=============================================================================
