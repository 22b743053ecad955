------------------------------ MODULE Normalize ------------------------------
(***************************************************************************)
(* Flat/dark field, background and region normalisation, as equations on   *)
(* integers: data are integers, results come as floor-free fixed point     *)
(* numbers (value * Scale, rounded), checked by cross multiplication.      *)
(***************************************************************************)
EXTENDS Arrays

Scale == 65536
Cap == 1073741824        \* stands for anything larger in a trace

(* average of a stack of images at pixel (j, k): <<numerator, denominator>> *)
Column(st, j, k, lo, hi) == [i \in lo..hi |-> At(st, i, j, k)]
Avg(st, j, k, how, lo, hi) ==
    LET c == Column(st, j, k, lo, hi)
        n == hi - lo + 1
    IN  IF how = "mean" THEN <<SumSeq([i \in 1..n |-> c[lo + i - 1]]), n>>
        ELSE IF n % 2 = 1 THEN <<Rank(c, n \div 2), 1>>
        ELSE <<Rank(c, n \div 2) + Rank(c, n \div 2 - 1), 2>>

(* out = (v - dark) / (flat - dark), flat <= dark counting as one millionth *)
Tol == 3
NormOk(v, f, d, cut, o, o6) ==
    LET num == v * d[2] - d[1]                       \* over d[2]
        den == f[1] * d[2] - d[1] * f[2]             \* over f[2] * d[2]
        capped(val, lim) == IF cut[1] THEN MinI(val, lim) ELSE val
    IN  IF den > 0
        THEN \* o = Scale * num * f[2] / den, capped
             LET big == cut[1] /\ num * f[2] * 4 > cut[2] * den     \* above cutoff = cut[2] / 4
             IN  IF big THEN Abs(4 * o - Scale * cut[2]) <= 4 * Tol
                 ELSE Abs(o * den - Scale * num * f[2]) <= (Tol + Abs(o) \div 131072) * den
        ELSE \* value = 10^6 * num / d[2];   o6 = Scale * value / 10^6
             IF cut[1] /\ num > 0 THEN Abs(4 * o - Scale * cut[2]) <= 4 * Tol
             ELSE Abs(o6 * d[2] - Scale * num) <= Tol * d[2]

(* the set of flats nearest to projection p; either one if p is halfway *)
NearestSets(p, loc) == {m \in DOMAIN loc : \A q \in DOMAIN loc : Abs(p - loc[m]) <= Abs(p - loc[q])}

(* background: the air level falls linearly from the left to the right edge *)
AirSum(a, i, j, n, left) ==
    SumSeq([q \in 1..n |-> At(a, i, j, IF left THEN q - 1 ELSE a.sh[3] - q)])
AirLevel(s, n) == IF s <= 0 THEN n ELSE s           \* over n; not positive: one
BgOk(a, air, i, j, k, o) ==
    LET L == AirLevel(AirSum(a, i, j, air, TRUE), air)
        R == AirLevel(AirSum(a, i, j, air, FALSE), air)
        w == a.sh[3] - 1
        num == At(a, i, j, k) * air * w
        den == L * (w - k) + R * k
    IN  Abs(o * den - Scale * num) <= Tol * den

(* region: every image divided by its mean over the region, unless that is zero *)
RoiOk(a, roi, i, j, k, o) ==
    LET P == {<<y, x>> \in (0..(a.sh[2] - 1)) \X (0..(a.sh[3] - 1)) :
                y >= roi[1] /\ x >= roi[2] /\ y < roi[3] /\ x < roi[4]}
        s == SumOver([p \in P |-> At(a, i, p[1], p[2])], P)
        n == Cardinality(P)
        v == At(a, i, j, k)
    IN  IF s = 0 THEN o = Scale * v
        ELSE Abs(o * s - Scale * v * n) <= Tol * Abs(s)

(* natural logarithms * Scale *)
Ln == <<45426, 71999, 105476, 127527>>          \* 2, 3, 5, 7
MinusLog(e) == -(e[1] * Ln[1] + e[2] * Ln[2] + e[3] * Ln[3] + e[4] * Ln[4])
=============================================================================
