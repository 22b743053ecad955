------------------------------ MODULE Stripes3D ------------------------------
(***************************************************************************)
(* Detection of stripes in projection data (angle z, row y, column x).     *)
(* Arrays as in Arrays.tla, indices <<z, y, x>>.                           *)
(***************************************************************************)
EXTENDS Arrays, Num

(* mirrored at the border without repeating it; the element itself if the axis is too
   short for that *)
Step(i, s, n) == IF i + s \in 0..(n - 1) THEN i + s
                 ELSE IF i - s \in 0..(n - 1) THEN i - s ELSE i

(* ---- weights: r is the radius of the stencil, size the half length of the rank filter ---- *)
\* absolute difference over two columns
Jump(a) == MkArr(a.sh, LAMBDA p : Abs(At(a, p[1], p[2], Step(p[3], 2, a.sh[3])) - AtI(a, p)))
SumF(S, F(_)) == SumOver([q \in S |-> F(q)], S)
\* along the stripe, to the right and to the left
Along(g, p, r) == SumF(((-r)..r) \X ((-r)..r), LAMBDA q : At(g, Step(p[1], q[1], g.sh[1]), Step(p[2], q[2], g.sh[2]), p[3]))
Across(g, p, ds) == SumF((-1..1) \X ds, LAMBDA q : At(g, p[1], Step(p[2], q[1], g.sh[2]), Step(p[3], q[2], g.sh[3])))
\* the smaller mean divided by the larger
Ratio(m, n, c, d) ==             \* of m / c and n / d
    IF m = 0 /\ n = 0 THEN D0
    ELSE LET u == DRat(m, c)
             v == DRat(n, d)
         IN  DDiv(DMin(u, v), DMax(u, v))
RatioAt(g, p, r) ==
    LET pl == Along(g, p, r)
        w == (2 * r + 1) * (2 * r + 1)
    IN  DMin(Ratio(pl, Across(g, p, 1..r), w, 3 * r), Ratio(pl, Across(g, p, (-r)..(-1)), w, 3 * r))
Ratios(a, r) == LET g == MkArr(a.sh, LAMBDA p : AtI(Jump(a), p)) IN
                [sh |-> a.sh, v |-> Eager(MkArr(a.sh, LAMBDA p : RatioAt(g, p, r)).v)]
\* the window of 2 size + 1 angles, mirrored; the value just below its median
Window(t, p, size) == [q \in (-size)..size |->
    At(t, IF p[1] + q \in 0..(t.sh[1] - 1) THEN p[1] + q ELSE p[1] - q, p[2], p[3])]
IsDRank(v, w, k) == /\ Cardinality({q \in DOMAIN w : DLt(w[q], v)}) <= k
                    /\ Cardinality({q \in DOMAIN w : DLeq(w[q], v)}) > k
DRank(w, k) == w[CHOOSE q \in DOMAIN w : IsDRank(w[q], w, k)]
Weights(a, size, r) == LET t == Ratios(a, r) IN
    MkArr(a.sh, LAMBDA p : DRank(Window(t, p, size), size - 1))

(* ---- mask: from weights (integers) ---- *)
Candidates(a, thr) == MkArr(a.sh, LAMBDA p : AtI(a, p) <= thr)
Turned(i, s, n) == IF i + s \in 0..(n - 1) THEN i + s ELSE i - s
CountZ(m, p, h) == Cardinality({q \in (-h)..h : At(m, Turned(p[1], q, m.sh[1]), p[2], p[3])})
CountY(m, p, h) == Cardinality({q \in (-h)..h : At(m, p[1], Turned(p[2], q, m.sh[2]), p[3])})
\* stripes are not deep: what extends over more rows is a feature of the sample
Shallow(m, depth, sens) ==
    MkArr(m.sh, LAMBDA p : AtI(m, p) /\ (depth = 0 \/ CountY(m, p, depth \div 2) <= (sens * depth) \div 100))
\* and they are long
Long(m, len, sens) == MkArr(m.sh, LAMBDA p : AtI(m, p) /\ CountZ(m, p, len \div 2) >= (sens * len) \div 100)
NotShort(m, len) == MkArr(m.sh, LAMBDA p : AtI(m, p) /\ CountZ(m, p, len \div 2) >= len \div 2)
\* gaps between stripes are closed: to the left and right, or above and below
Merge1(m, width) ==
    LET h == width \div 2
        v == 2 * width
        L(p) == \E x \in 0..h : At(m, p[1], p[2], IF p[3] - x >= 0 THEN p[3] - x ELSE p[3] + x)
        R(p) == \E x \in 0..h : At(m, p[1], p[2], IF p[3] + x < m.sh[3] THEN p[3] + x ELSE p[3] - x)
        U(p) == \E x \in 0..v : At(m, Step(p[1], -x, m.sh[1]), p[2], p[3])
        D(p) == \E x \in 0..v : At(m, Step(p[1], x, m.sh[1]), p[2], p[3])
    IN  MkArr(m.sh, LAMBDA p : AtI(m, p) \/ (L(p) /\ R(p)) \/ (U(p) /\ D(p)))
Forced(m) == [sh |-> m.sh, v |-> Eager(m.v)]
RECURSIVE Merge(_, _, _)
Merge(m, width, n) == IF n = 0 THEN m ELSE Merge(Forced(Merge1(m, width)), width, n - 1)
MaskOf(a, thr, len, depth, width, sens) ==
    LET c == Forced(Candidates(a, thr))
        s == Forced(Shallow(c, depth, sens))
        l == Forced(Long(s, len, sens))
        n == Forced(NotShort(l, len))
    IN  Merge(n, width, width)
=============================================================================
