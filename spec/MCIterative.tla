----------------------------- MODULE MCIterative -----------------------------
(* The iterative algorithms on a family of small problems: what makes each of   *)
(* them a solver of the problem, independently of how its update is written.     *)
EXTENDS Iterative
CONSTANTS MaxIter, Geos
Algs == {"art", "sirt", "bart", "mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid", "fbp", "grad", "tv", "tikh"}
VARIABLES geo, alg, data, n, x,
          w, b, b0          \* rays, data, consistent data: fixed
vars == <<geo, alg, data, n, x, w, b, b0>>

NX(g) == 2 + (g % 3)
NY(g) == 2 + ((g \div 3) % 2)
DX(g) == 3 + (g % 2)
Theta(g) == [p \in 1..4 |-> DMul(DPi, DRat(7 * p + 3 * g + 1, 31))]
Centre(g) == DAdd(DRat(DX(g), 2), DRat(g % 4, 8))
W0(g) == Flat(System(NX(g), NY(g), Theta(g), DX(g), Centre(g)))
NP(g) == NX(g) * NY(g)
\* some positive image, and consistent or perturbed data
Img(g, c) == Vec(NP(g), LAMBDA k : DRat(1 + ((k * 7 + g + c) % 5), 2))
Flatimg(g) == VConst(NP(g), DRat(3, 2))
Start(g) == Vec(NP(g), LAMBDA k : DRat(2 + (k % 3), 3))
B0(g, ww, c) == IF c = 0 THEN Vec(4 * DX(g), LAMBDA k : DDot(ww[k], Img(g, 0)))
           ELSE Vec(4 * DX(g), LAMBDA k : DMul(DRat(5 + ((k * c) % 4), 6), DDot(ww[k], Img(g, c))))
Opt(g, a, k) == [alg |-> a, nx |-> NX(g), ny |-> NY(g), dx |-> DX(g), n |-> k, nb |-> 2, ord |-> <<3, 1, 4, 2>>,
                 reg |-> <<DRat(1, 10), DRat(1, 2)>>, regdata |-> VConst(NP(g), D1)]

Init == /\ geo \in Geos /\ alg \in Algs /\ data \in 0..2 /\ n = 0
        /\ x = Start(geo)
        /\ w = W0(geo) /\ b = B0(geo, w, data) /\ b0 = B0(geo, w, 0)
Next == /\ n < MaxIter /\ n' = n + 1
        /\ x' = Run(Opt(geo, alg, n + 1), w, b, Start(geo))
        /\ UNCHANGED <<geo, alg, data, w, b, b0>>
Spec == Init /\ [][Next]_vars

Stateless == {"art", "sirt", "bart", "mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid"}
Step(a, bb, y) == Run(Opt(geo, a, 1), w, bb, y)
T == Tol(1)
Sq(v) == DDot(v, v)

\* the weights of a ray add up to its way through the grid
Lengths == n = 0 => \A k \in 1..(4 * DX(geo)) :
    Close(DSum(w[k]), Chord(NX(geo), NY(geo), Theta(geo)[1 + ((k - 1) \div DX(geo))],
                                 RayPos(DX(geo), Centre(geo), (k - 1) % DX(geo))), T, D1)
\* iterating is repeating one iteration, for the algorithms without memory
Compose == (alg \in Stateless /\ n < MaxIter) =>
    VClose(Run(Opt(geo, alg, n + 1), w, b, Start(geo)), Step(alg, b, x), T)
\* the solution of a consistent problem is a fixed point
FixedPoint == n = 0 => \A a \in {"art", "sirt", "bart", "mlem", "osem"} :
    VClose(Step(a, b0, Img(geo, 0)), Img(geo, 0), T)
FixedFlat == n = 0 =>
    LET fb == Vec(4 * DX(geo), LAMBDA k : DDot(w[k], Flatimg(geo))) IN
    \A a \in {"pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid", "tv", "grad"} :
       LET nrm == Norm(w, NP(geo))
           fx == Step(a, fb, Flatimg(geo))
       IN  \A k \in 1..NP(geo) : DLt(D0, nrm[k]) => Near(fx[k], DRat(3, 2), T)
\* the statistical methods stay positive, and mlem reproduces the total of the data
Positive == alg \in {"mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid"} =>
    \A k \in 1..Len(x) : DLeq(D0, x[k])
Mass == (alg = "mlem" /\ n > 0) => Near(DDot(Norm(w, NP(geo)), x), DSum(b), T)
\* art satisfies the equation it has used last
LastRay == (alg = "art" /\ n > 0) =>
    LET last == CHOOSE k \in 1..(4 * DX(geo)) : Hits(w[k]) /\ \A m \in (k + 1)..(4 * DX(geo)) : ~Hits(w[m])
    IN  Close(DDot(w[last], x), b[last], T, D1)
\* one block is no subsets at all; the blocks partition the projections
OneBlock == n = 0 =>
    LET One(a) == Run([Opt(geo, a, 1) EXCEPT !.nb = 1], w, b, x) IN
    /\ VClose(One("bart"), Step("sirt", b, x), T)
    /\ VClose(One("osem"), Step("mlem", b, x), T)
    /\ VClose(One("ospml_quad"), Step("pml_quad", b, x), T)
    /\ VClose(One("ospml_hybrid"), Step("pml_hybrid", b, x), T)
Partition == n = 0 => \A dt \in 1..8 : \A nb \in 1..dt :
    /\ FlattenSeq([q \in 1..nb |-> Block(Iota(dt), nb, q)]) = Iota(dt)
    /\ \A q \in 1..nb, q2 \in 1..nb : Len(Block(Iota(dt), nb, q)) - Len(Block(Iota(dt), nb, q2)) \in -1..1
\* without a penalty the penalized methods are mlem
NoPenalty == (n = 0) =>
    LET tiny == Run([Opt(geo, "pml_quad", 1) EXCEPT !.reg = <<DRat(1, 1000000), D1>>], w, b, x)
        em == Step("mlem", b, x)
        s == Norm(w, NP(geo))
    IN  \A k \in 1..NP(geo) : DLt(DRat(1, 2), s[k]) => Near(tiny[k], em[k], Tol(200))
\* a gradient step decreases the residual
Descent == (alg = "grad" /\ n < MaxIter) =>
    LET res(y) == Sq(Vec(4 * DX(geo), LAMBDA k : DSub(b[k], DDot(w[k], y))))
        nx == Run(Opt(geo, "grad", n + 1), w, b, Start(geo))
    IN  DLeq(res(nx), DMul(res(x), DAdd(D1, T)))
=============================================================================
