------------------------------ MODULE Simulate ------------------------------
(***************************************************************************)
(* Simulated data: projection angles, artefacts and noise, phantoms.       *)
(*                                                                         *)
(* What is drawn at random is the environment's choice; the operators say  *)
(* which choices there are, and bound (at six standard deviations) how far *)
(* a sample may be from its distribution.  Data are sequences of reals in  *)
(* row-major order, sh its three dimensions.                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt
Numel(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
Rsum(n, f(_)) == DSum([k \in 1..n |-> f(k)])
DegToRad(a) == DDiv(DMul(a, DPi), DInt(180))
\* n values from a to b
Even(a, b, n, k) == IF n = 1 THEN a ELSE DAdd(a, DDiv(DMul(DSub(b, a), DInt(k - 1)), DInt(n - 1)))
AnglesOf(n, a, b) == [k \in 1..n |-> Even(DegToRad(a), DegToRad(b), n, k)]

(* ---- illumination drift: the factor of projection m = 1..n ---- *)
Drift(n, amp, period, mean) ==
    [m \in 1..n |-> DAdd(DAdd(DMul(amp, DSin(DDiv(DMul(DMul(D2, DPi), DInt(m - 1)), period))), mean), Even(D0, D1, n, m))]
Slab(sh) == sh[2] * sh[3]
Drifted(x, sh, amp, period, mean) ==
    LET d == Eager(Drift(sh[1], amp, period, mean))
    IN  [k \in 1..Len(x) |-> DMul(x[k], d[((k - 1) \div Slab(sh)) + 1])]

(* ---- samples ---- *)
Step(sh, ax) == CASE ax = 1 -> sh[2] * sh[3] [] ax = 2 -> sh[3] [] ax = 3 -> 1
\* the elements that have a successor along an axis
HasNext(sh, ax, k) == (((k - 1) \div Step(sh, ax)) % sh[ax]) < sh[ax] - 1
Pairs(sh, ax) == (Numel(sh) \div sh[ax]) * (sh[ax] - 1)
Six == DInt(6)
\* a value with expectation e and variance v (c for the discreteness)
Expected(a, e, v, c) == DLeq(DAbs(DSub(a, e)), DAdd(DMul(Six, DSqrt(v)), c))
\* independent standard normal variables
Standard(z, sh) ==
    LET n == Len(z) IN
    /\ Expected(DSum(z), D0, DInt(n), DRat(1, 100))
    /\ Expected(Rsum(n, LAMBDA k : DSq(z[k])), DInt(n), DInt(2 * n), D1)
    /\ \A ax \in 1..3 : Expected(Rsum(n, LAMBDA k : IF HasNext(sh, ax, k) THEN DMul(z[k], z[k + Step(sh, ax)]) ELSE D0),
                                 D0, DInt(Pairs(sh, ax)), D1)
\* independent events of probability f
Independent(hit, sh, f) ==
    LET n == Len(hit)
        v == DMul(f, DSub(D1, f))
        f2 == DSq(f)
    IN  /\ Expected(DInt(Cardinality({k \in 1..n : hit[k]})), DMul(DInt(n), f), DMul(DInt(n), v), D1)
        /\ \A ax \in 1..3 :
             Expected(DInt(Cardinality({k \in 1..n : HasNext(sh, ax, k) /\ hit[k] /\ hit[k + Step(sh, ax)]})),
                      DMul(DInt(Pairs(sh, ax)), f2),
                      \* neighbouring pairs share an element
                      DMul(DInt(Pairs(sh, ax)), DAdd(DMul(f2, DSub(D1, f2)), DMul(D2, DMul(f2, DMul(f, DSub(D1, f)))))), D1)

\* the same of many elements: e counts the events, those in the first half of each axis, those at neighbours along it
ManyIndependent(e, sh, f) ==
    LET n == Numel(sh)
        v == DMul(f, DSub(D1, f))
        f2 == DSq(f)
    IN  /\ Expected(DInt(e.count), DMul(DInt(n), f), DMul(DInt(n), v), D1)
        /\ \A ax \in 1..3 : Expected(DInt(e.half[ax]), DMul(DInt(n \div 2), f), DMul(DInt(n \div 2), v), D1)
        /\ \A ax \in 1..3 :
             Expected(DInt(e.pairs[ax]), DMul(DInt(Pairs(sh, ax)), f2),
                      DMul(DInt(Pairs(sh, ax)), DAdd(DMul(f2, DSub(D1, f2)), DMul(D2, DMul(f2, v)))), D1)
\* sums of powers of n standard normal variables, and of the products of neighbours
ManyStandard(r) ==
    LET n == Numel(r.sh)
        m == <<0, 1, 0, 3>>
        v == <<1, 2, 15, 96>>
    IN  /\ \A k \in 1..4 : Expected(r.sums[k], DMul(DInt(n), DInt(m[k])), DMul(DInt(n), DInt(v[k])), D1)
        /\ \A ax \in 1..3 : Expected(r.next[ax], D0, DInt(Pairs(r.sh, ax)), D1)
\* of n Poisson variables less their expectation l
ManyPoisson(r) ==
    LET n == DInt(Numel(r.sh))
        l == r.lam
        l2 == DSq(l)
        l3 == DMul(l, l2)
    IN  /\ Expected(r.sums[1], D0, DMul(n, l), D1)
        /\ Expected(r.sums[2], DMul(n, l), DMul(n, DAdd(l, DMul(D2, l2))), D1)
        /\ Expected(r.sums[3], DMul(n, l), DMul(n, DAdd(l, DAdd(DMul(DInt(24), l2), DMul(DInt(15), l3)))), D1)
        /\ \A ax \in 1..3 : Expected(r.next[ax], D0, DMul(DInt(Pairs(r.sh, ax)), l2), D1)

\* values replaced by c with probability f
Struck(x, y, sh, f, c) ==
    /\ Len(y) = Len(x)
    /\ \A k \in 1..Len(x) : DEq(y[k], x[k]) \/ DEq(y[k], c)
    /\ Independent([k \in 1..Len(x) |-> DEq(y[k], c)], sh, f)
Largest(x) == x[CHOOSE k \in 1..Len(x) : \A j \in 1..Len(x) : DLeq(x[j], x[k])]

Noisy(x, y, sh, mean, std) ==
    /\ Len(y) = Len(x)
    /\ IF DEq(std, D0) THEN \A k \in 1..Len(x) : Near(y[k], DAdd(x[k], mean), Tol(1))
       ELSE Standard([k \in 1..Len(x) |-> DDiv(DSub(DSub(y[k], x[k]), mean), std)], sh)
\* for expectations that are not small
Poisson(x, y, sh) ==
    /\ Len(y) = Len(x)
    /\ \A k \in 1..Len(x) : DLeq(D0, y[k]) /\ DEq(y[k], DInt(DFloor(y[k]))) /\ (DEq(x[k], D0) => DEq(y[k], D0))
    /\ (\A k \in 1..Len(x) : DLeq(DInt(30), x[k])) =>
          Standard([k \in 1..Len(x) |-> DDiv(DSub(y[k], x[k]), DSqrt(x[k]))], sh)
\* every pixel has a sensitivity of its own, the same at all angles (x positive)
Sensitivity(x, y, k) == DDiv(y[k], x[k])
Ringed(x, y, sh, std) ==
    /\ Len(y) = Len(x)
    /\ \A k \in (Slab(sh) + 1)..Len(x) : Near(Sensitivity(x, y, k), Sensitivity(x, y, ((k - 1) % Slab(sh)) + 1), Tol(5))
    /\ IF DEq(std, D0) THEN \A k \in 1..Len(x) : Near(x[k], y[k], Tol(1))
       ELSE Standard([k \in 1..Slab(sh) |-> DDiv(DSub(Sensitivity(x, y, k), D1), std)], <<1, sh[2], sh[3]>>)

(***************************************************************************)
(* phantoms: ellipsoids [A, axes, centre, phi, theta, psi] in a cube whose *)
(* coordinates run from -1 to 1 along every side                           *)
(***************************************************************************)
Rotation3(e) ==
    LET cf == DCos(DegToRad(e.phi))     sf == DSin(DegToRad(e.phi))
        ct == DCos(DegToRad(e.theta))   st == DSin(DegToRad(e.theta))
        cp == DCos(DegToRad(e.psi))     sp == DSin(DegToRad(e.psi))
        m3(a, b, c) == DMul(a, DMul(b, c))
    IN  Eager(<< <<DSub(DMul(cp, cf), m3(ct, sf, sp)), DAdd(DMul(cp, sf), m3(ct, cf, sp)), DMul(sp, st)>>,
           <<DSub(DNeg(DMul(sp, cf)), m3(ct, sf, cp)), DAdd(DNeg(DMul(sp, sf)), m3(ct, cf, cp)), DMul(cp, st)>>,
           <<DMul(st, sf), DNeg(DMul(st, cf)), ct>> >>)
Coordinate(k, n) == Even(DInt(-1), D1, n, k)
\* how far from the centre, in units of the half axes, squared
Distance2(e, M, p) == Rsum(3, LAMBDA a : DSq(DDiv(DSub(DDot(M[a], p), e.centre[a]), e.axes[a])))
Rim == DRat(1, 1000000000)
\* the values a voxel may have: on the surface, but for rounding, either is right
RECURSIVE Voxel(_, _, _, _)
Voxel(es, Ms, p, k) ==
    IF k = 0 THEN {D0}
    ELSE LET d == Distance2(es[k], Ms[k], p)
             V == Voxel(es, Ms, p, k - 1)
         IN  (IF DLeq(d, DAdd(D1, Rim)) THEN {DAdd(v, es[k].A) : v \in V} ELSE {})
             \cup (IF DLeq(DSub(D1, Rim), d) THEN V ELSE {})
IsPhantom(es, sh, y, clipped, tol) ==
    LET Ms == Eager([k \in 1..Len(es) |-> Rotation3(es[k])]) IN
    /\ Len(y) = Numel(sh)
    /\ \A k \in 1..Len(y) :
        LET p == <<Coordinate(((k - 1) \div (sh[2] * sh[3])) + 1, sh[1]), Coordinate((((k - 1) \div sh[3]) % sh[2]) + 1, sh[2]),
                   Coordinate(((k - 1) % sh[3]) + 1, sh[3])>>
        IN  \E v \in Voxel(es, Ms, p, Len(es)) : DLeq(DAbs(DSub(y[k], IF clipped THEN DMax(v, D0) ELSE v)), tol)

\* the modified Shepp-Logan phantom, in ten thousandths and degrees
SheppTable == <<
    <<10000, 6900, 9200, 8100, 0, 0, 0, 90, 90, 90>>,
    <<-8000, 6624, 8740, 7800, 0, -184, 0, 90, 90, 90>>,
    <<-2000, 1100, 3100, 2200, 2200, 0, 0, -108, 90, 100>>,
    <<-2000, 1600, 4100, 2800, -2200, 0, 0, 108, 90, 100>>,
    <<1000, 2100, 2500, 4100, 0, 3500, -1500, 90, 90, 90>>,
    <<1000, 460, 460, 500, 0, 1000, 2500, 90, 90, 90>>,
    <<1000, 460, 460, 500, 0, -1000, 2500, 90, 90, 90>>,
    <<1000, 460, 230, 500, -800, -6050, 0, 90, 90, 90>>,
    <<1000, 230, 230, 200, 0, -6060, 0, 90, 90, 90>>,
    <<1000, 230, 460, 200, 600, -6050, 0, 90, 90, 90>> >>
Shepp == [k \in 1..Len(SheppTable) |->
    LET t == SheppTable[k]
        u(i) == DRat(t[i], 10000)
    IN  [A |-> u(1), axes |-> <<u(2), u(3), u(4)>>, centre |-> <<u(5), u(6), u(7)>>,
         phi |-> DInt(t[8]), theta |-> DInt(t[9]), psi |-> DInt(t[10])]]
=============================================================================
