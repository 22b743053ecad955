----------------------------- MODULE TraceRecon -----------------------------
(* Recorded calls of project*, recon(<iterative algorithm>) and vector*      *)
(* against Geometry and Iterative.                                           *)
EXTENDS Iterative, Conform

Rays(r, centre, theta) == Flat(System(r.nx, r.ny, theta, r.dx, centre))
Margin == DRat(12, 1000)
Clear(r, theta, cs) == \A s \in 1..Len(cs) : ClearView(r.nx, r.ny, theta, r.dx, cs[s], Margin)

(* ---- project: r.obj[slice] (flat images), r.out[slice][projection][pixel] ---- *)
\* width of the detector that project chooses: the diagonal plus 2, rounded up to even
PadWidth(nx, ny) == LET q == DDiv(DAdd(DSqrt(DInt(nx * nx + ny * ny)), D2), D2)
                        f == DFloor(q)
                    IN  2 * (IF DEq(DInt(f), q) THEN f ELSE f + 1)
Emit(r, v) == IF r.emission THEN v ELSE DExp(DNeg(v))
ShapeOk(out, a, b, c) == /\ Len(out) = a
                         /\ \A i \in 1..a : Len(out[i]) = b /\ \A j \in 1..b : Len(out[i][j]) = c
OutAt(r, s, p) == IF r.sino THEN r.out[s][p] ELSE r.out[p][s]
Width(r) == IF r.pad THEN PadWidth(r.nx, r.ny) ELSE r.nx
ProjShape(r) == IF r.sino THEN ShapeOk(r.out, r.ns, Len(r.theta), Width(r))
                ELSE ShapeOk(r.out, Len(r.theta), r.ns, Width(r))
RowsClose(r, s, w, val(_)) ==
    \A p \in 1..Len(r.theta) :
       VCloseTo(OutAt(r, s, p), Vec(r.dx, LAMBDA d : Emit(r, val(w[(p - 1) * r.dx + d]))), Tol(100), DInt(r.nx + r.ny))
Project(r) ==
    /\ r.dx = Width(r) /\ ProjShape(r)
    /\ \A s \in 1..r.ns : LET w == Rays(r, r.centre[s], r.theta)
                          IN  RowsClose(r, s, w, LAMBDA ray : DDot(ray, r.obj[s]))

\* direction of the rays: the components are projected on it
Vx(th) == DNeg(DCos(th))
Vy(th) == DNeg(DSin(th))
\* slice s of a cubic volume v (v[slice] flat) seen along another axis
View(v, n, axis, s) ==
    Vec(n * n, LAMBDA k : LET i == (k - 1) \div n
                              j == (k - 1) % n
                          IN  CASE axis = 0 -> v[s][k]
                                [] axis = 1 -> v[j + 1][i * n + s]
                                [] axis = 2 -> v[j + 1][(s - 1) * n + i + 1])
Components(r, axis) == CASE axis = 0 -> <<r.objx, r.objy>> [] axis = 1 -> <<r.objy, r.objz>> [] axis = 2 -> <<r.objx, r.objz>>
ProjectV(r, a, b, axis) ==
    /\ r.dx = Width(r) /\ ProjShape(r)
    /\ \A s \in 1..r.ns :
         LET w == Rays(r, r.centre[s], r.theta)
             xa == IF axis = 0 THEN a[s] ELSE View(a, r.nx, axis, s)
             xb == IF axis = 0 THEN b[s] ELSE View(b, r.nx, axis, s)
         IN  \A p \in 1..Len(r.theta) :
               VCloseTo(OutAt(r, s, p),
                      Vec(r.dx, LAMBDA d : LET ray == w[(p - 1) * r.dx + d] IN
                            Emit(r, DAdd(DMul(Vx(r.theta[p]), DDot(ray, xa)), DMul(Vy(r.theta[p]), DDot(ray, xb))))),
                      Tol(100), DInt(r.nx + r.ny))

(* ---- recon: r.data[slice or projection]..., r.init[slice], r.out[slice] ---- *)
Sino(data, sino, s, dt) == Flat([p \in 1..dt |-> IF sino THEN data[s][p] ELSE data[p][s]])
Opt(r, s) == [alg |-> r.alg, nx |-> r.nx, ny |-> r.ny, dx |-> r.dx, n |-> r.n, nb |-> r.nb,
              ord |-> [k \in 1..Len(r.ord) |-> r.ord[k] + 1], reg |-> r.reg,
              regdata |-> IF r.regdata = <<>> THEN VConst(r.nx * r.ny, D0) ELSE r.regdata[s]]
ReconSlice(r, s) ==
    LET w == Rays(r, r.centre[s], r.theta)
    IN  Run(Opt(r, s), w, Sino(r.data, r.sino, s, Len(r.theta)), r.init[s])
Recon(r) == /\ Len(r.out) = r.ns
            /\ \A s \in 1..r.ns : VClose(r.out[s], ReconSlice(r, s), Tol(r.tol))

(* ---- vector tomography: like SIRT on the two components perpendicular to the axis ---- *)
\* one pass of data set t over slice s: the increments of the two components
VecPass(r, t, s, xa, xb) ==
    LET th == r.thetas[t]
        w == Rays(r, r.centres[t][s], th)
        b == Sino(r.datas[t], FALSE, s, Len(th))
        vx(k) == Vx(th[1 + ((k - 1) \div r.dx)])
        vy(k) == Vy(th[1 + ((k - 1) \div r.dx)])
        u == Vec(Len(w), LAMBDA k : Ratio(DSub(b[k], DAdd(DMul(vx(k), DDot(w[k], xa)), DMul(vy(k), DDot(w[k], xb)))),
                                          DDot(w[k], w[k]), w[k]))
        n == Norm(w, r.nx * r.ny)
    IN  <<VAdd(xa, Divided(DComb(Vec(Len(w), LAMBDA k : DMul(u[k], vx(k))), w), n)),
          VAdd(xb, Divided(DComb(Vec(Len(w), LAMBDA k : DMul(u[k], vy(k))), w), n))>>
\* put the view of slice s along the axis back into volume v
Unview(v, n, axis, s, img) ==
    IF axis = 0 THEN [v EXCEPT ![s] = img]
    ELSE Eager([q \in 1..n |-> Vec(n * n, LAMBDA k :
            LET i == (k - 1) \div n
                j == (k - 1) % n
            IN  IF axis = 1 THEN (IF j + 1 = s THEN img[i * n + q] ELSE v[q][k])
                ELSE (IF i + 1 = s THEN img[j * n + q] ELSE v[q][k]))])
CompIdx(axis) == CASE axis = 0 -> <<1, 2>> [] axis = 1 -> <<2, 3>> [] axis = 2 -> <<1, 3>>
VecSlice(r, t, axis, s, vs) ==
    LET c == CompIdx(axis)
        res == VecPass(r, t, s, View(vs[c[1]], r.nx, axis, s), View(vs[c[2]], r.nx, axis, s))
    IN  [vs EXCEPT ![c[1]] = Unview(@, r.nx, axis, s, res[1]), ![c[2]] = Unview(@, r.nx, axis, s, res[2])]
VecSet(r, t, vs) == FoldLeft(LAMBDA y, s : VecSlice(r, t, r.axes[t], s, y), vs, Iota(r.ns))
VecIter(r, vs) == FoldLeft(LAMBDA y, t : VecSet(r, t, y), vs, Iota(Len(r.axes)))
Zeros(r) == Eager([s \in 1..r.ns |-> VConst(r.nx * r.ny, D0)])
VecRun(r) == Times(LAMBDA y : VecIter(r, y), <<Zeros(r), Zeros(r), Zeros(r)>>, r.n)
Vector(r) == LET want == VecRun(r) IN
    LET top == DMaxAbs([c \in 1..3 |-> DMaxAbs([s \in 1..r.ns |-> DMaxAbs(want[c][s])])]) IN
    \A c \in 1..Len(r.out) : \A s \in 1..r.ns : VCloseTo(r.out[c][s], want[c][s], Tol(r.tol), top)

Geoms(r) == IF r.op \in {"vector", "vector2", "vector3"}
            THEN \A t \in 1..Len(r.thetas) : Clear(r, r.thetas[t], r.centres[t])
            ELSE Clear(r, r.theta, r.centre)
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE ~Assert(Geoms(r), <<"unclear geometry", pos>>) -> {"unclear"}
           [] r.op = "project" -> Clause("project", Project(r))
           [] r.op = "project2" -> Clause("project2", ProjectV(r, r.objx, r.objy, 0))
           [] r.op = "project3" -> LET c == Components(r, r.axis) IN Clause("project3", ProjectV(r, c[1], c[2], r.axis))
           [] r.op = "recon" -> Clause("recon", Recon(r)) \cup Clause("dtype", r.dtype = "float32")
           [] r.op \in {"vector", "vector2", "vector3"} -> Clause("vector", Vector(r))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
