----------------------------- MODULE Iterative -----------------------------
(***************************************************************************)
(* The iterative reconstruction algorithms, one slice, as state machines:  *)
(* the state is the image (and what the algorithm remembers), a step is    *)
(* one iteration.                                                          *)
(*                                                                         *)
(* w: the rays (weight vectors, see Geometry) in the order projection by   *)
(*    projection, detector pixel by detector pixel;  b: the measurements   *)
(*    in the same order;  dx rays per projection.                          *)
(***************************************************************************)
EXTENDS Geometry, SequencesExt

Flat(m) == FlattenSeq(m)
Iota(n) == [k \in 1..n |-> k]
\* the rays of the projections in the sequence ps
RaysOf(ps, dx) == Eager([k \in 1..(Len(ps) * dx) |-> (ps[1 + ((k - 1) \div dx)] - 1) * dx + 1 + ((k - 1) % dx)])
Pick(v, ks) == Eager([k \in 1..Len(ks) |-> v[ks[k]]])

Hits(ray) == \E k \in 1..Len(ray) : DLt(D0, ray[k])
\* data / model, 0 for a ray that meets no pixel
\* (nor do rays through an empty image: what is left there stays empty)
Ratio(a, b, ray) == IF Hits(ray) /\ ~DEq(b, D0) THEN DDiv(a, b) ELSE D0

(* ---- algebraic ---- *)
ArtRay(x, ray, a) == IF Hits(ray) THEN VAxpy(x, DDiv(DSub(a, DDot(ray, x)), DDot(ray, ray)), ray) ELSE x
Art(x, w, b) == FoldLeft(LAMBDA y, k : ArtRay(y, w[k], b[k]), x, Iota(Len(w)))

\* update with a subset of the rays at once
Norm(w, n) == IF w = <<>> THEN VConst(n, D0) ELSE DComb(VConst(Len(w), D1), w)
Divided(u, s) == Eager([k \in 1..Len(u) |-> IF DEq(s[k], D0) THEN D0 ELSE DDiv(u[k], s[k])])
Residuals(x, w, b) == Eager([k \in 1..Len(w) |-> Ratio(DSub(b[k], DDot(w[k], x)), DDot(w[k], w[k]), w[k])])
SirtBlock(x, w, b) == IF w = <<>> THEN x
                      ELSE VAdd(x, Divided(DComb(Residuals(x, w, b), w), Norm(w, Len(x))))

(* ---- statistical ---- *)
Ratios(x, w, b) == Eager([k \in 1..Len(w) |-> Ratio(b[k], DDot(w[k], x), w[k])])
EmBlock(x, w, b) ==
    IF w = <<>> THEN x
    ELSE LET s == Norm(w, Len(x))
             u == DComb(Ratios(x, w, b), w)
         IN  Eager([k \in 1..Len(x) |-> IF DEq(s[k], D0) THEN x[k] ELSE DMul(x[k], DDiv(u[k], s[k]))])

\* neighbours of pixel k: <<index, weight>>, the weights sum to one
Neigh(nx, ny, k) ==
    LET i == (k - 1) \div ny
        j == (k - 1) % ny
        near == {q \in ((i - 1)..(i + 1)) \X ((j - 1)..(j + 1)) :
                    q # <<i, j>> /\ q[1] \in 0..(nx - 1) /\ q[2] \in 0..(ny - 1)}
        W(q) == IF q[1] = i \/ q[2] = j THEN D1 ELSE DDiv(D1, DSqrt(D2))
        s == SetToSeq(near)
        tot == DSum(Eager([m \in 1..Len(s) |-> W(s[m])]))
    IN  Eager([m \in 1..Len(s) |-> <<s[m][1] * ny + s[m][2] + 1, DDiv(W(s[m]), tot)>>])

\* penalized likelihood, gam(t): weight of a difference t between neighbours
PmlBlock(x, w, b, nx, ny, beta, gam(_)) ==
    LET s == Norm(w, Len(x))
        u == IF w = <<>> THEN VConst(Len(x), D0) ELSE DComb(Ratios(x, w, b), w)
        New(k) ==
          LET nb == Neigh(nx, ny, k)
              c(m) == DMul(DMul(DMul(D2, beta), nb[m][2]), gam(DAbs(DSub(x[k], x[nb[m][1]]))))
              E == DNeg(DMul(x[k], u[k]))
              F == DSum(Eager([m \in 1..Len(nb) |-> c(m)]))
              G == DSub(s[k], DSum(Eager([m \in 1..Len(nb) |-> DMul(c(m), DAdd(x[k], x[nb[m][1]]))])))
          IN  IF DEq(F, D0) THEN x[k]
              ELSE DDiv(DSub(DSqrt(DSub(DMul(G, G), DMul(DMul(DInt(8), E), F))), G), DMul(DInt(4), F))
    IN  Vec(Len(x), New)

(* ---- ordered subsets: the projections in the order ord, in nb blocks of equal size,
   the first ones larger by one if they do not divide ---- *)
BlockSize(dt, nb, q) == (dt \div nb) + (IF q <= dt % nb THEN 1 ELSE 0)
BlockFrom(dt, nb, q) == (q - 1) * (dt \div nb) + (IF q - 1 <= dt % nb THEN q - 1 ELSE dt % nb) + 1
Block(ord, nb, q) == LET dt == Len(ord)
                         f == BlockFrom(dt, nb, q)
                     IN  SubSeq(ord, f, f + BlockSize(dt, nb, q) - 1)
Subsets(x, w, b, dx, ord, nb, step(_, _, _)) ==
    FoldLeft(LAMBDA y, q : LET ks == RaysOf(Block(ord, nb, q), dx)
                           IN  step(y, Pick(w, ks), Pick(b, ks)), x, Iota(nb))

(* ---- gradient methods: work on the scaled image x / r, r^2 = 2 / (dx dt) ---- *)
Scale(nr) == DDiv(D1, DSqrt(DRat(nr, 2)))
\* gradient of |r W x - b|^2 + reg |x - x0|^2
Gradient(x, w, b, r, reg, x0) ==
    LET u == Eager([k \in 1..Len(w) |-> DMul(DMul(D2, r), DSub(DMul(r, DDot(w[k], x)), b[k]))])
    IN  VAxpy(DComb(u, w), DMul(D2, reg), VSub(x, x0))
\* state: x, and the image and gradient of the previous iteration (<<>> before the first)
GradStep(st, w, b, r, step, reg, x0) ==
    LET g == Gradient(st.x, w, b, r, reg, x0)
        dg == VSub(g, st.g)
        lam == IF DLeq(D0, step) THEN step
               ELSE IF st.g = <<>> THEN DRat(1, 1000)
               ELSE IF DEq(DDot(dg, dg), D0) THEN D0      \* it has converged
               ELSE DDiv(DDot(VSub(st.x, st.px), dg), DDot(dg, dg))
    IN  [x |-> VAxpy(st.x, DNeg(lam), g), px |-> st.x, g |-> g]

\* Chambolle-Pock, total variation.  state: x (overrelaxed), u (image), gx, gy, pr (dual)
TvC == DRat(35, 100)
TvStart(x, nr) == [x |-> x, u |-> x, gx |-> VConst(Len(x), D0), gy |-> VConst(Len(x), D0), pr |-> VConst(nr, D0)]
TvStep(st, w, b, r, nx, ny, lam) ==
    LET I(k) == (k - 1) \div ny
        J(k) == (k - 1) % ny
        In(k) == I(k) < nx - 1 /\ J(k) < ny - 1
        g1 == Vec(nx * ny, LAMBDA k : IF In(k) THEN DAdd(st.gx[k], DMul(TvC, DSub(st.x[k + 1], st.x[k]))) ELSE st.gx[k])
        g2 == Vec(nx * ny, LAMBDA k : IF In(k) THEN DAdd(st.gy[k], DMul(TvC, DSub(st.x[k + ny], st.x[k]))) ELSE st.gy[k])
        sc == Vec(nx * ny, LAMBDA k : IF In(k) THEN DMax(D1, DDiv(DSqrt(DAdd(DSq(g1[k]), DSq(g2[k]))), lam)) ELSE D1)
        gx == Vec(nx * ny, LAMBDA k : DDiv(g1[k], sc[k]))
        gy == Vec(nx * ny, LAMBDA k : DDiv(g2[k], sc[k]))
        pr == Vec(Len(w), LAMBDA k : DDiv(DAdd(st.pr[k], DMul(TvC, DSub(DMul(r, DDot(w[k], st.x)), b[k]))), DAdd(D1, TvC)))
        adj == DComb(VScale(r, pr), w)
        dv(k) == DAdd(IF J(k) = 0 THEN gx[k] ELSE DSub(gx[k], gx[k - 1]),
                      IF I(k) = 0 THEN gy[k] ELSE DSub(gy[k], gy[k - ny]))
        u == Vec(nx * ny, LAMBDA k : DAdd(st.u[k], DMul(TvC, DSub(dv(k), adj[k]))))
    IN  [x |-> Vec(nx * ny, LAMBDA k : DSub(DMul(D2, u[k]), st.u[k])), u |-> u, gx |-> gx, gy |-> gy, pr |-> pr]

(* ---- back projection (the "fbp" algorithm applies no filter) ---- *)
BackProject(x, w, b) == VAdd(x, DComb(b, w))

(* ---- n iterations of algorithm o.alg.
   o: [alg, nx, ny, dx, n, nb, ord, reg, regdata] ---- *)
Times(f(_), x, n) == FoldLeft(LAMBDA y, k : f(y), x, Iota(n))
Ordered == {"bart", "osem", "ospml_quad", "ospml_hybrid"}
Run(o, w, b, x) ==
    LET dt == Len(w) \div o.dx
        nb == IF o.alg \in Ordered THEN o.nb ELSE 1
        ord == IF nb = 1 THEN Iota(dt) ELSE o.ord
        OS(step(_, _, _)) == Times(LAMBDA y : Subsets(y, w, b, o.dx, ord, nb, step), x, o.n)
        r == Scale(Len(w))
        x0 == VScale(DDiv(D1, r), x)
    IN  CASE o.alg = "art" -> Times(LAMBDA y : Art(y, w, b), x, o.n)
          [] o.alg \in {"sirt", "bart"} -> OS(SirtBlock)
          [] o.alg \in {"mlem", "osem"} -> OS(EmBlock)
          [] o.alg \in {"pml_quad", "ospml_quad"} ->
               OS(LAMBDA y, ww, bb : PmlBlock(y, ww, bb, o.nx, o.ny, o.reg[1], LAMBDA t : D1))
          [] o.alg \in {"pml_hybrid", "ospml_hybrid"} ->
               OS(LAMBDA y, ww, bb : PmlBlock(y, ww, bb, o.nx, o.ny, o.reg[1],
                                              LAMBDA t : DDiv(D1, DAdd(D1, DDiv(t, DAbs(o.reg[2]))))))
          [] o.alg = "fbp" -> BackProject(x, w, b)
          [] o.alg = "grad" ->
               VScale(r, Times(LAMBDA st : GradStep(st, w, b, r, o.reg[1], D0, VConst(Len(x), D0)),
                               [x |-> x0, px |-> x0, g |-> <<>>], o.n).x)
          [] o.alg = "tikh" ->
               VScale(r, Times(LAMBDA st : GradStep(st, w, b, r, o.reg[1], o.reg[2], o.regdata),
                               [x |-> x0, px |-> x0, g |-> <<>>], o.n).x)
          [] o.alg = "tv" ->
               VScale(r, Times(LAMBDA st : TvStep(st, w, b, r, o.nx, o.ny, o.reg[1]), TvStart(x0, Len(w)), o.n).x)
=============================================================================
