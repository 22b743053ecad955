--------------------------- MODULE TraceSimulate ---------------------------
EXTENDS Simulate, Conform
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : DLeq(DAbs(DSub(a[k], b[k])), DMul(tol, DMax(D1, DAbs(b[k]))))
Tiny == DRat(1, 100000000)
Right(r) ==
    CASE r.op = "angles" -> Same(r.y, AnglesOf(r.n, r.a, r.b), Tiny)
      [] r.op = "drift" -> Same(r.y, Drifted(r.x, r.sh, r.amp, r.period, r.mean), Tol(2))
      [] r.op = "zingers" -> Struck(r.x, r.y, r.sh, r.f, r.sat)
      [] r.op = "pepper" -> Struck(r.x, r.y, r.sh, r.f, IF r.given THEN r.val ELSE Largest(r.x))
      [] r.op = "gaussian" -> Noisy(r.x, r.y, r.sh, r.mean, IF r.given THEN r.std ELSE DDiv(Largest(r.x), DInt(20)))
      [] r.op = "poisson" -> Poisson(r.x, r.y, r.sh)
      [] r.op = "rings" -> Ringed(r.x, r.y, r.sh, r.std)
      [] r.op = "many" -> CASE r.kind \in {"zingers", "pepper"} -> ManyIndependent(r, r.sh, r.f)
                            [] r.kind = "poisson" -> ManyPoisson(r)
                            [] OTHER -> ManyStandard(r)
      [] r.op = "phantom" -> IsPhantom(r.es, r.sh, r.y, FALSE, Tol(10))
      [] r.op = "shepp3d" -> IsPhantom(Shepp, r.sh, r.y, TRUE, Tol(10))
      \* an image of another size shows the same: means over a grid of blocks
      [] r.op = "image" -> /\ Same(r.native, r.file, DRat(1, 1000000)) /\ r.shape = r.want /\ r.dtype = r.wantdtype
                           /\ Len(r.blocks) = Len(r.ref)
                           /\ \A k \in 1..Len(r.ref) : DLeq(DAbs(DSub(r.blocks[k], r.ref[k])), r.within)
Verdict(r) == IF r.outcome # "ok" THEN {r.outcome}
              ELSE Clause(r.op, Right(r)) \cup Clause("kept", r.kept)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
