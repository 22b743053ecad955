----------------------------- MODULE TracePhase -----------------------------
EXTENDS Phase, Conform
Big(x) == DMaxAbs([i \in 1..Len(x) |-> DMaxAbs(x[i])])
ImgClose(a, b, tol, scale) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : VCloseTo(a[i], b[i], tol, scale)
Near3(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : ImgClose(a[k], b[k], tol, Big(b[k]))
Right(r) ==
    CASE r.op = "phase" -> Len(r.out) = Len(r.imgs) /\ \A k \in 1..Len(r.imgs) :
            ImgClose(r.out[k], Retrieve(r.imgs[k], r.par), Tol(100), Big(r.imgs[k]))
      [] r.op = "tie" -> Len(r.out) = Len(r.imgs) /\ \A k \in 1..Len(r.imgs) :
            ImgClose(r.out[k], Transport(r.imgs[k], r.delta[k], r.px, r.dist), Tol(30),
                     DMax(D1, DDiv(DMul(DMul(DInt(8), r.dist), Big(r.delta[k])), DSq(r.px))))
      [] r.op = "probe" -> ImgClose(r.out[1], Probe(r.nx, r.ny, r.fwhm, r.x0, r.y0, r.peak), Tol(1), r.peak)
      [] r.op = "scan" -> Near3(r.out, Intensities(r.probe, r.imgs[1], r.sx, r.sy, r.far), Tol(30))
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE Clause("shape", r.shape = r.want) \cup Clause(r.op, r.shape = r.want => Right(r))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
