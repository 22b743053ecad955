----------------------------- MODULE TraceRings -----------------------------
EXTENDS Rings, Conform
Right(r) == Len(r.outs) = Len(r.imgs) /\ \A k \in 1..Len(r.imgs) : IsRemoved(r.imgs[k], r.outs[k], r.par)
Verdict(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE Clause("ring", Right(r))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
