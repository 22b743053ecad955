--------------------------- MODULE TracePointwise ---------------------------
EXTENDS Pointwise, Conform
Want(r) == CASE r.op = "remove_nan" -> RemoveNan(r.a, r.val)
             [] r.op = "remove_neg" -> RemoveNeg(r.a, r.val)
             [] r.op = "adjust_range" -> Clip(r.a, r.lo, r.hi)
             [] r.op = "circ_mask" -> CircMask(r.a, NormAxis(r.axis, 3), r.rat4, r.val)
Verdict(r) == IF r.outcome # "ok" THEN {r.outcome}
              ELSE Clause("values", r.out = Want(r)) \cup Clause("dtype", r.dtype = r.wantdtype)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
