--------------------------- MODULE TraceStripes3D ---------------------------
EXTENDS Stripes3D, Conform
Bool(m) == [sh |-> m.sh, v |-> [p \in DOMAIN m.v |-> IF m.v[p] THEN 1 ELSE 0]]
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE IF r.op = "detect"
         THEN LET want == Weights(r.a, r.size, r.radius) IN
              Clause("dtype", r.dtype = "float32") \cup
              Clause("shape", r.out.sh = r.a.sh) \cup
              Clause("weights", VCloseTo(r.out.v, Eager(want.v), Tol(20), D1))
         ELSE Clause("dtype", r.dtype = "bool") \cup
              Clause("mask", r.out = Bool(MaskOf(r.a, r.thr, r.len, r.depth, r.width, r.sens)))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
