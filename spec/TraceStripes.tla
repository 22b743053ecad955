---------------------------- MODULE TraceStripes ----------------------------
EXTENDS Stripes, Conform
(* r.sinos: the sinogram of every slice, r.out: what came out for it *)
Alone(r, s) ==
    CASE r.op = "sf" -> [s |-> BySmoothing(s, r.size), sure |-> TRUE]
      [] r.op = "sorting" -> BySorting(s, r.size, r.dim)
      [] r.op = "filtering" -> ByFiltering(s, r.sigma, r.size, r.dim)
      [] r.op = "large" -> Large(s, r.snr, r.size, r.drop, r.norm)
      [] r.op = "dead" -> Dead(s, r.snr, r.size, r.norm)
      [] r.op = "all" -> AllStripes(s, r.snr, r.size, r.small, r.dim)
      [] r.op = "interpolation" -> ByInterpolation(s, r.snr, r.size, r.drop, r.norm)
      [] r.op = "fitting" -> [s |-> ByFitting(s, r.order, r.sx, r.sy), sure |-> TRUE]
      [] r.op = "ti" -> [s |-> Titarenko(s, r.nblock, r.alpha), sure |-> TRUE]
      [] r.op = "fw" -> [s |-> FourierWavelet(s, r.lo, r.sigma, r.level, r.pad), sure |-> TRUE]
Loose == {"fitting", "ti", "fw"}
Agrees(r, i) ==
    LET w == Alone(r, r.sinos[i]) IN
    ~w.sure \/ \A p \in 1..Len(w.s) :
        VCloseTo(r.out[i][p], w.s[p], Tol(IF r.op \in Loose THEN 300 ELSE 40), MaxAbs(NoNan(r.sinos[i])))
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE Clause("dtype", r.dtype \in {"float32", "float64"}) \cup
         Clause("shape", r.shape = r.want) \cup
         Clause(r.op, r.shape = r.want => \A i \in 1..Len(r.sinos) : Agrees(r, i))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
