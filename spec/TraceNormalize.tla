--------------------------- MODULE TraceNormalize ---------------------------
(* Recorded normalisation calls against Normalize *)
EXTENDS Normalize, Conform
All(a, F(_, _, _)) == \A x \in Idx(a.sh) : F(x[1], x[2], x[3])
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE IF r.o.sh # r.a.sh THEN {"shape"}
    ELSE CASE r.op = "normalize" ->
           Clause("(data - dark) / (flat - dark)",
             All(r.a, LAMBDA i, j, k :
               NormOk(At(r.a, i, j, k), Avg(r.flat, j, k, r.how, 0, r.flat.sh[1] - 1),
                      Avg(r.dark, j, k, r.how, 0, r.dark.sh[1] - 1), <<r.hascut, r.cut4>>,
                      At(r.o, i, j, k), At(r.o6, i, j, k))))
       [] r.op = "normalize_nf" ->
           LET g == r.flat.sh[1] \div Len(r.loc) IN
           Clause("(data - dark) / (nearest flat - dark)",
             \A i \in 0..(r.a.sh[1] - 1) :
               \E m \in NearestSets(i, r.loc) :
                 \A j \in 0..(r.a.sh[2] - 1), k \in 0..(r.a.sh[3] - 1) :
                   NormOk(At(r.a, i, j, k), Avg(r.flat, j, k, "median", (m - 1) * g, m * g - 1),
                          Avg(r.dark, j, k, r.how, 0, r.dark.sh[1] - 1), <<r.hascut, r.cut4>>,
                          At(r.o, i, j, k), At(r.o6, i, j, k)))
       [] r.op = "normalize_bg" ->
           Clause("air on both sides is one", All(r.a, LAMBDA i, j, k : BgOk(r.a, r.air, i, j, k, At(r.o, i, j, k))))
       [] r.op = "normalize_roi" ->
           Clause("divided by the mean of the region",
                  All(r.a, LAMBDA i, j, k : RoiOk(r.a, r.roi, i, j, k, At(r.o, i, j, k))))
       [] r.op = "minus_log" ->
           Clause("minus logarithm", \A p \in DOMAIN r.e :
              IF r.a.v[p] = 0 THEN r.o.v[p] = 1000002
              ELSE IF r.a.v[p] < 0 THEN r.o.v[p] = 1000001
              ELSE Abs(r.o.v[p] - MinusLog(r.e[p])) <= 12)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
