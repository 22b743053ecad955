--------------------------- MODULE TraceRotation ---------------------------
EXTENDS Rotation, Conform
ImgClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : VCloseTo(a[i], b[i], tol, DMaxAbs([k \in 1..Len(b) |-> DMaxAbs(b[k])]))
Right(r) ==
    CASE r.op = "vo" -> r.exact /\ r.found8 \in Centres(AverageSino(r.sinos), r.par)
      [] r.op = "pc" -> r.exact /\ MirroredAt(r.p1, r.p2, r.found2)
      \* the accuracy asked for is that of the shift, which is twice the centre
      [] r.op = "pcsub" -> \E k \in -1..1 : LET d == r.found1000 - r.true1000 + k * r.alias1000
                                           IN  10 * (IF d < 0 THEN -d ELSE d) <= 4 * r.tol1000 + 30
      \* sinograms that are searched in two sizes: discs about a known axis
      [] r.op = "large" -> r.found4 - r.axis4 \in -4..4
      [] r.op = "entropy" ->
            LET lo == Limit(r.low, TRUE)
                hi == Limit(r.high, FALSE)
                img(x) == IF r.masked THEN Masked(x, r.ratio) ELSE x
            IN  DLeq(Entropy(img(r.best), lo, hi), DAdd(Entropy(img(r.first), lo, hi), DRat(1, 100)))
      [] r.op = "write" ->
            /\ {r.files[k] : k \in 1..Len(r.files)} = {r.names[k] : k \in 1..Len(r.names)}
            /\ \A k \in 1..Len(r.names) : r.files[k] = r.names[k]
                  => ImgClose(r.imgs[k], IF r.masked THEN Masked(r.refs[k], r.ratio) ELSE r.refs[k], Tol(20))
      [] r.op = "empty" -> LET m == Margins(r.sums, r.threshold) IN
            /\ Len(r.mask) = Len(m)
            /\ \A y \in 1..Len(m) : DLeq(DAbs(m[y]), Tol(5)) \/ (r.mask[y] <=> DLt(D0, m[y]))
Verdict(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE Clause(r.op, Right(r))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
