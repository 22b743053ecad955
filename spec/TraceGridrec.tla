---------------------------- MODULE TraceGridrec ----------------------------
EXTENDS Gridrec, Conform
Big(x) == DMaxAbs([i \in 1..Len(x) |-> DMaxAbs(x[i])])
Par(r) == [gx |-> r.gx, gy |-> r.gy, filter |-> r.filter, par |-> r.par]
\* compared before the window is divided out, which blows up the edges
SliceIs(out, raw, w) == LET s == Big(raw) IN
    \A i \in 1..Len(raw) : \A j \in 1..Len(raw[1]) : Close(out[i][j], DMul(raw[i][j], w[i][j]), Tol(100), DMul(s, w[i][j]))
Is(r, raws, next) == LET w == Corrections(Period(Len(r.sinos[1][1]), r.gx, r.gy), Par(r), next)
                     IN  \A k \in 1..Len(raws) : SliceIs(r.out[k], raws[k], w)
Value(r) == LET raws == Eager([k \in 1..Len(r.sinos) |-> Raw(r.sinos[k], r.theta, r.centres[k], Par(r))])
            IN  IF Is(r, raws, 0) THEN {} ELSE IF Is(r, raws, 1) THEN {"neighbour"} ELSE {"image"}
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE IF r.shape # r.want THEN {"shape"}
    ELSE IF ~Assert(\A p \in 1..Len(r.theta) : ClearAngle(r.theta[p], Period(Len(r.sinos[1][1]), r.gx, r.gy)), <<"unclear", pos>>) THEN {"unclear"}
    ELSE Value(r)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
