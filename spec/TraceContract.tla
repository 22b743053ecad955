--------------------------- MODULE TraceContract ---------------------------
(* What recorded calls did, judged against the table of contracts.          *)
EXTENDS Contract, Conform
OkDtype(c, r) == CASE c.res = "f32" -> r.dtype = "float32"
                   [] c.res = "f64" -> r.dtype = "float64"
                   [] c.res = "bool" -> r.dtype = "bool"
                   [] c.res = "same" -> TRUE
Within(s, tol) == \A i \in DOMAIN s : s[i] <= tol
AloneV(r, c) ==
    Clause("dtype", OkDtype(c, r))
    \cup Clause("a slice differs from the same slice processed alone", Within(r.devs, c.tol) /\ r.devs # <<>>)
    \cup Clause("reordering the slices does not reorder the result", Within(r.perm, c.tol))
    \cup Clause("slices", c.ax = -1 \/ Len(r.devs) = r.n)
LayoutV(r, c) ==
    Clause("the plain call failed", r.plain = "ok")
    \cup Clause("dtype", OkDtype(c, r))
    \cup Clause("depends on the memory layout or dtype", Within(r.devs, c.tol + 2) /\ r.devs # <<>>)
KeepV(r, c) ==
    Clause("the plain call failed", r.plain = "ok")
    \cup Clause("an argument was modified",
                \A i \in DOMAIN r.changed : r.changed[i] = "main" /\ c.inpl)
    \cup Clause("values", Within(r.devs, c.tol + 2))
    \cup Clause("the output array does not hold the result", r.isout)
Verdict(r) == LET c == Of(r.fn) IN
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE r.kind = "alone" -> AloneV(r, c)
           [] r.kind = "layout" -> LayoutV(r, c)
           [] r.kind = "keep" -> KeepV(r, c)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
