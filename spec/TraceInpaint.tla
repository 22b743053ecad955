---------------------------- MODULE TraceInpaint ----------------------------
EXTENDS Inpaint, Conform
(* r.parts: the planes (or the volume) that are filled on their own: a, mask (positions), out *)
MaskOf(q) == {p \in 1..Len(q.mask) : q.mask[p]}
Like(r, q, mode, n) ==
    LET w == Inpainted(q.a, MaskOf(q), r.size, mode, n)
    IN  VCloseTo(q.out, w.v, Tol(20), DMaxAbs(q.a.v))
All(r, mode, n) == \A k \in 1..Len(r.parts) : Like(r, r.parts[k], mode, n)
Kept(q) == \A p \in 1..Len(q.a.v) : q.mask[p] \/ q.out[p] = q.a.v[p]
(* a random choice: between the extremes of the known values, and everything reachable is filled *)
Random(r, q) ==
    LET known == SelectSeq([p \in 1..Len(q.a.v) |-> IF q.mask[p] THEN D0 ELSE q.a.v[p]], Has)
        s == DSort(known)
        end == Fill([img |-> Emptied(q.a, MaskOf(q)), todo |-> MaskOf(q)], 1, "mean")
    IN  \A p \in MaskOf(q) : IF p \in end.todo THEN DEq(q.out[p], D0)
                            ELSE DLeq(DMul(s[1], DRat(99999, 100000)), q.out[p]) /\ DLeq(q.out[p], DMul(s[Len(s)], DRat(100001, 100000)))
Once(n) == MinI(n, 1)
Value_(r) ==
    IF r.mode = "random" THEN Clause("random", \A k \in 1..Len(r.parts) : Random(r, r.parts[k]))
    ELSE IF All(r, r.mode, r.iterations) THEN {}
    ELSE IF r.mode = "median" /\ All(r, "butlast", r.iterations) THEN {"planar-median"}
    ELSE IF r.iterations > 1 /\ All(r, r.mode, 1) THEN {"iterations"}
    ELSE IF r.mode = "median" /\ r.iterations > 1 /\ All(r, "butlast", 1) THEN {"planar-median", "iterations"}
    ELSE {"value"}
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE Clause("shape", r.shape = r.want) \cup Clause("dtype", r.dtype = "float32") \cup
         (IF r.shape = r.want THEN Clause("known values", \A k \in 1..Len(r.parts) : Kept(r.parts[k])) \cup Value_(r) ELSE {})
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
