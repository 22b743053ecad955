-------------------------------- MODULE Num --------------------------------
(* Vectors of real numbers and comparison within a tolerance.               *)
EXTENDS Dbl, Integers, Sequences
D0 == DInt(0)
D1 == DInt(1)
D2 == DInt(2)
DHalf == DRat(1, 2)
Vec(n, f(_)) == Eager([i \in 1..n |-> f(i)])
VConst(n, c) == Eager([i \in 1..n |-> c])
VAdd(a, b) == Eager([i \in 1..Len(a) |-> DAdd(a[i], b[i])])
VSub(a, b) == Eager([i \in 1..Len(a) |-> DSub(a[i], b[i])])
VMul(a, b) == Eager([i \in 1..Len(a) |-> DMul(a[i], b[i])])
VScale(c, a) == Eager([i \in 1..Len(a) |-> DMul(c, a[i])])
\* a + c b
VAxpy(a, c, b) == Eager([i \in 1..Len(a) |-> DAdd(a[i], DMul(c, b[i]))])
DSq(a) == DMul(a, a)
DClamp(a, lo, hi) == DMin(DMax(a, lo), hi)
\* |a - b| <= tol * max(scale, tiny)
Close(a, b, tol, scale) ==
    IF DIsFinite(b) THEN DIsFinite(a) /\ DLeq(DAbs(DSub(a, b)), DMul(tol, scale))
    ELSE IF DIsNan(b) THEN DIsNan(a) ELSE DEq(a, b)
Near(a, b, tol) == Close(a, b, tol, DMax(DAbs(a), DAbs(b)))
\* every component agrees within tol of the largest component of b
VClose(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ LET s == DMax(DMaxAbs(b), DRat(1, 1000000000)) IN
       \A i \in 1..Len(b) : Close(a[i], b[i], tol, s)
\* every component agrees within tol of the scale
VCloseTo(a, b, tol, scale) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Close(a[i], b[i], tol, DMax(scale, DAbs(b[i])))
Tol(n) == DRat(n, 1000000)        \* n millionths
=============================================================================
