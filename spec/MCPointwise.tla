---------------------------- MODULE MCPointwise ----------------------------
(* A clean-up pipeline: any sequence of the functions on any small image.    *)
EXTENDS Pointwise
CONSTANTS D2, D3, MaxOps
VARIABLES a, a0, done, n
Vals == {NaN, PInf, NInf, -2, 0, 3}
Init == /\ \E f \in [1..(D2 * D3) -> Vals] : a = [sh |-> <<1, D2, D3>>, v |-> f]
        /\ a0 = a /\ done = {} /\ n = 0
Step(name, b) == a' = b /\ done' = done \cup {name} /\ n' = n + 1 /\ UNCHANGED a0
Next == n < MaxOps /\ \/ Step("nan", RemoveNan(a, 0))
                      \/ Step("neg", RemoveNeg(a, 0))
                      \/ Step("mask", CircMask(a, 0, 4, 0))
                      \/ Step("mask2", CircMask(a, 0, 6, 0))
Spec == Init /\ [][Next]_<<a, a0, done, n>>
NoNan == "nan" \in done => \A p \in DOMAIN a.v : a.v[p] # NaN
NoNeg == "neg" \in done => \A p \in DOMAIN a.v : ~Less(a.v[p], 0)
Masked == "mask" \in done => \A x \in Idx(a.sh) : InCircle(x, a.sh, 0, 4) \/ AtI(a, x) = 0
(* the functions commute and touch nothing else: every voxel is the original or 0 *)
OnlyReplaced == \A p \in DOMAIN a.v : a.v[p] = a0.v[p] \/ a.v[p] = 0
KeptInside == \A x \in Idx(a.sh) : (AtI(a0, x) = 3 /\ InCircle(x, a.sh, 0, 4)) => AtI(a, x) = 3
Idempotent == RemoveNan(RemoveNan(a, 0), 0) = RemoveNan(a, 0) /\ RemoveNeg(RemoveNeg(a, 0), 0) = RemoveNeg(a, 0)
(* the mask is symmetric and grows with its ratio *)
Symmetric == \A x \in Idx(a.sh), r \in 1..8 :
    /\ InCircle(x, a.sh, 0, r) = InCircle(<<x[1], a.sh[2] - 1 - x[2], a.sh[3] - 1 - x[3]>>, a.sh, 0, r)
    /\ InCircle(x, a.sh, 0, r) => InCircle(x, a.sh, 0, r + 1)
=============================================================================
