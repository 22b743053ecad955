------------------------------ MODULE Pointwise ------------------------------
(***************************************************************************)
(* Voxel-wise clean-up: clipping, replacement of NaN and of negative       *)
(* values, the circular mask.  Values are integers; NaN, +inf, -inf have   *)
(* codes.                                                                  *)
(***************************************************************************)
EXTENDS Arrays
NaN == 1000001
PInf == 1000002
NInf == 1000003
Less(a, b) ==            \* the order of floating point numbers; false with NaN
    IF a = NaN \/ b = NaN THEN FALSE
    ELSE LET k(v) == IF v = PInf THEN 3000000 ELSE IF v = NInf THEN -3000000 ELSE v IN k(a) < k(b)

MapArr(a, F(_)) == [sh |-> a.sh, v |-> [p \in DOMAIN a.v |-> F(a.v[p])]]
RemoveNan(a, val) == MapArr(a, LAMBDA v : IF v = NaN THEN val ELSE v)
RemoveNeg(a, val) == MapArr(a, LAMBDA v : IF Less(v, 0) THEN val ELSE v)
(* None: no limit on that side *)
NoLimit == 2000000
Clip(a, lo, hi) == MapArr(a, LAMBDA v : IF hi # NoLimit /\ Less(hi, v) THEN hi
                                        ELSE IF lo # NoLimit /\ Less(v, lo) THEN lo ELSE v)
(* inside the circle of diameter (rat4/4) * smallest edge, in the plane across ax *)
InCircle(x, sh, ax, rat4) ==
    LET D == {1, 2, 3} \ {ax + 1}
        d1 == CHOOSE d \in D : \A e \in D : d <= e
        d2 == CHOOSE d \in D : d # d1
        u == 2 * x[d1] + 1 - sh[d1]
        w == 2 * x[d2] + 1 - sh[d2]
        m == MinI(sh[d1], sh[d2])
    IN  16 * (u * u + w * w) < rat4 * rat4 * m * m
CircMask(a, ax, rat4, val) ==
    MkArr(a.sh, LAMBDA x : IF InCircle(x, a.sh, ax, rat4) THEN AtI(a, x) ELSE val)
=============================================================================
