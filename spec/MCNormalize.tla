---------------------------- MODULE MCNormalize ----------------------------
(* Theorems: what the equations of Normalize imply for every small case.     *)
(* The state machine is an acquisition: flats are taken at some positions,   *)
(* projections one after the other.                                          *)
EXTENDS Normalize
CONSTANTS MaxP, V
VARIABLES loc, p
Init == /\ loc \in UNION {{s \in [1..n -> 0..(MaxP - 1)] : \A i \in 1..(n - 1) : s[i] < s[i + 1]} : n \in 1..3}
        /\ p = 0
Next == p + 1 < MaxP /\ p' = p + 1 /\ UNCHANGED loc
Spec == Init /\ [][Next]_<<loc, p>>
(* every projection has a nearest set; the sets in use never go back *)
SomeNearest == NearestSets(p, loc) # {}
OwnNearest == \A m \in DOMAIN loc : loc[m] = p => NearestSets(p, loc) = {m}
Forward == [][\A m \in NearestSets(p, loc), q \in NearestSets(p', loc) : m <= q \/ q \in NearestSets(p, loc)]_<<loc, p>>
(* dark gives zero, flat gives one, whatever the averages; the solution is unique up to Tol *)
FlatIsOne == \A f \in 1..V, d \in 0..V : f > d =>
    /\ NormOk(d, <<f, 1>>, <<d, 1>>, <<FALSE, 0>>, 0, 0)
    /\ NormOk(f, <<f, 1>>, <<d, 1>>, <<FALSE, 0>>, Scale, 0)
    /\ ~NormOk(f, <<f, 1>>, <<d, 1>>, <<FALSE, 0>>, Scale + 9, 0)
CutoffHolds == \A f \in 1..V, d \in 0..V, v \in 0..V, o \in {0, Scale \div 2, Scale, 2 * Scale, 3 * Scale} :
    f > d /\ NormOk(v, <<f, 1>>, <<d, 1>>, <<TRUE, 4>>, o, 0) => o <= Scale + Tol
=============================================================================
