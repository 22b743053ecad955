------------------------------- MODULE MCRank -------------------------------
(* Theorems about the filters, for every small array: what makes them median *)
(* filters and dezingers whatever their implementation.                      *)
EXTENDS RankFilters
CONSTANTS Vals, D1, D2, D3
VARIABLES a, op
Shapes == {<<x, y, z>> : x \in 1..D1, y \in 1..D2, z \in 1..D3}
Init == /\ \E sh \in Shapes : \E f \in [1..Size(sh) -> Vals] : a = [sh |-> sh, v |-> f]
        /\ op = <<"input">>
(* one transition per filter: the state machine of a processing pipeline *)
Next == op = <<"input">> /\ \E ax \in 0..2, s \in {1, 2, 3}, d \in {0, 2} :
    \/ op' = <<"median", ax, s>> /\ a' = MedianFilter(a, ax, s)
    \/ op' = <<"outlier", ax, s, d>> /\ a' = RemoveOutlier(a, [i \in 1..3 |-> IF i = ax + 1 THEN 1 ELSE s], d)
    \/ op' = <<"outlier1", ax, s, d>> /\ a' = RemoveOutlier1(a, ax, s, d)
    \/ op' = <<"median3", s>> /\ a' = MedianFilter3(a, s)
    \/ op' = <<"outlier3", s, d>> /\ a' = RemoveOutlier3(a, s, d)
Spec == Init /\ [][Next]_<<a, op>>
Range(x) == {x.v[p] : p \in DOMAIN x.v}
(* no filter invents a value; the shape is kept; a constant is a fixed point;   *)
(* size one is the identity; a dezinger only lowers, by at least the threshold  *)
NoNewValues == [][Range(a') \subseteq Range(a) /\ a'.sh = a.sh]_<<a, op>>
ConstantsFixed == [][Cardinality(Range(a)) = 1 => a' = a]_<<a, op>>
SizeOneIdentity == [][(op'[1] = "median" /\ op'[3] = 1) => a' = a]_<<a, op>>
DezingerLowers == [][op'[1] \in {"outlier", "outlier1"} =>
    \A p \in DOMAIN a.v : a'.v[p] = a.v[p] \/ 2 * (a.v[p] - a'.v[p]) >= op'[4]]_<<a, op>>
=============================================================================
