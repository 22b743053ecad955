---------------------------- MODULE MCStripes3D ----------------------------
(* Theorems of stripe detection: every small volume goes through the stages of the mask *)
EXTENDS Stripes3D
CONSTANTS D1_, D2_, D3_, Vals, Sens
VARIABLES a, m, stage, par
vars == <<a, m, stage, par>>
Shapes == {<<x, y, z>> : x \in 2..D1_, y \in 1..D2_, z \in 2..D3_}
None == [sh |-> <<0, 0, 0>>, v |-> <<>>]
Init == /\ \E sh \in Shapes : \E f \in [1..Size(sh) -> Vals] : a = [sh |-> sh, v |-> f]
        /\ m = None /\ stage = "weights"
        /\ par \in [len : 1..(D1_ - 1), depth : 0..(D2_ - 1), width : 1..(D3_ - 1), sens : Sens]
        /\ par.len < a.sh[1] /\ par.depth < a.sh[2] /\ par.width < a.sh[3]
Thr == 1
To(s, f) == stage' = s /\ m' = Forced(f) /\ UNCHANGED <<a, par>>
Next == \/ stage = "weights" /\ To("candidates", Candidates(a, Thr))
        \/ stage = "candidates" /\ To("shallow", Shallow(m, par.depth, par.sens))
        \/ stage = "shallow" /\ To("long", Long(m, par.len, par.sens))
        \/ stage = "long" /\ To("kept", NotShort(m, par.len))
        \/ stage = "kept" /\ To("merged", Merge(m, par.width, par.width))
Spec == Init /\ [][Next]_vars
Sub(x, y) == \A p \in DOMAIN x.v : x.v[p] => y.v[p]
(* the selections only remove, merging only adds *)
Removes == [][stage' \in {"shallow", "long", "kept"} => Sub(m', m)]_vars
Adds == [][stage' = "merged" => Sub(m, m')]_vars
(* the stages together are the specified mask *)
IsMask == stage = "merged" => m = Forced(MaskOf(a, Thr, par.len, par.depth, par.width, par.sens))
(* nothing below the threshold, no stripe; everything below it, at most what is not deep *)
NoStripe == stage = "merged" /\ (\A p \in DOMAIN a.v : a.v[p] > Thr) => \A p \in DOMAIN m.v : ~m.v[p]
(* a column that is a candidate at every angle survives the selections if the depth is not limited *)
FullColumn == stage = "kept" /\ par.depth = 0 =>
    \A y \in 0..(a.sh[2] - 1), x \in 0..(a.sh[3] - 1) :
        (\A z \in 0..(a.sh[1] - 1) : At(a, z, y, x) <= Thr) => \A z \in 0..(a.sh[1] - 1) : At(m, z, y, x)
(* weights are between 0 and 1, and do not depend on the scale or the offset of the data *)
Times(b, k, c) == [sh |-> b.sh, v |-> [p \in DOMAIN b.v |-> k * b.v[p] + c]]
WeightsOk == stage = "weights" /\ par.len = 1 /\ par.depth = 0 /\ par.width = 1 =>
    \A size \in 1..(a.sh[1] \div 2) : LET w == Weights(a, size, 1) IN
       /\ \A p \in DOMAIN w.v : DLeq(D0, w.v[p]) /\ DLeq(w.v[p], D1)
       /\ VClose(Weights(Times(a, -4, 7), size, 1).v, w.v, Tol(1))
=============================================================================
