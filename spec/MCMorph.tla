------------------------------- MODULE MCMorph -------------------------------
(* Theorems of the grid maps for every small array *)
EXTENDS Morph
CONSTANTS Vals, D1, D2, D3
VARIABLES a, op
Shapes == {<<x, y, z>> : x \in 1..D1, y \in 1..D2, z \in 1..D3}
Init == /\ \E sh \in Shapes : \E f \in [1..Size(sh) -> Vals] : a = [sh |-> sh, v |-> f]
        /\ op = <<"input">>
Next == op = <<"input">> /\ \E ax \in 0..2 :
    \/ \E k \in 0..2, m \in {"edge", "constant"} : op' = <<"pad", ax, k, m>> /\ a' = Pad(a, ax, k, m, 9)
    \/ \E l \in 0..2 : op' = <<"up", ax, l>> /\ a' = Up(a, ax, l)
    \/ \E l \in 0..1 : op' = <<"down", ax, l>> /\ a.sh[ax + 1] >= Pow2(l) /\ a' = DownX(a, ax, l)
    \/ \E ov \in 0..a.sh[3], rot \in {"left", "right"} :
          a.sh[1] >= 2 /\ op' = <<"stitch", 0, ov, rot>> /\ a' = StitchX(a, ov, rot)
Spec == Init /\ [][Next]_<<a, op>>
Crop(b, ax, k, n) == MkArr(ShapeWith(b.sh, ax, n), LAMBDA x : AtI(b, SetAx(x, ax, x[ax + 1] + k)))
Const(b) == \A p \in DOMAIN b.v : b.v[p] = b.v[1]
PadKeeps == [][op'[1] = "pad" => Crop(a', op'[2], op'[3], a.sh[op'[2] + 1]) = a]_<<a, op>>
EdgeAddsNothing == [][op'[1] = "pad" /\ op'[4] = "edge" =>
                      \A p \in DOMAIN a'.v : \E q \in DOMAIN a.v : a'.v[p] = a.v[q]]_<<a, op>>
DownUndoesUp == [][op'[1] = "up" =>
                   LET d == DownX(a', op'[2], op'[3]) IN
                   d.sh = a.sh /\ \A p \in DOMAIN a.v : d.v[p] = Pow2(op'[3]) * a.v[p]]_<<a, op>>
MassKept == [][op'[1] = "down" /\ a.sh[op'[2] + 1] % Pow2(op'[3]) = 0 => SumSeq(a'.v) = SumSeq(a.v)]_<<a, op>>
(* the two halves of a uniform object join without a seam *)
NoSeam == [][op'[1] = "stitch" /\ Const(a) => Const(a') /\ a'.v[1] = StitchScale(op'[3]) * a.v[1]]_<<a, op>>
(* swapping the half turns mirrors the result *)
Turn(b) == MkArr(b.sh, LAMBDA x : At(b, (x[1] + b.sh[1] \div 2) % b.sh[1], x[2], x[3]))
Flip(b) == MkArr(b.sh, LAMBDA x : At(b, x[1], x[2], b.sh[3] - 1 - x[3]))
TurnMirrors == [][op'[1] = "stitch" /\ a.sh[1] = 2 =>
                  StitchX(Turn(a), op'[3], op'[4]) = Flip(a')]_<<a, op>>
DefaultPadOk == \A n \in 1..60 : LET k == DefaultPad(n) IN (n + 2*k)^2 >= 2*n^2 /\ (k = 0 \/ (n + 2*k - 2)^2 < 2*n^2)
=============================================================================
