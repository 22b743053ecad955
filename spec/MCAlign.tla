------------------------------ MODULE MCAlign ------------------------------
(* Theorems of the geometric corrections, for every small image            *)
EXTENDS Align
CONSTANTS Vals, NRows, NCols
VARIABLES s, done
vars == <<s, done>>
Dbls(f) == Eager([i \in 1..NRows |-> Eager([j \in 1..NCols |-> DInt(f[i][j])])])
Init == done = <<"input">> /\ \E f \in [1..NRows -> [1..NCols -> Vals]] : s = Dbls(f)
Steps == {<<"unwarp", k>> : k \in 1..3} \cup {<<"move", a, b>> : a, b \in -1..1} \cup {<<"jitter", a, b>> : a, b \in -1..1} \cup {<<"blur", k>> : k \in 1..2}
Facts == << <<D1>>, <<D1, DRat(1, 10), DRat(-1, 50)>>, <<DRat(1, 2)>> >>
Apply(a, x) ==
    CASE a[1] = "unwarp" -> Unwarp(x, DRat(3, 4), D1, Facts[a[2]])
      [] a[1] = "move" -> Moved(x, a[2], a[3])
      [] a[1] = "jitter" -> Jittered(x, DRat(2 * a[3] + 1, 5), DRat(a[2], 3))
      [] a[1] = "blur" -> Blurred(x, DRat(a[2], 4), DRat(3, 4))
Next == done = <<"input">> /\ \E a \in Steps : done' = a /\ s' = Apply(a, s)
Spec == Init /\ [][Next]_vars
Same(a, b) == \A p \in 1..Len(a) : VCloseTo(a[p], b[p], Tol(1), D1)
Values(x) == {x[i][j] : i \in 1..Rows(x), j \in 1..Cols(x)}
Uniform(x) == Cardinality(Values(x)) = 1
\* no distortion, nothing to correct
Identity == [][done' \in {<<"unwarp", 1>>, <<"move", 0, 0>>} => Same(s', s)]_vars
\* a uniform image is not distorted
Flat == [][done'[1] = "unwarp" /\ Uniform(s) => Same(s', s)]_vars
\* no value beyond those of the image
InRange == [][\A v \in Values(s') : /\ DLeq(DSub(DMin(D0, Lowest(Values(s))), Tol(1)), v)
                                    /\ DLeq(v, DAdd(DMax(D0, Highest(Values(s))), Tol(1)))]_vars
\* moving back restores all that was not moved out
Back == [][done'[1] = "move" => LET b == Moved(s', -done'[2], -done'[3]) IN
            \A y \in 0..(NRows - 1), c \in 0..(NCols - 1) :
                (y - done'[2] \in 0..(NRows - 1) /\ c - done'[3] \in 0..(NCols - 1)) => At(b, y, c) = At(s, y, c)]_vars
\* a jitter of less than half a pixel does nothing
Small == [][done'[1] = "jitter" /\ done'[3] = 0 => s' = s]_vars
=============================================================================
