----------------------------- MODULE MCRotation -----------------------------
(* Theorems of the searches for the rotation axis, for every small sinogram  *)
EXTENDS Rotation, FiniteSets
CONSTANTS Vals, NRows, NCols
VARIABLES s, done
vars == <<s, done>>
Dbls(f) == Eager([i \in 1..NRows |-> Eager([j \in 1..NCols |-> DInt(f[i][j])])])
Init == done = <<"input">> /\ \E f \in [1..NRows -> [1..NCols -> Vals]] : s = Dbls(f)
Steps == {<<"scaled">>, <<"reversed">>} \cup {<<"half turn", a2>> : a2 \in 0..(2 * (NCols - 1))} \cup {<<"moved", d>> : d \in 1..2}
Turned(x, a2) == Eager([y \in 1..Rows(x) |-> Eager([c \in 1..NCols |-> x[y][1 + Mod(a2 - (c - 1), NCols)]])])
Rolled(x, d) == Eager([y \in 1..Rows(x) |-> Eager([c \in 1..NCols |-> x[y][1 + Mod(c - 1 - d, NCols)]])])
Apply(a, x) ==
    CASE a[1] = "scaled" -> Eager([y \in 1..Rows(x) |-> VScale(DInt(3), x[y])])
      [] a[1] = "reversed" -> Eager([y \in 1..Rows(x) |-> x[Rows(x) + 1 - y]])
      [] a[1] = "half turn" -> Turned(x, a[2])
      [] a[1] = "moved" -> Rolled(x, a[2])
Next == done = <<"input">> /\ \E a \in Steps : done' = a /\ s' = Apply(a, s)
Spec == Init /\ [][Next]_vars
Same(a, b) == \A p \in 1..Len(a) : VCloseTo(a[p], b[p], Tol(1), D1)
\* a projection from behind is mirrored at the axis, seen from either
Symmetric == [][done'[1] = "half turn" => MirroredAt(s, s', done'[2]) /\ MirroredAt(s', s, done'[2])]_vars
\* moving both projections moves the axis: twice, in terms of half columns
Together == [][done'[1] = "moved" => \A a2 \in 0..NCols : MirroredAt(s', Rolled(Turned(s, a2), done'[2]), a2 + 2 * done'[2])]_vars
\* a larger signal has a larger metric, by the same factor: the centre does not depend on it
Cands == [k \in 1..3 |-> 8 * (NCols \div 2) + (4 * (k - 2) - (k \div 3))]
Scaling == [][done'[1] = "scaled" => LET a == Metrics(s, Cands, DHalf, 20)
                                         b == Metrics(s', Cands, DHalf, 20)
                                     IN  \A k \in 1..3 : Close(b[k], DMul(DInt(3), a[k]), Tol(1), D1)]_vars
\* the completed sinogram consists of the mirrored one and, where that ends, of the reversed one
WholeShift == done = <<"input">> => LET spl == [p \in 1..NRows |-> SplineOf([x \in 1..NCols |-> s[p][NCols + 1 - x]])] IN
    \A d \in -2..2 : \A p \in 1..NRows : \A x \in 1..NCols :
        Completed(s, spl, 4 * d)[p][x] = IF x - d \in 1..NCols THEN s[p][NCols + 1 - (x - d)] ELSE s[NRows + 1 - p][x]
\* splines go through the samples, and half way between two of them they are the same from either side
Through == done = <<"input">> => \A p \in 1..NRows :
    LET c == SplineOf(s[p])
        b == SplineOf([x \in 1..NCols |-> s[p][NCols + 1 - x]])
    IN  /\ \A x \in 1..NCols : Close(SplineAt(c, x - 1, 0), s[p][x], Tol(1), D1)
        /\ \A x \in 1..(NCols - 1) : \A h \in 1..3 : Close(SplineAt(c, x - 1, h), SplineAt(b, NCols - 1 - x, 4 - h), Tol(1), D1)
\* smoothing keeps a uniform sinogram and does not exceed the range
SmoothRange == done = <<"input">> => \A y \in 1..NRows : \A x \in 1..NCols :
    LET v == Smoothed(s, 2, 2)[y][x] IN \E a, b \in {s[i][j] : i \in 1..NRows, j \in 1..NCols} :
        DLeq(DSub(a, Tol(1)), v) /\ DLeq(v, DAdd(b, Tol(1)))
=============================================================================
