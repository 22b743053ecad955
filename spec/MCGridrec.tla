----------------------------- MODULE MCGridrec -----------------------------
(* Theorems of the gridding reconstruction, for every small sinogram.       *)
(* The state: the rows, their angles (in degrees), the axis and the image.  *)
EXTENDS Gridrec, FiniteSets
CONSTANTS Vals, NRows, NCols
VARIABLES st, done
vars == <<st, done>>
G == 4
Angles == <<17, 111, 59, 200>>
Rad(a) == DMul(DPi, DRat(a, 180))
Q(f) == [gx |-> G, gy |-> G, filter |-> f, par |-> <<DRat(2, 5), D2>>]
Made(rows, angles, c, f) ==
    [rows |-> rows, angles |-> angles, c |-> c, f |-> f,
     img |-> Image(rows, Eager([p \in 1..Len(rows) |-> Rad(angles[p])]), c, Q(f), 0)]
Filters == {"none", "shepp", "parzen", "butterworth"}
Init == done = "input" /\ \E m \in [1..NRows -> [1..NCols -> Vals]], f \in Filters :
           st = Made(Eager([p \in 1..NRows |-> Eager([d \in 1..NCols |-> DInt(m[p][d])])]), SubSeq(Angles, 1, NRows), DRat(5, 4), f)
Actions == {"doubled", "moved", "turned", "from behind", "reordered", "twice", "split"}
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Apply(a, x) ==
    CASE a = "doubled" -> Made([p \in 1..Len(x.rows) |-> VScale(D2, x.rows[p])], x.angles, x.c, x.f)
      [] a = "moved" -> Made([p \in 1..Len(x.rows) |-> <<D0, D0>> \o x.rows[p]], x.angles, DAdd(x.c, D2), x.f)
      [] a = "turned" -> Made(x.rows, [p \in 1..Len(x.rows) |-> x.angles[p] + 90], x.c, x.f)
      [] a = "from behind" -> Made([p \in 1..Len(x.rows) |-> Rev(x.rows[p])], [p \in 1..Len(x.rows) |-> x.angles[p] + 180],
                                   DSub(DInt(NCols - 1), x.c), x.f)
      [] a = "reordered" -> Made(Rev(x.rows), Rev(x.angles), x.c, x.f)
      [] a = "twice" -> Made(x.rows \o x.rows, x.angles \o x.angles, x.c, x.f)
      [] a = "split" -> Made([p \in 1..Len(x.rows) |-> IF p = 1 THEN x.rows[1] ELSE VConst(NCols, D0)], x.angles, x.c, x.f)
Next == done = "input" /\ \E a \in Actions : done' = a /\ st' = Apply(a, st)
Spec == Init /\ [][Next]_vars
Same(a, b) == \A r \in 1..G : VCloseTo(a[r], b[r], Tol(1), D1)
Scaled(x, c) == Eager([r \in 1..G |-> VScale(c, x[r])])
Linear == [][done' = "doubled" => Same(st'.img, Scaled(st.img, D2))]_vars
\* adding the projections one by one is the same as all at once
Additive == [][done' = "split" =>
    LET rest == Made([p \in 1..NRows |-> IF p = 1 THEN VConst(NCols, D0) ELSE st.rows[p]], st.angles, st.c, st.f)
    IN  Same(st.img, Eager([r \in 1..G |-> VAdd(st'.img[r], rest.img[r])]))]_vars
\* only the position relative to the axis counts
AxisOnly == [][done' = "moved" => Same(st'.img, st.img)]_vars
\* seen from behind, a projection is reversed about the axis
Opposite == [][done' = "from behind" => Same(st'.img, st.img)]_vars
NoOrder == [][done' \in {"reordered", "twice"} => Same(st'.img, st.img)]_vars
\* turning the angles turns the image about the axis (the places are -2 .. 1: those with their mirror images are compared)
At(img, x, y) == img[G + 1 - (y + 3)][x + 3]
Turned == [][done' = "turned" => \A x, y \in -1..1 : Close(At(st'.img, x, y), At(st.img, y, -x), Tol(1), D1)]_vars
\* a projection is spread along its rays: dark stays zero
Dark == done = "input" => ((\A p \in 1..NRows : \A d \in 1..NCols : DEq(st.rows[p][d], D0)) =>
            \A r \in 1..G : \A c \in 1..G : DEq(st.img[r][c], D0))
ASSUME \A k \in 1..4 : ClearAngle(Rad(Angles[k]), 16)
\* the window: one at its middle, falling, positive to its end
ASSUME LET w == Window IN DEq(w[1], D1) /\ DLt(D0, w[513]) /\ \A k \in 1..512 : DLt(w[k + 1], w[k])
=============================================================================
