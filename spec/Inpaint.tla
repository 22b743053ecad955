------------------------------- MODULE Inpaint -------------------------------
(***************************************************************************)
(* Filling of a masked region from its surroundings, pass by pass.         *)
(* img: an array (Arrays) of real numbers; exactly 0 means "no value".     *)
(* todo: the set of positions (1-based into img.v) still to be filled.     *)
(* A volume with a single plane is filled in the plane.                    *)
(***************************************************************************)
EXTENDS Arrays, Num, TLC

Flat(a) == a.sh[1] = 1
Pos(sh, p) == <<(p - 1) \div (sh[2] * sh[3]), ((p - 1) \div sh[3]) % sh[2], (p - 1) % sh[3]>>
Has(d) == ~DEq(d, D0)
(* the offsets of the window of half size h, in the order x, y, z (z fastest) *)
Offsets(h, flat) ==
    LET n == 2 * h + 1 IN
    IF flat THEN [k \in 1..(n * n) |-> <<0, ((k - 1) % n) - h, ((k - 1) \div n) - h>>]
    ELSE [k \in 1..(n * n * n) |-> <<((k - 1) % n) - h, (((k - 1) \div n) % n) - h, ((k - 1) \div (n * n)) - h>>]
In(sh, x) == x[1] \in 0..(sh[1] - 1) /\ x[2] \in 0..(sh[2] - 1) /\ x[3] \in 0..(sh[3] - 1)
(* the values in the window around x: records of value and squared distance *)
Window(a, x, h) ==
    LET offs == Offsets(h, Flat(a))
        ok(o) == LET y == <<x[1] + o[1], x[2] + o[2], x[3] + o[3]>> IN In(a.sh, y) /\ Has(AtI(a, y))
        sel == SelectSeq(offs, ok)
    IN  [k \in 1..Len(sel) |-> LET o == sel[k] IN
            [v |-> At(a, x[1] + o[1], x[2] + o[2], x[3] + o[3]), d |-> o[1] * o[1] + o[2] * o[2] + o[3] * o[3]]]
Values(a, x, h) == LET w == Window(a, x, h) IN [k \in 1..Len(w) |-> w[k].v]
DSort(v) == SortSeq(v, LAMBDA a, b : DLt(a, b))
\* the values of the window weighted with a Gaussian of their distance
Full(a, h) == IF Flat(a) THEN (2 * h + 1) * (2 * h + 1) ELSE (2 * h + 1) * (2 * h + 1) * (2 * h + 1)
Weighted(a, x, h) ==
    LET w == Window(a, x, h)
        g == [k \in 1..Len(w) |-> DExp(DNeg(DRat(w[k].d, 2 * Full(a, h))))]
    IN  DDiv(DSum([k \in 1..Len(w) |-> DMul(g[k], w[k].v)]), DSum(g))
MidOf(v) == DSort(v)[1 + Len(v) \div 2]
\* what the planar implementation does: the last value is left out of the sorting
MidButLast(v) == LET n == Len(v)
                     s == Append(DSort(SubSeq(v, 1, n - 1)), v[n])
                 IN  s[1 + n \div 2]
Value(a, x, h, mode) ==
    CASE mode = "mean" -> Weighted(a, x, h)
      [] mode = "median" -> MidOf(Values(a, x, h))
      [] mode = "butlast" -> IF Flat(a) THEN MidButLast(Values(a, x, h)) ELSE MidOf(Values(a, x, h))
\* only next to known values
Ready(a, todo) == {p \in todo : Len(Window(a, Pos(a.sh, p), 1)) > 0}
Pass(a, todo, h, mode) ==
    LET r == Ready(a, todo) IN
    [img |-> [a EXCEPT !.v = Eager([p \in 1..Len(a.v) |-> IF p \in r THEN Value(a, Pos(a.sh, p), h, mode) ELSE a.v[p]])],
     todo |-> todo \ r]
Emptied(a, mask) == [a EXCEPT !.v = Eager([p \in 1..Len(a.v) |-> IF p \in mask THEN D0 ELSE a.v[p]])]
RECURSIVE Fill(_, _, _)
Fill(s, h, mode) ==              \* until everything that can be reached is filled
    IF Ready(s.img, s.todo) = {} THEN s ELSE Fill(Pass(s.img, s.todo, h, mode), h, mode)
RECURSIVE Again(_, _, _, _, _)
Again(a, mask, h, mode, n) ==    \* n further passes over the whole region
    IF n = 0 THEN a ELSE Again(Pass(a, mask, h, mode).img, mask, h, mode, n - 1)
Inpainted(a, mask, h, mode, n) ==
    Again(Fill([img |-> Emptied(a, mask), todo |-> mask], h, mode).img, mask, h, mode, n)
=============================================================================
