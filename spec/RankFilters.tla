---------------------------- MODULE RankFilters ----------------------------
(***************************************************************************)
(* The median based filters: what every output voxel must be.              *)
(***************************************************************************)
EXTENDS Arrays

NotFinite == {1000001, 1000002, 1000003}     \* NaN, +inf, -inf in a trace

(* window of w elements along an axis: the same as for an odd size, and one *)
(* element more before than after the centre for an even size               *)
Offs(w) == (0 - w \div 2)..(w - 1 - w \div 2)

(* 2-d median of every slice across axis ax, edges reflected *)
Win2(a, x, ax, size) ==
    LET w(d) == IF d = ax + 1 THEN 1 ELSE size
    IN  [o \in Offs(w(1)) \X Offs(w(2)) \X Offs(w(3)) |->
           At(a, Sym(x[1] + o[1], a.sh[1]), Sym(x[2] + o[2], a.sh[2]), Sym(x[3] + o[3], a.sh[3]))]
(* the same for windows w = <<w1, w2, w3>> *)
WinN(a, x, w) ==
    [o \in Offs(w[1]) \X Offs(w[2]) \X Offs(w[3]) |->
       At(a, Sym(x[1] + o[1], a.sh[1]), Sym(x[2] + o[2], a.sh[2]), Sym(x[3] + o[3], a.sh[3]))]
(* 1-d along axis ax, edges mirrored *)
Win1(a, x, ax, size) ==
    [o \in Offs(size) |->
       AtI(a, [x EXCEPT ![ax + 1] = Mirror(x[ax + 1] + o, a.sh[ax + 1])])]
(* 3-d, coordinates outside the array replaced by the centre's *)
Win3(a, x, size) ==
    LET h == (MaxI(size, 3) - 1) \div 2
    IN  [o \in (-h..h) \X (-h..h) \X (-h..h) |->
           At(a, Own(x[1] + o[1], a.sh[1], x[1]), Own(x[2] + o[2], a.sh[2], x[2]),
                 Own(x[3] + o[3], a.sh[3], x[3]))]

MedianFilter(a, ax, size) == MkArr(a.sh, LAMBDA x : Median(Win2(a, x, ax, size)))
MedianFilter3(a, size) == MkArr(a.sh, LAMBDA x : Median(Win3(a, x, size)))
(* bright spots: at least dif2/2 above the local median *)
Dezing(v, m, dif2) == IF 2 * (v - m) >= dif2 THEN m ELSE v
RemoveOutlier(a, w, dif2) == MkArr(a.sh, LAMBDA x : Dezing(AtI(a, x), Median(WinN(a, x, w)), dif2))
RemoveOutlier1(a, ax, size, dif2) ==
    MkArr(a.sh, LAMBDA x : Dezing(AtI(a, x), Median(Win1(a, x, ax, size)), dif2))
(* 3-d: bright or dark spots; a threshold of zero replaces everything *)
RemoveOutlier3(a, size, dif2) ==
    MkArr(a.sh, LAMBDA x : LET m == Median(Win3(a, x, size)) IN
                           IF dif2 = 0 \/ 2 * Abs(AtI(a, x) - m) >= dif2 THEN m ELSE AtI(a, x))

(* non-finite values replaced by the median of the finite ones around them, *)
(* in the last two axes; twice the value so that a mean of two is an integer *)
FiniteAround(a, x, size) ==
    LET h == size \div 2
        P == {y \in {x[1]} \X (MaxI(0, x[2] - h)..MinI(a.sh[2] - 1, x[2] + h))
                          \X (MaxI(0, x[3] - h)..MinI(a.sh[3] - 1, x[3] + h)) :
                AtI(a, y) \notin NotFinite}
    IN  [y \in P |-> AtI(a, y)]
Median2x(W) == LET n == Cardinality(DOMAIN W) IN
               IF n % 2 = 1 THEN 2 * Rank(W, n \div 2) ELSE Rank(W, n \div 2) + Rank(W, n \div 2 - 1)
NonfiniteFails(a, size) ==
    \E x \in Idx(a.sh) : AtI(a, x) \in NotFinite /\ DOMAIN FiniteAround(a, x, size) = {}
FilterNonfinite2x(a, size) ==
    MkArr(a.sh, LAMBDA x : IF AtI(a, x) \in NotFinite THEN Median2x(FiniteAround(a, x, size))
                           ELSE 2 * AtI(a, x))

(* Sobel: derivative along the last of the remaining axes, [1 2 1] along the other *)
Sobel(a, ax) ==
    LET d == IF ax = 2 THEN 2 ELSE 3            \* derivative axis (1-based)
        s == IF ax = 0 THEN 2 ELSE 1            \* smoothing axis (1-based)
        V(x, i, j) == AtI(a, [x EXCEPT ![s] = Sym(x[s] + i, a.sh[s]), ![d] = Sym(x[d] + j, a.sh[d])])
    IN  MkArr(a.sh, LAMBDA x : (V(x, -1, 1) - V(x, -1, -1)) + 2 * (V(x, 0, 1) - V(x, 0, -1))
                               + (V(x, 1, 1) - V(x, 1, -1)))
=============================================================================
