------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Three-dimensional arrays as they appear in a trace: a record            *)
(* [sh |-> <<d0, d1, d2>>, v |-> flat sequence in C order].  Indices are   *)
(* 0-based, as for the user of the library.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Mod(a, n) == ((a % n) + n) % n
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

Size(sh) == sh[1] * sh[2] * sh[3]
WellFormed(a) == Len(a.sh) = 3 /\ Len(a.v) = Size(a.sh)
At(a, i, j, k) == a.v[(i * a.sh[2] + j) * a.sh[3] + k + 1]
AtI(a, x) == At(a, x[1], x[2], x[3])
Idx(sh) == (0..(sh[1] - 1)) \X (0..(sh[2] - 1)) \X (0..(sh[3] - 1))
(* the array of shape sh whose element at x is F(x) *)
MkArr(sh, F(_)) == [sh |-> sh,
    v |-> [p \in 1..Size(sh) |->
             LET q == p - 1 IN F(<<q \div (sh[2] * sh[3]), (q \div sh[3]) % sh[2], q % sh[3]>>)]]
NormAxis(ax, nd) == IF ax < 0 THEN ax + nd ELSE ax

(* ---- extension of an axis of length n beyond its ends ---- *)
Sym(i, n) == LET m == Mod(i, 2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m       \* d c b a | a b c d
Mirror(i, n) == IF n = 1 THEN 0
                ELSE LET m == Mod(i, 2 * n - 2) IN IF m < n THEN m ELSE 2 * n - 2 - m  \* d c b | a b c d
Nearest(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
Own(i, n, c) == IF i < 0 \/ i >= n THEN c ELSE i      \* outside: the centre's own coordinate

(* ---- rank statistics: v is the element of 0-based rank r of W (a function) ---- *)
IsRank(v, W, r) == /\ Cardinality({x \in DOMAIN W : W[x] < v}) <= r
                   /\ Cardinality({x \in DOMAIN W : W[x] <= v}) > r
Rank(W, r) == W[CHOOSE x \in DOMAIN W : IsRank(W[x], W, r)]
Median(W) == Rank(W, Cardinality(DOMAIN W) \div 2)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
=============================================================================
