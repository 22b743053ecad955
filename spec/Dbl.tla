-------------------------------- MODULE Dbl --------------------------------
(***************************************************************************)
(* Real numbers, as far as a machine has them: IEEE-754 binary64 values.   *)
(* A number is the pair <<h, l>> of the two halves (signed 32-bit          *)
(* integers) of its bit pattern, which is how the recorded executions      *)
(* carry their numbers, so that nothing is lost between the implementation *)
(* and the specification.                                                  *)
(*                                                                         *)
(* The operators below are primitive, like + on Int: TLC evaluates them    *)
(* with the class spec/java/Dbl.java, one Java operation each.  Everything *)
(* that is specified with them is written out in TLA+.                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Dbl == Int \X Int
DInt(n) == CHOOSE d \in Dbl : TRUE              \* the integer n
DRat(n, m) == CHOOSE d \in Dbl : TRUE           \* n / m
DAdd(a, b) == CHOOSE d \in Dbl : TRUE
DSub(a, b) == CHOOSE d \in Dbl : TRUE
DMul(a, b) == CHOOSE d \in Dbl : TRUE
DDiv(a, b) == CHOOSE d \in Dbl : TRUE
DNeg(a) == CHOOSE d \in Dbl : TRUE
DAbs(a) == CHOOSE d \in Dbl : TRUE
DMin(a, b) == CHOOSE d \in Dbl : TRUE
DMax(a, b) == CHOOSE d \in Dbl : TRUE
DSqrt(a) == CHOOSE d \in Dbl : TRUE
DSin(a) == CHOOSE d \in Dbl : TRUE
DCos(a) == CHOOSE d \in Dbl : TRUE
DAtan2(a, b) == CHOOSE d \in Dbl : TRUE
DExp(a) == CHOOSE d \in Dbl : TRUE
DLn(a) == CHOOSE d \in Dbl : TRUE
DPow(a, b) == CHOOSE d \in Dbl : TRUE
DPi == CHOOSE d \in Dbl : TRUE
DF32(a) == CHOOSE d \in Dbl : TRUE              \* nearest binary32 number
DFloor(a) == CHOOSE n \in Int : TRUE            \* as an integer
DRound(a) == CHOOSE n \in Int : TRUE            \* nearest integer, ties to even
DEq(a, b) == CHOOSE t \in BOOLEAN : TRUE
DLt(a, b) == CHOOSE t \in BOOLEAN : TRUE
DLeq(a, b) == CHOOSE t \in BOOLEAN : TRUE
DIsFinite(a) == CHOOSE t \in BOOLEAN : TRUE
DIsNan(a) == CHOOSE t \in BOOLEAN : TRUE
Eager(f) == f                                   \* evaluates a sequence once and for all
DSum(s) == CHOOSE d \in Dbl : TRUE              \* sum of a sequence
DDot(s, t) == CHOOSE d \in Dbl : TRUE           \* sum of the products
DComb(s, v) == CHOOSE f \in Seq(Dbl) : TRUE     \* linear combination  s[1] v[1] + s[2] v[2] + ...  of vectors
DMaxAbs(s) == CHOOSE d \in Dbl : TRUE           \* largest absolute value, 0 for << >>
=============================================================================
