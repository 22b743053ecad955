------------------------------ MODULE MCPhase ------------------------------
(* Theorems of phase retrieval and propagation, for every small image      *)
EXTENDS Phase
CONSTANTS Vals, NRows, NCols
VARIABLES s, done
vars == <<s, done>>
Dbls(f) == Eager([i \in 1..NRows |-> Eager([j \in 1..NCols |-> DInt(f[i][j])])])
Init == done = "input" /\ \E f \in [1..NRows -> [1..NCols -> Vals]] : s = Dbls(f)
Px == DRat(1, 10000)
Par(alpha, pad) == [px |-> Px, dist |-> D2, energy |-> DInt(20), alpha |-> alpha, pad |-> pad]
Actions == {"whole", "padded", "sharp", "flat field", "at the object", "near", "far"}
Unit == <<<<D1, D2>>, <<D2, D1>>>>
Apply(a, x) ==
    CASE a = "whole" -> Retrieve(x, Par(DRat(1, 1000), FALSE))
      [] a = "padded" -> Retrieve(x, Par(DRat(1, 1000), TRUE))
      [] a = "sharp" -> Retrieve(x, Par(DInt(100000000), TRUE))
      [] a = "flat field" -> Transport(x, Eager([i \in 1..NRows |-> VConst(NCols, D2)]), D1, D2)
      [] a = "at the object" -> Transport(x, x, D1, D0)
      [] a = "near" -> Intensities(Unit, x, 1, 1, FALSE)[1]
      [] a = "far" -> Intensities(Unit, x, 1, 1, TRUE)[1]
Next == done = "input" /\ \E a \in Actions : done' = a /\ s' = Apply(a, s)
Spec == Init /\ [][Next]_vars
Same(a, b, t) == Len(a) = Len(b) /\ \A p \in 1..Len(a) : VCloseTo(a[p], b[p], t, D1)
Total(x) == DSum([i \in 1..Len(x) |-> DSum(x[i])])
Power(x) == Total(Squares(x))
Uniform(x) == \A i \in 1..Len(x) : \A j \in 1..Len(x[1]) : x[i][j] = x[1][1]
Retrieval == {"whole", "padded", "sharp"}
\* an empty field stays as it is
Empty == [][Uniform(s) /\ done' \in Retrieval => Same(s', s, Tol(1))]_vars
\* nothing is created or lost
MeanKept == [][done' = "whole" => Close(Total(s'), Total(s), Tol(1), D1)]_vars
\* no frequency is amplified
Smoothed == [][done' = "whole" => DLeq(Power(s'), DAdd(Power(s), Tol(1)))]_vars
\* twice the signal gives twice the result
Linear2 == [][done' \in Retrieval => Same(Apply(done', Eager([i \in 1..NRows |-> VScale(D2, s[i])])),
                                          Eager([i \in 1..NRows |-> VScale(D2, s'[i])]), Tol(1))]_vars
\* strong regularization: the image itself
Sharp == [][done' = "sharp" => Same(s', s, DRat(1, 1000))]_vars
\* only attenuation without a phase gradient, or without a distance
NoPhase == [][done' \in {"flat field", "at the object"} =>
               Same(s', Eager([i \in 1..NRows |-> Eager([j \in 1..NCols |-> DExp(DNeg(s[i][j]))])]), Tol(1))]_vars
\* the far field has the intensity of the near field (Parseval); its middle belongs to the mean
Parseval == [][done' = "far" => LET near == Apply("near", s) IN
                  /\ Close(Total(s'), DMul(DInt(4), Total(near)), Tol(1), DInt(100))
                  /\ Close(s'[2][2], DSq(Total(Scan(Unit, s, 1, 1)[1])), Tol(1), DInt(100))]_vars
=============================================================================
