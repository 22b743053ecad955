----------------------------- MODULE MCSimulate -----------------------------
(***************************************************************************)
(* A phantom is filled with one ellipsoid after the other; a detector      *)
(* whose pixels are struck at random.                                      *)
(***************************************************************************)
EXTENDS Simulate, TLC
CONSTANTS N, Values, Axes, Centres, Turns
VARIABLES todo, vol, hits
vars == <<todo, vol, hits>>
E(v, a, c, f, t, s) == [A |-> DInt(v), axes |-> <<DRat(a[1], 4), DRat(a[2], 4), DRat(a[3], 4)>>,
                        centre |-> <<DRat(c[1], 4), DRat(c[2], 4), DRat(c[3], 4)>>, phi |-> DInt(f), theta |-> DInt(t), psi |-> DInt(s)]
AxesQ == {<<2, 3, 4>>, <<3, 3, 3>>}
CentresQ == {<<0, 0, 0>>, <<1, 0, -2>>}
AxesT == AxesQ \cup {<<1, 5, 2>>}
CentresT == CentresQ \cup {<<-1, 2, 1>>}
Voxels == 0..(N * N * N - 1)
At(k) == <<Coordinate((k \div (N * N)) + 1, N), Coordinate(((k \div N) % N) + 1, N), Coordinate((k % N) + 1, N)>>
Inside(e, k) == DLeq(Distance2(e, Rotation3(e), At(k)), D1)
Sure(e) == \A k \in Voxels : DLeq(Tol(1), DAbs(DSub(Distance2(e, Rotation3(e), At(k)), D1)))
All == {E(v, a, c, f, t, s) : v \in Values, a \in Axes, c \in Centres, f \in Turns, t \in Turns, s \in Turns}
Init == /\ \E a, b \in All : todo = <<a, b>>
        /\ vol = [k \in Voxels |-> D0] /\ hits = {}
Fill == todo # <<>> /\ \E i \in 1..Len(todo) :
            /\ vol' = [k \in Voxels |-> IF Inside(todo[i], k) THEN DAdd(vol[k], todo[i].A) ELSE vol[k]]
            /\ todo' = SubSeq(todo, 1, i - 1) \o SubSeq(todo, i + 1, Len(todo))
            /\ hits' = hits \cup {todo[i]}
Next == Fill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* whatever the order, the phantom is the sum
Sum == todo = <<>> /\ (\A e \in hits : Sure(e)) /\ Cardinality(hits) = 2 =>
          LET es == SetToSeq(hits) IN
          IsPhantom(es, <<N, N, N>>, [k \in 1..(N * N * N) |-> vol[k - 1]], FALSE, Tol(1))
Orthonormal == \A e \in hits : LET M == Rotation3(e) IN
    \A i, j \in 1..3 : DLeq(DAbs(DSub(DDot(M[i], M[j]), IF i = j THEN D1 ELSE D0)), Tol(1))
\* a ball about the origin does not turn; an ellipsoid about it is its mirror image
Round == \A e \in hits : (\A a \in 1..3 : DEq(e.axes[a], e.axes[1]) /\ DEq(e.centre[a], D0)) =>
    \A k \in Voxels : DLeq(DAbs(DSub(DMul(Distance2(e, Rotation3(e), At(k)), DSq(e.axes[1])), DDot(At(k), At(k)))), Tol(1))
Symmetric == \A e \in hits : (\A a \in 1..3 : DEq(e.centre[a], D0)) /\ Sure(e) =>
    \A k \in Voxels : Inside(e, k) <=> Inside(e, N * N * N - 1 - k)
Ends == <>(todo = <<>>)
ASSUME \A n \in 2..5 : LET a == AnglesOf(n, DInt(0), DInt(180)) IN
          DEq(a[1], D0) /\ DLeq(DAbs(DSub(a[n], DPi)), Tol(1)) /\ \A k \in 2..(n - 1) : Near(DSub(a[k + 1], a[k]), DSub(a[k], a[k - 1]), Tol(1))
=============================================================================
