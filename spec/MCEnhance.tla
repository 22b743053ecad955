----------------------------- MODULE MCEnhance -----------------------------
(* Images are smoothed along one axis after the other, or enhanced.         *)
EXTENDS Enhance, TLC
CONSTANTS H, W, Values, Sigmas, Orders, Sizes
VARIABLES img, out, todo, par
vars == <<img, out, todo, par>>
\* sigma in quarters
Init == /\ \E f \in [1..(H * W) -> Values] : img = [y \in 1..H |-> [x \in 1..W |-> DInt(f[(y - 1) * W + x])]]
        /\ out = img
        /\ \/ todo = {1, 2} /\ par \in [s : Sigmas, o : Orders, size : {1}]
           \/ todo = {3} /\ par \in [s : {0}, o : {0}, size : Sizes]
Sigma == DRat(par.s, 4)
Along(ax) == /\ ax \in todo /\ ax \in {1, 2} /\ todo' = todo \ {ax}
             /\ out' = IF ax = 1 THEN Transpose(Rows(Transpose(out), Sigma, par.o)) ELSE Rows(out, Sigma, par.o)
             /\ UNCHANGED <<img, par>>
Contrast == 3 \in todo /\ todo' = {} /\ out' = Enhanced(img, par.size) /\ UNCHANGED <<img, par>>
Next == Along(1) \/ Along(2) \/ Contrast
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Total(a) == DSum([y \in 1..Len(a) |-> DSum(a[y])])
Flat == \A y \in 1..H, x \in 1..W : img[y][x] = img[1][1]
Same(a, b, t) == \A y \in 1..H : VCloseTo(a[y], b[y], t, DInt(10))
\* the order of the axes does not matter
Commutes == todo = {} /\ par.size = 1 /\ par.s > 0 => Same(out, Smooth(img, Sigma, Sigma, par.o, par.o), Tol(1)) \/ par.s = 0
\* smoothing keeps the total and the range, derivatives of a flat image vanish
Mass == par.size = 1 /\ 3 \notin todo /\ par.o = 0 /\ par.s > 0 => Close(Total(out), Total(img), Tol(1), DInt(100))
Vanishes == todo = {} /\ Flat /\ par.s > 0 /\ par.o \in {1, 3} => \A y \in 1..H, x \in 1..W : DLeq(DAbs(out[y][x]), Tol(1))
FlatStays == Flat /\ par.s > 0 /\ par.o = 0 => Same(out, img, Tol(1))
Unit == par.s = 0 /\ todo = {} => \A y \in 1..H, x \in 1..W : DLeq(D0, out[y][x]) /\ DLeq(out[y][x], DAdd(D1, Tol(1)))
Ends == <>(todo = {})
Staircase == \A y \in 1..H, t \in 0..W :
    LET X == CdfX(img[y], t) Y == CdfY(img[y], t) IN
    /\ Len(X) = Len(Y) /\ DEq(Y[1], D0) /\ DEq(Y[Len(Y)], D1)
    /\ \A k \in 1..(Len(X) - 1) : DLeq(X[k], X[k + 1]) /\ DLeq(Y[k], Y[k + 1])
    /\ (t > 0 => Len(X) <= 2 * t)
ASSUME \A e \in {"tiff", "tif"}, t \in {"", ".tiff", ".tif", "tiff", "_tif"}, d \in {"", "7"} :
          FileName("a", t, d, e) \in {"a" \o t \o "." \o e, "a." \o e, "a" \o t \o "/7." \o e}
\* the inverse undoes the transform; rows and columns may be swapped; a sum over all becomes the first value
Complex == [re |-> img, im |-> [y \in 1..H |-> [x \in 1..W |-> img[y][W + 1 - x]]]]
Undone == todo = {1, 2} => LET F == Fourier2(Complex, H, W, FALSE)
                               G == Fourier2(F, H, W, TRUE) IN
             /\ Same(G.re, Complex.re, Tol(1)) /\ Same(G.im, Complex.im, Tol(1))
             /\ Close(F.re[1][1], Total(img), Tol(1), DInt(100))
             /\ LET K == Flip(Fourier2(Flip(Complex), W, H, FALSE)) IN Same(K.re, F.re, Tol(1)) /\ Same(K.im, F.im, Tol(1))

=============================================================================
