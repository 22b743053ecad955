------------------------------- MODULE Linear -------------------------------
(* Linear algebra and Fourier filtering on vectors of real numbers (Num)     *)
EXTENDS Num, FiniteSets
\* ---- systems of linear equations with a positive definite matrix: elimination ----
(* rows: the augmented matrix; eliminate column k below row k *)
RECURSIVE Elim(_, _)
Elim(rows, k) ==
    IF k >= Len(rows) THEN rows
    ELSE Elim(Eager([i \in 1..Len(rows) |->
                 IF i <= k THEN rows[i]
                 ELSE VAxpy(rows[i], DNeg(DDiv(rows[i][k], rows[k][k])), rows[k])]), k + 1)
RECURSIVE Back(_, _, _)
Back(rows, k, x) ==              \* x: the solution for the unknowns k+1 .. n
    IF k = 0 THEN x
    ELSE LET n == Len(rows)
             rest == DSum([j \in 1..(n - k) |-> DMul(rows[k][k + j], x[j])])
         IN  Back(rows, k - 1, <<DDiv(DSub(rows[k][n + 1], rest), rows[k][k])>> \o x)
Solve(A, b) == LET rows == Elim(Eager([i \in 1..Len(A) |-> Eager(Append(A[i], b[i]))]), 1)
               IN  Back(rows, Len(rows), <<>>)
Gram(rows) ==                    \* A^T A for a matrix given by its rows
    LET n == Len(rows[1]) IN
    Eager([i \in 1..n |-> Eager([j \in 1..n |-> DSum([k \in 1..Len(rows) |-> DMul(rows[k][i], rows[k][j])])])])
\* ---- filters in Fourier space ----
TwoPi == DMul(D2, DPi)
(* real part of the inverse DFT of w times the DFT of a real vector = circular convolution with this kernel *)
Kernel(w) == LET m == Len(w) IN
    Eager([d \in 1..m |-> DDiv(DSum([k \in 1..m |-> DMul(w[k], DCos(DMul(TwoPi, DRat(((k - 1) * (d - 1)) % m, m))))]), DInt(m))])
KernelIm(w) == LET m == Len(w) IN
    Eager([d \in 1..m |-> DDiv(DSum([k \in 1..m |-> DMul(w[k], DSin(DMul(TwoPi, DRat(((k - 1) * (d - 1)) % m, m))))]), DInt(m))])
Circular(c, x) == LET m == Len(c) IN
    Eager([i \in 1..m |-> DSum([j \in 1..m |-> DMul(c[1 + ((i - j + m) % m)], x[j])])])
Signed(x) == Eager([i \in 1..Len(x) |-> IF i % 2 = 1 THEN x[i] ELSE DNeg(x[i])])
(* with the zero frequency of w in its middle, reached by alternating the signs of the signal *)
Centred(w, x) == Signed(Circular(Kernel(w), Signed(x)))
CentredIm(w, x) == Signed(Circular(KernelIm(w), Signed(x)))
Gauss(n, sigma) ==               \* exp(-(k - (n-1)/2)^2 / (2 sigma^2))
    Eager([k \in 1..n |-> LET t == DDiv(DRat(2 * (k - 1) - (n - 1), 2), sigma) IN DExp(DMul(DRat(-1, 2), DSq(t)))])
\* ---- two-dimensional Fourier transforms of images given by their rows ----
CosTable(n) == Eager([k \in 1..n |-> Eager([d \in 1..n |-> DCos(DMul(TwoPi, DRat(((k - 1) * (d - 1)) % n, n)))])])
SinTable(n) == Eager([k \in 1..n |-> Eager([d \in 1..n |-> DSin(DMul(TwoPi, DRat(((k - 1) * (d - 1)) % n, n)))])])
(* [re, im] of the transform of a real image *)
Dft2(x) ==
    LET m == Len(x)
        n == Len(x[1])
        cn == CosTable(n)
        sn == SinTable(n)
        cm == CosTable(m)
        sm == SinTable(m)
        are == Eager([i \in 1..m |-> Eager([k \in 1..n |-> DDot(x[i], cn[k])])])
        aim == Eager([i \in 1..m |-> Eager([k \in 1..n |-> DNeg(DDot(x[i], sn[k]))])])
    IN  [re |-> Eager([l \in 1..m |-> VAdd(DComb(cm[l], are), DComb(sm[l], aim))]),
         im |-> Eager([l \in 1..m |-> VSub(DComb(cm[l], aim), DComb(sm[l], are))])]
(* real part of the inverse transform *)
RealIdft2(F) ==
    LET m == Len(F.re)
        n == Len(F.re[1])
        cn == CosTable(n)
        sn == SinTable(n)
        cm == CosTable(m)
        sm == SinTable(m)
        bre == Eager([i \in 1..m |-> VSub(DComb(cm[i], F.re), DComb(sm[i], F.im))])
        bim == Eager([i \in 1..m |-> VAdd(DComb(sm[i], F.re), DComb(cm[i], F.im))])
    IN  Eager([i \in 1..m |-> Eager([j \in 1..n |->
            DDiv(DSub(DDot(bre[i], cn[j]), DDot(bim[i], sn[j])), DInt(m * n))])])
Modulus(F) == Eager([i \in 1..Len(F.re) |-> Eager([j \in 1..Len(F.re[1]) |->
                  DSqrt(DAdd(DSq(F.re[i][j]), DSq(F.im[i][j])))])])
(* where the coefficient of index k (from 0) goes so that the zero frequency is in the middle: n \div 2 *)
Shifted(x) == LET m == Len(x)
                  n == Len(x[1])
              IN  Eager([i \in 1..m |-> Eager([j \in 1..n |-> x[1 + ((i - 1 + m - (m \div 2)) % m)][1 + ((j - 1 + n - (n \div 2)) % n)]])])
=============================================================================
