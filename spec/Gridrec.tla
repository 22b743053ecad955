------------------------------ MODULE Gridrec ------------------------------
(***************************************************************************)
(* Reconstruction of one slice by gridding in the Fourier plane.           *)
(*                                                                         *)
(* The Fourier transform of every projection, about the rotation axis and  *)
(* times the filter, belongs to a line through the origin of the Fourier   *)
(* plane of the image.  It is spread over the grid points that are up to   *)
(* two apart with a window W in either direction, transformed back, and    *)
(* divided by the transform of the window (which is, for this window, the  *)
(* window again).                                                          *)
(*                                                                         *)
(* The image is real, so that half of every line is enough; and all is     *)
(* separable, so that the grid does not need to be written down: a point   *)
(* (U, V) contributes  A(x) B(y)  to the image at (x, y), with             *)
(*        A(x) = sum over u of W(U - u) exp(-2 pi i u x / n)               *)
(***************************************************************************)
EXTENDS Num
TwoPi == DMul(D2, DPi)
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE PowerFrom(_, _)
PowerFrom(p, n) == IF p >= n THEN p ELSE PowerFrom(2 * p, n)
Period(dx, gx, gy) == PowerFrom(16, MaxI(dx, MaxI(gx, gy)))
\* ---- the window: a sum of even Legendre polynomials, 512 samples from 0 to 2 ----
Coefs == <<<<5767616, 5>>, <<-8931343, 5>>, <<4167596, 5>>, <<-1053599, 5>>, <<1662374, 6>>, <<-1780527, 7>>,
           <<1372983, 8>>, <<-7963169, 10>>, <<3593372, 11>>, <<-1295941, 12>>, <<3817796, 14>>>>
Coef == Eager([k \in 1..11 |-> DDiv(DInt(Coefs[k][1]), DPow(DInt(10), DInt(Coefs[k][2])))])
RECURSIVE Legendre(_, _, _, _, _, _)
Legendre(c, j, x, p2, p1, y) ==       \* p2, p1: the polynomials of the degrees j-2 and j-1
    IF j > 20 THEN y
    ELSE LET p == DDiv(DSub(DMul(DMul(DInt(2 * j - 1), x), p1), DMul(DInt(j - 1), p2)), DInt(j))
         IN  Legendre(c, j + 1, x, p1, p, IF j % 2 = 0 THEN DAdd(y, DMul(p, c[1 + (j \div 2)])) ELSE y)
Window == LET c == Coef
              at(x) == Legendre(c, 2, x, D1, x, c[1])
              z == at(D0)
          IN  Eager([k \in 1..513 |-> DDiv(at(DRat(k - 1, 512)), z)])
W(win, d) == win[1 + DFloor(DAdd(DMul(d, DInt(256)), DHalf))]       \* d: distance, at most 2
(* what the transform of the window takes away at the distance i from the axis *)
Back(win, n, i) == LET k == DFloor(DAdd(DDiv(DInt(1024 * (IF i < 0 THEN -i ELSE i)), DInt(n - 1)), DHalf))
                       norm == DDiv(DSqrt(DDiv(DPi, DMul(DInt(14), DRat(99998546, 100000000)))), DRat(12, 10))
                   IN  DDiv(norm, win[1 + (IF k > 512 THEN 512 ELSE k)])
\* ---- filters, at the frequency x = j / n ----
Filter(f, par, x, j, p, half) ==
    LET ramp == DMul(D2, x) IN
    CASE f = "none" -> D1
      [] f = "shepp" -> IF j = 0 THEN D0 ELSE DMul(ramp, DDiv(DSin(DMul(DPi, x)), DMul(DPi, x)))
      [] f = "cosine" -> DMul(ramp, DCos(DMul(DPi, x)))
      [] f = "hann" -> DMul(DMul(ramp, DHalf), DAdd(D1, DCos(DDiv(DMul(TwoPi, x), par[1]))))
      [] f = "hamming" -> DMul(ramp, DAdd(DRat(54, 100), DMul(DRat(46, 100), DCos(DDiv(DMul(TwoPi, x), par[1])))))
      [] f = "ramlak" -> ramp
      [] f = "parzen" -> LET t == DSub(D1, DDiv(x, par[1])) IN DMul(ramp, DMul(t, DMul(t, t)))
      [] f = "butterworth" -> DDiv(ramp, DAdd(D1, DPow(DDiv(x, par[1]), DMul(D2, par[2]))))
      [] f = "custom" -> par[1 + j]
      [] f = "custom2d" -> par[1 + p * half + j]
\* ---- the lines ----
(* row: a projection; its transform about the axis, filtered, frequencies 1 .. n/2 - 1: <<re, im>> *)
Line(row, n, centre, f, par, p, np) ==
    LET half == n \div 2
        norm == DDiv(DPi, DInt(n * np))
        at(j) == LET w == DMul(norm, Filter(f, par, DRat(j, n), j, p, half))
                     ph(d) == DMul(TwoPi, DDiv(DMul(DInt(j), DSub(DInt(d - 1), centre)), DInt(n)))
                     ps == Eager([d \in 1..Len(row) |-> ph(d)])
                 IN  <<DMul(w, DDot(row, Eager([d \in 1..Len(row) |-> DCos(ps[d])]))),
                       DMul(w, DDot(row, Eager([d \in 1..Len(row) |-> DSin(ps[d])])))>>
    IN  Eager([j \in 1..(half - 1) |-> at(j)])
(* the grid points next to the coordinate U = j t, as far as they are on the grid: distance and point *)
Around(t, n, j) ==
    LET half == n \div 2
        u == DMul(DInt(j), t)
        a == MaxI(-DFloor(DSub(D2, u)), 1 - half)
        b == -MaxI(-DFloor(DAdd(u, D2)), 1 - half)
    IN  [k \in 1..(b - a + 1) |-> <<DAbs(DSub(u, DInt(a + k - 1))), a + k - 1>>]
(* the window has a jump at its end: projections whose points are on lines of the grid but for the rounding
   are not judged, except along the first axis, where there is none *)
ClearOf(t, n) == \A j \in 1..((n \div 2) - 1) : LET u == DMul(DInt(j), t)
                                                   d == DAbs(DSub(u, DInt(DFloor(DAdd(u, DHalf)))))
                                               IN  DLt(DRat(1, 50000), d)
ClearAngle(th, n) == DEq(th, D0) \/ (ClearOf(DCos(th), n) /\ ClearOf(DSin(th), n))
(* the transform of the window around U at the places xs *)
Wave(win, t, n, j, xs) ==
    LET pts == Around(t, n, j)
        ws == Eager([k \in 1..Len(pts) |-> W(win, pts[k][1])])
        ang(k, x) == DMul(TwoPi, DRat((((pts[k][2] * x) % n) + n) % n, n))
    IN  [re |-> Eager([i \in 1..Len(xs) |-> DSum([k \in 1..Len(pts) |-> DMul(ws[k], DCos(ang(k, xs[i])))])]),
         im |-> Eager([i \in 1..Len(xs) |-> DNeg(DSum([k \in 1..Len(pts) |-> DMul(ws[k], DSin(ang(k, xs[i])))]))])]
\* ---- the image: gx rows, gy columns; the rows run against the first axis of the Fourier plane's second ----
Places(n, g) == [k \in 1..g |-> (k - 1) + ((n - g) \div 2) - (n \div 2)]
(* q: [gx, gy, filter, par]; the image before the window is divided out *)
Raw(rows, theta, centre, q) ==
    LET n == Period(Len(rows[1]), q.gx, q.gy)
        half == n \div 2
        np == Len(rows)
        win == Window
        xs == Places(n, q.gy)
        ys == Places(n, q.gx)
        lines == Eager([p \in 1..np |-> Line(rows[p], n, centre, q.filter, q.par, p - 1, np)])
        m == np * (half - 1)
        P(k) == 1 + ((k - 1) \div (half - 1))
        J(k) == 1 + ((k - 1) % (half - 1))
        cs == Eager([p \in 1..np |-> DCos(theta[p])])
        sn == Eager([p \in 1..np |-> DSin(theta[p])])
        A == Eager([k \in 1..m |-> Wave(win, cs[P(k)], n, J(k), xs)])
        B == Eager([k \in 1..m |-> Wave(win, sn[P(k)], n, J(k), ys)])
        \* 2 Re (F A B):  F = f + i g
        bs == Eager([k \in 1..(2 * m) |-> IF k <= m THEN B[k].re ELSE B[k - m].im])
        FA(k, i) == LET f == lines[P(k)][J(k)]
                    IN  <<DSub(DMul(f[1], A[k].re[i]), DMul(f[2], A[k].im[i])),
                          DAdd(DMul(f[1], A[k].im[i]), DMul(f[2], A[k].re[i]))>>
        col(i) == LET fa == Eager([k \in 1..m |-> FA(k, i)])
                  IN  DComb(Eager([k \in 1..(2 * m) |-> IF k <= m THEN DMul(D2, fa[k][1]) ELSE DMul(DInt(-2), fa[k - m][2])]), bs)
        cols == Eager([i \in 1..q.gy |-> col(i)])
    IN  Eager([r \in 1..q.gx |-> Eager([c \in 1..q.gy |-> cols[c][q.gx + 1 - r]])])
(* next: 0, or 1 if the window is divided out with the value of the next place *)
Corrections(n, q, next) ==
    LET win == Window
        xs == Places(n, q.gy)
        ys == Places(n, q.gx)
        wx == Eager([i \in 1..q.gy |-> Back(win, n, xs[i] + next)])
    IN  Eager([r \in 1..q.gx |-> VScale(Back(win, n, ys[q.gx + 1 - r] + next), wx)])
Image(rows, theta, centre, q, next) ==
    LET raw == Raw(rows, theta, centre, q)
        w == Corrections(Period(Len(rows[1]), q.gx, q.gy), q, next)
    IN  Eager([r \in 1..q.gx |-> VMul(raw[r], w[r])])
=============================================================================
