----------------------------- MODULE TraceAlign -----------------------------
EXTENDS Align, Conform
ImgClose(a, b, tol, scale) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : VCloseTo(a[i], b[i], tol, scale)
Each(r, f(_), tol) == Len(r.out) = Len(r.imgs) /\ \A k \in 1..Len(r.imgs) : ImgClose(r.out[k], f(k), tol, Biggest(r.imgs[k]))
Most(r) == DMaxAbs([k \in 1..Len(r.imgs) |-> Biggest(r.imgs[k])])
(* the image in the middle of the frame is where the reference has it *)
Back(r, k) == LET x == r.imgs[k]
                  h == Moved(x, r.drift[k][1], r.drift[k][2])
                  m == r.margin
              IN  \A y \in (1 + m)..(Rows(x) - m) : \A c \in (1 + m)..(Cols(x) - m) :
                      Close(r.out[k][y][c], h[y][c], DRat(1, 200), Biggest(x))
(* what comes in from outside is 0, or the value nearest to 0 that the image has *)
Follows(r, k) ==
    LET x == r.imgs[k]
        w == Moved(x, r.sy[k], r.sc[k])
        vs == {x[i][j] : i \in 1..Rows(x), j \in 1..Cols(x)}
        tol == Tol(40)
        near == DClamp(D0, Lowest(vs), Highest(vs))
    IN  \A y \in 1..Rows(x) : \A c \in 1..Cols(x) :
            \/ Close(r.out[k][y][c], w[y][c], tol, Biggest(x))
            \/ /\ ~(y + r.sy[k] \in 1..Rows(x) /\ c + r.sc[k] \in 1..Cols(x))
               /\ Close(r.out[k][y][c], near, tol, Biggest(x))
Right(r) ==
    CASE r.op = "unwarp" -> Each(r, LAMBDA k : Unwarp(r.imgs[k], r.xc, r.yc, r.fact), Tol(40))
      [] r.op = "sino" -> Len(r.out[1]) = Len(r.imgs) /\ \A k \in 1..Len(r.imgs) :
            VCloseTo(r.out[1][k], UnwarpRow(r.imgs[k], r.xc, r.yc, r.fact, r.ind), Tol(10), Biggest(r.imgs[k]))
      [] r.op = "coefs" -> r.coefs = r.written
      [] r.op = "shift" -> Len(r.out) = Len(r.imgs) /\ \A k \in 1..Len(r.imgs) : Follows(r, k)
      [] r.op = "jitter" -> /\ \A k \in 1..Len(r.imgs) : DLeq(r.low, r.jc[k]) /\ DLeq(r.jc[k], r.high) /\ DLeq(r.low, r.jy[k]) /\ DLeq(r.jy[k], r.high)
                            /\ Each(r, LAMBDA k : Jittered(r.imgs[k], r.jc[k], r.jy[k]), Tol(5))
      [] r.op = "scale" -> LET m == Most(r) IN
            /\ Near(r.scl, m, Tol(1))
            /\ Each(r, LAMBDA k : Img(Rows(r.imgs[k]), Cols(r.imgs[k]), LAMBDA y, c : IF DEq(m, D0) THEN D0 ELSE DDiv(At(r.imgs[k], y, c), m)), Tol(1))
      [] r.op = "blur" -> \E edge \in {D0, D1} : Each(r, LAMBDA k : BlurredTo(r.imgs[k], r.low, r.high, edge), Tol(5))
      [] r.op = "slits" -> Corners(r.imgs[1], r.k2, r.k1, r.quadrant, r.found)
      [] r.op = "crop" -> Each(r, LAMBDA k : Inside(r.imgs[k], r.corners, r.clip), D0)
      [] r.op = "affine" -> \A i \in 1..Len(r.src) : VCloseTo(Maps(r.matrix, r.src[i]), r.dst[i], Tol(1), DInt(100))
      [] r.op = "drift" -> /\ \A k \in 1..Len(r.imgs) : Back(r, k)
                          (* corners far from the reference are not believed: the image stays *)
                          /\ r.corners # <<>> => r.corners[1] = r.corners[2]
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE Clause("shape", r.shape = r.want) \cup Clause(r.op, r.shape = r.want => Right(r))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
