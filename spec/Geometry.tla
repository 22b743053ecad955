------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Parallel-beam geometry of one slice.                                    *)
(*                                                                         *)
(* The image has nx by ny pixels of unit size, centred at the origin:      *)
(* pixel (i, j), i < nx, j < ny, is [-nx/2+i, -nx/2+i+1] x [-ny/2+j, ...]  *)
(* and is component i*ny + j + 1 of the image vector.  Under angle th the  *)
(* detector pixel d sees the line                                          *)
(*        { -s sin th + t cos th,  s cos th + t sin th ) : t real }        *)
(* with s = d - centre + 1/2.  (If (dx-1)/2 - centre is an integer, or     *)
(* less than 0.01 above one, the rays are moved by 0.01 so that they do    *)
(* not run along pixel boundaries.)                                        *)
(* The weight of a pixel in a ray is the length of the ray inside it.      *)
(***************************************************************************)
EXTENDS Num, FiniteSets

Frac(a) == DSub(a, DInt(DFloor(a)))
\* the position of the ray of detector pixel d (0-based) of dx
RayPos(dx, centre, d) ==
    LET mov == DSub(DRat(dx - 1, 2), centre)
        shift == IF DLt(Frac(mov), DRat(1, 100)) THEN DRat(1, 100) ELSE D0
    IN  DAdd(DAdd(DSub(DInt(d), centre), DHalf), shift)

Grid(n, i) == DRat(2 * i - n, 2)                  \* the i-th grid line of n + 1
Inf == DPow(DInt(10), DInt(30))

\* the interval of t in which the coordinate  o + t v  is between lines i and i+1
Span(n, i, o, v) ==
    LET a == Grid(n, i)
        b == Grid(n, i + 1)
    IN  IF DEq(v, D0)
        THEN IF DLeq(a, o) /\ DLt(o, b) THEN <<DNeg(Inf), Inf>> ELSE <<D0, D0>>
        ELSE LET t1 == DDiv(DSub(a, o), v)
                 t2 == DDiv(DSub(b, o), v)
             IN  <<DMin(t1, t2), DMax(t1, t2)>>

\* lengths of the ray (th, s) in all pixels
Ray(nx, ny, th, s) ==
    LET c == DCos(th)
        n == DSin(th)
        ox == DNeg(DMul(s, n))
        oy == DMul(s, c)
        sx == Eager([i \in 1..nx |-> Span(nx, i - 1, ox, c)])
        sy == Eager([j \in 1..ny |-> Span(ny, j - 1, oy, n)])
    IN  Eager([k \in 1..(nx * ny) |->
           LET x == sx[1 + ((k - 1) \div ny)]
               y == sy[1 + ((k - 1) % ny)]
           IN  DMax(D0, DSub(DMin(x[2], y[2]), DMax(x[1], y[1])))])

\* the system matrix: w[p][d] is the ray of projection p and detector pixel d (1-based)
System(nx, ny, theta, dx, centre) ==
    Eager([p \in 1..Len(theta) |-> Eager([d \in 1..dx |-> Ray(nx, ny, theta[p], RayPos(dx, centre, d - 1))])])

\* the implementation drops crossings with grid lines that are closer than 0.01 to the
\* corners of the grid, and cannot say on which side of a grid line a ray runs that runs
\* along it: such rays are not judged.  m: margin
AwayFrom(c, g, m) == DLt(m, DAbs(DSub(c, g)))
ClearRay(nx, ny, th, s, m) ==
    LET c == DCos(th)
        n == DSin(th)
        ox == DNeg(DMul(s, n))
        oy == DMul(s, c)
        Edge(k, g0, g1, v, o, v2, o2, num) ==   \* crossings with lines k of the other axis
            LET cr == DAdd(o2, DMul(DDiv(DSub(Grid(num, k), o), v), v2))
            IN  AwayFrom(cr, g0, m) /\ AwayFrom(cr, g1, m)
        axisx == DLt(DAbs(c), DRat(1, 10000))   \* runs along y
        axisy == DLt(DAbs(n), DRat(1, 10000))
    IN  /\ axisx \/ \A k \in 0..nx : Edge(k, Grid(ny, 0), Grid(ny, ny), c, ox, n, oy, nx)
        /\ axisy \/ \A k \in 0..ny : Edge(k, Grid(nx, 0), Grid(nx, nx), n, oy, c, ox, ny)
        /\ axisx => \A k \in 0..nx : AwayFrom(ox, Grid(nx, k), m)
        /\ axisy => \A k \in 0..ny : AwayFrom(oy, Grid(ny, k), m)
ClearView(nx, ny, theta, dx, centre, m) ==
    \A p \in 1..Len(theta) : \A d \in 1..dx : ClearRay(nx, ny, theta[p], RayPos(dx, centre, d - 1), m)

\* length of the ray inside the whole grid
Chord(nx, ny, th, s) ==
    LET c == DCos(th)
        n == DSin(th)
        ox == DNeg(DMul(s, n))
        oy == DMul(s, c)
        W(num, o, v) == LET a == DDiv(DSub(Grid(num, 0), o), v)
                            b == DDiv(DSub(Grid(num, num), o), v)
                        IN  <<DMin(a, b), DMax(a, b)>>
        x == W(nx, ox, c)
        y == W(ny, oy, n)
    IN  DMax(D0, DSub(DMin(x[2], y[2]), DMax(x[1], y[1])))

\* forward and back projection
Sim(w, x) == Eager([p \in 1..Len(w) |-> Eager([d \in 1..Len(w[p]) |-> DDot(w[p][d], x)])])
=============================================================================
