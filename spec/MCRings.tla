------------------------------ MODULE MCRings ------------------------------
(***************************************************************************)
(* Ring removal, step by step on small slices: looked at in polar          *)
(* coordinates, compared with the median, averaged, taken away.            *)
(***************************************************************************)
EXTENDS Rings
CONSTANTS Size, Levels, Heights, Widths, Thetas, Thresholds
VARIABLES img, par, step, P, D, out
vars == <<img, par, step, P, D, out>>
C == Size \div 2
Ctr == DInt(C)
Dist2(x, y) == (x - C) * (x - C) + (y - C) * (y - C)
\* background b, a ring of radius k and height v on the half plane above row n, one pixel changed
Slice(b, k, v, n, q) ==
    [y \in 1..Size |-> [x \in 1..Size |->
        b + (IF y - 1 >= n /\ k \in Around(DAdd(DSqrt(DInt(Dist2(x - 1, y - 1))), DHalf)) THEN v ELSE 0)
          + (IF q = <<x, y>> THEN 1 ELSE 0)]]
Init == /\ \E b \in Levels, k \in 0..C, v \in Heights, n \in {0, C}, q \in {<<0, 0>>, <<C, C + 1>>, <<1, 1>>, <<Size, C + 2>>} :
              img = Slice(b, k, v, n, q)
        /\ \E t \in Thetas, w \in Widths, h \in Thresholds, m \in BOOLEAN :
              par = [cx |-> Ctr, cy |-> Ctr, tmax |-> 20, tmin |-> -20, thresh |-> h, theta |-> t, width |-> w, wrap |-> m]
        /\ step = "slice" /\ P = <<>> /\ D = <<>> /\ out = <<>>
R == Radii(par, Size, Size)
H == Directions(R)
ToPolar == step = "slice" /\ step' = "polar" /\ P' = Polar(img, par, R, H) /\ UNCHANGED <<img, par, D, out>>
Compare == step = "polar" /\ step' = "difference" /\ D' = Difference(P, par, R, H) /\ UNCHANGED <<img, par, P, out>>
TakeAway == /\ step = "difference" /\ step' = "done"
            /\ out' = [y \in 1..Size |-> [x \in 1..Size |-> Corrections(D, par, x - 1, y - 1, R, H)]]
            /\ UNCHANGED <<img, par, P, D>>
Next == ToPolar \/ Compare \/ TakeAway
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every polar sample is a pixel at that radius, up to the diagonal of a pixel
Sampled == step # "slice" => \A i \in 1..H, k \in 1..R :
    \E x, y \in 0..(Size - 1) : /\ Dist2(x, y) <= k * k /\ Dist2(x, y) >= Greater(0, k - 2) * (k - 2)
                                /\ P[i][k] = Clip(img[y + 1][x + 1], par)
\* no correction is larger than the threshold, none where nothing differs
Bounded == step = "done" => \A y, x \in 1..Size : \A c \in out[y][x] :
              c[1] <= par.thresh * c[2] /\ -c[1] <= par.thresh * c[2]
\* corners are beyond the last radius
CornersKept == step = "done" => \A y, x \in 1..Size :
                  4 * Dist2(x - 1, y - 1) > (2 * R - 1) * (2 * R - 1) + 1 => out[y][x] = {<<0, 1>>}
\* an image of one value has no artefacts
FlatKept == step = "done" /\ (\A y, x \in 1..Size : img[y][x] = img[1][1]) =>
                \A y, x \in 1..Size : \A c \in out[y][x] : c[1] = 0
\* a complete narrow ring on a flat background is gone, whatever the average
RingGone == (step = "done" /\ par.thresh > 10) =>
    \A b \in Levels, v \in Heights, k \in {R - 1} :
        (b > 0 /\ v > 0 /\ par.width >= 1 /\ img = Slice(b, k, v, 0, <<0, 0>>)) =>
            \A y, x \in 1..Size : Dist2(x - 1, y - 1) = k * k =>
                \E c \in out[y][x] : c[1] > 0 /\ c[1] <= v * c[2]
Ends == <>(step = "done")
=============================================================================
