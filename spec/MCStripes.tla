----------------------------- MODULE MCStripes -----------------------------
(* Theorems of the stripe removal methods, for every small sinogram *)
EXTENDS Stripes
CONSTANTS Vals, NRows, NCols
VARIABLES s, done
vars == <<s, done>>
Dbls(f) == Mat(NRows, NCols, LAMBDA p, x : DInt(f[p][x]))
Init == done = <<"input">> /\ \E f \in [1..NRows -> [1..NCols -> Vals]] : s = Dbls(f)
Methods == {<<"sf", 3>>, <<"sf", 2>>, <<"sorting", 3, 1>>, <<"sorting", 3, 2>>, <<"large", TRUE>>, <<"large", FALSE>>,
            <<"interpolation", TRUE>>, <<"interpolation", FALSE>>, <<"dead", FALSE>>, <<"ring", 1>>, <<"ring", 2>>, <<"wavelet">>, <<"low">>}
Snr == DInt(2)
R2 == DSqrt(DHalf)
Haar == <<R2, R2>>
Apply(m, t) ==
    CASE m[1] = "sf" -> BySmoothing(t, m[2])
      [] m[1] = "sorting" -> BySorting(t, m[2], m[3]).s
      [] m[1] = "large" -> Large(t, Snr, 3, 10, m[2]).s
      [] m[1] = "interpolation" -> ByInterpolation(t, Snr, 3, 10, m[2]).s
      [] m[1] = "dead" -> Dead(t, Snr, 3, m[2]).s
      [] m[1] = "ring" -> Ring(t, m[2])
      [] m[1] = "wavelet" -> FourierWavelet(t, Haar, DRat(1, 100), 1, FALSE)
      [] m[1] = "low" -> LowPass(t, DInt(1000), 0)
Next == done = <<"input">> /\ \E m \in Methods : done' = m /\ s' = Apply(m, s)
Spec == Init /\ [][Next]_vars
Same(a, b) == \A p \in 1..N(a) : VCloseTo(a[p], b[p], Tol(1), D1)
Uniform(a) == \A p \in 1..N(a) : \A x \in 1..W(a) : a[p][x] = a[p][1]
Did(k) == done'[1] = k
\* a sinogram without stripes stays as it is
NothingToDo == [][Uniform(s) /\ done' # <<"wavelet">> => Same(s', s)]_vars
\* the mean projection comes out smooth
MeanIsSmooth == [][Did("sf") => LET mean(a) == [x \in 1..W(a) |-> MeanOf(Col(a, x))]
                                IN  VClose(mean(s'), Smooth(mean(s), done'[2]), Tol(1))]_vars
\* values of a column keep their order
Monotone == [][Did("sorting") => \A x \in 1..W(s) : \A p, q \in 1..N(s) :
                 DLt(s[p][x], s[q][x]) => DLeq(s'[p][x], s'[q][x])]_vars
\* only the columns that are found are changed
OthersKept == [][done' \in {<<"large", FALSE>>, <<"interpolation", FALSE>>, <<"dead", FALSE>>} =>
    LET m == IF Did("large") THEN Large(s, Snr, 3, 10, FALSE).mask
             ELSE IF Did("dead") THEN DeadMask(s, Snr, 3).mask
             ELSE ByInterpolation(s, Snr, 3, 10, FALSE).mask
    IN  \A x \in 1..W(s) : m[x] \/ \A p \in 1..N(s) : s'[p][x] = s[p][x]]_vars
\* interpolation invents no new extremes
Between == [][done' \in {<<"interpolation", FALSE>>, <<"dead", FALSE>>} => \A p \in 1..N(s) :
    LET t == DSort(s[p]) IN \A x \in 1..W(s) : DLeq(DSub(t[1], Tol(1)), s'[p][x]) /\ DLeq(s'[p][x], DAdd(t[W(s)], Tol(1)))]_vars
\* the mean projection gets smoother
Rough(a, m) == LET mean == Eager([x \in 1..W(a) |-> MeanOf(Col(a, x))])
                   D == DiffRows(W(a), m)
               IN  DSum([i \in 1..Len(D) |-> DSq(DDot(D[i], mean))])
Smoother == [][Did("ring") => DLeq(Rough(s', done'[2]), DAdd(Rough(s, done'[2]), Tol(1)))]_vars
\* the filters without effect change nothing: transforms are inverted exactly
Inverted == [][done' = <<"low">> => \A p \in 1..N(s) : VCloseTo(s'[p], s[p], DRat(1, 10000), DInt(4))]_vars
WaveletInverted == done = <<"input">> => \A p \in 1..N(s) :
    LET hi == Hi(Haar) IN VCloseTo(SubSeq(Synth(Haar, hi, Analyse(Haar, s[p]), Analyse(hi, s[p])), 1, W(s)), s[p], Tol(1), D1)
=============================================================================
