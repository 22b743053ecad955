------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Which calls are admissible, and what an admissible call returns.  A     *)
(* request names the function (op), the shapes of the arrays it is given   *)
(* and its options.  Verdict of a request: "yes" (it must succeed), "no"   *)
(* (it must be refused with an error).                                     *)
(*                                                                         *)
(* The functions hand their arrays to libraries that read and write as     *)
(* many elements as the shapes of the main array tell them to; Reads gives *)
(* what is read of every other array, Sizes how much there is.  A request  *)
(* that is admissible stays within its arrays (MCRequests).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Algs == {"art", "bart", "fbp", "gridrec", "mlem", "osem", "ospml_hybrid", "ospml_quad",
         "pml_hybrid", "pml_quad", "sirt", "tv", "grad", "tikh"}
Blocks == {"bart", "osem", "ospml_hybrid", "ospml_quad"}
Penalized == {"ospml_hybrid", "ospml_quad", "pml_hybrid", "pml_quad"}
Keywords == {"num_gridx", "num_gridy", "num_iter", "num_block", "ind_block", "reg_par",
             "reg_data", "filter_name", "filter_par", "init_recon"}
Allowed(a) == {"num_gridx", "num_gridy", "init_recon"}
              \cup (IF a \in {"fbp", "gridrec"} THEN {"filter_name", "filter_par"} ELSE {"num_iter"})
              \cup (IF a \in Blocks THEN {"num_block", "ind_block"} ELSE {})
              \cup (IF a \in Penalized \cup {"tv", "grad", "tikh"} THEN {"reg_par"} ELSE {})
              \cup (IF a = "tikh" THEN {"reg_data"} ELSE {})
RegPars(a) == IF a \in {"ospml_hybrid", "pml_hybrid", "tikh"} THEN 2 ELSE 1

Larger(a, b) == IF a > b THEN a ELSE b
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Positive(s) == \A k \in 1..Len(s) : s[k] >= 1
\* the smallest even number that is at least two more than the diagonal
RECURSIVE Even(_, _)
Even(q, e) == IF (e - 2) * (e - 2) >= q THEN e ELSE Even(q, e + 2)
Padded(a, b) == Even(a * a + b * b, 2)
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
\* axes count from the end if negative
AxisOk(a, n) == -n <= a /\ a < n
Ax(a, n) == IF a < 0 THEN a + n + 1 ELSE a + 1

(* A list of centres: -1 none, 0 a single number, otherwise its length *)
CentreOk(c, n) == c \in {-1, 0, 1, n}
CentreLen(c, n) == IF c \in {-1, 0, 1} THEN n ELSE c

(***************************************************************************)
(* recon: kw is a sequence of [k |-> name, v |-> numbers]: the value of a  *)
(* number, the length or shape of an array, the elements of ind_block, the *)
(* number of values of filter_par; flt is the name of the filter           *)
(***************************************************************************)
Has(r, k) == \E i \in 1..Len(r.kw) : r.kw[i].k = k
Arg(r, k, default) == IF Has(r, k) THEN (r.kw[CHOOSE i \in 1..Len(r.kw) : r.kw[i].k = k]).v ELSE default
Ns(r) == IF r.sino THEN r.sh[1] ELSE r.sh[2]
Nt(r) == IF r.sino THEN r.sh[2] ELSE r.sh[1]
Nx(r) == r.sh[3]
Gx(r) == Arg(r, "num_gridx", <<Nx(r)>>)[1]
Gy(r) == Arg(r, "num_gridy", <<Nx(r)>>)[1]
ReconShape(r) == <<Ns(r), Gx(r), Gy(r)>>
NumBlock(r) == Arg(r, "num_block", <<1>>)[1]
Order(r) == Arg(r, "ind_block", [k \in 1..Nt(r) |-> k - 1])
\* the number of filter parameters that are read
FilterPars(r) == LET half == Pow2(Larger(Nx(r), Larger(Gx(r), Gy(r))), 16) \div 2
                 IN  CASE r.flt \in {"hann", "hamming", "parzen"} -> 1
                       [] r.flt = "butterworth" -> 2
                       [] r.flt = "custom" -> half
                       [] r.flt = "custom2d" -> half * Nt(r)
                       [] OTHER -> 0
\* without filter_par there are two
FilterParLen(r) == IF Has(r, "filter_par") THEN Arg(r, "filter_par", <<0>>)[1] ELSE 2
ReconOk(r) ==
    /\ Len(r.sh) = 3
    /\ r.alg \in Algs
    /\ r.nth = Nt(r)
    /\ CentreOk(r.centre, Ns(r))
    /\ \A i \in 1..Len(r.kw) : r.kw[i].k \in Allowed(r.alg)
    /\ Gx(r) >= 1 /\ Gy(r) >= 1
    /\ r.alg \in Penalized => Gx(r) >= 2 /\ Gy(r) >= 2
    /\ Arg(r, "init_recon", ReconShape(r)) = ReconShape(r)
    /\ Arg(r, "reg_data", ReconShape(r)) = ReconShape(r)
    /\ Arg(r, "reg_par", <<10>>)[1] >= RegPars(r.alg)
    /\ NumBlock(r) >= 1
    /\ NumBlock(r) > 1 => /\ Len(Order(r)) = Nt(r)
                          /\ \A k \in 1..Len(Order(r)) : Order(r)[k] \in 0..(Nt(r) - 1)
    /\ r.alg = "gridrec" => FilterParLen(r) >= FilterPars(r)

(***************************************************************************)
(* the other functions                                                     *)
(***************************************************************************)
Cube(s) == s[1] = s[2] /\ s[2] = s[3]
ProjWidth(r) == LET s == r.shs[1] IN IF r.pad THEN Padded(s[2], s[3]) ELSE s[2]
ProjectOk(r) == /\ \A k \in 1..Len(r.shs) : Len(r.shs[k]) = 3 /\ r.shs[k] = r.shs[1]
                /\ CentreOk(r.centre, r.shs[1][1])
                /\ r.op = "project3" => r.axis \in 0..2 /\ (r.axis # 0 => Cube(r.shs[1]))
ProjectShape(r) == LET s == r.shs[1]
                   IN  IF r.sino THEN <<s[1], r.nth, ProjWidth(r)>> ELSE <<r.nth, s[1], ProjWidth(r)>>
VectorOk(r) == /\ \A k \in 1..Len(r.shs) : Len(r.shs[k]) = 3 /\ r.shs[k] = r.shs[1]
               /\ \A k \in 1..Len(r.shs) : /\ r.nths[k] = r.shs[1][1]
                                           /\ CentreOk(r.centres[k], r.shs[1][2])
                                           /\ r.axes[k] \in 0..2
                                           /\ r.axes[k] # 0 => r.shs[1][2] = r.shs[1][3]
VectorShape(r) == LET s == r.shs[1] IN <<IF r.op = "vector" THEN 2 ELSE 3, s[2], s[3], s[3]>>

Pixels(s) == IF Len(s) = 2 THEN s ELSE Tail(s)
NormalizeOk(r) == /\ Len(r.sh) = 3 /\ Len(r.flat) \in {2, 3} /\ Len(r.dark) \in {2, 3}
                  /\ Pixels(r.flat) = Tail(r.sh) /\ Pixels(r.dark) = Tail(r.sh)
                  /\ r.avg \in {"mean", "median"}
                  /\ r.out = <<>> \/ r.out = r.sh
NormalizeNfOk(r) == /\ NormalizeOk(r) /\ Len(r.flat) = 3
                    /\ Len(r.locs) >= 1 /\ Len(r.locs) <= r.flat[1]
BgOk(r) == Len(r.sh) = 3 /\ r.air >= 1 /\ r.air <= r.sh[3]
Filter3dOk(r) == Len(r.sh) = 3 /\ Positive(r.sh)
DetectOk(r) == Filter3dOk(r) /\ r.size > 0 /\ r.size <= r.sh[1] \div 2
MaskOk(r) == /\ Filter3dOk(r) /\ r.len > 0 /\ r.len < r.sh[1] /\ r.depth >= 0 /\ r.depth < r.sh[2]
             /\ r.width > 0 /\ r.width < r.sh[3] /\ r.perc > 0 /\ r.perc <= 100
\* axis 9: none
InpaintOk(r) == /\ Len(r.sh) \in {2, 3} /\ Positive(r.sh) /\ r.mask = r.sh /\ r.mtype = "bool"
                /\ r.type \in {"mean", "median", "random"} /\ r.size >= 1
                /\ r.axis = 9 \/ (Len(r.sh) = 3 /\ r.axis \in 0..2)
RingOk(r) == /\ Len(r.sh) = 3 /\ r.mode \in {"WRAP", "REFLECT", "wrap", "Reflect"}
             /\ r.tmin >= 0 /\ r.tmin < 180 /\ r.rwidth >= 0
             /\ r.cx \in 0..(r.sh[3] - 1) /\ r.cy \in 0..(r.sh[2] - 1)
PadOk(r) == /\ AxisOk(r.axis, Len(r.sh)) /\ r.npad >= 0 /\ r.mode \in {"constant", "edge"}
            /\ r.key = "" \/ (r.key = "constant_values" /\ r.mode = "constant")
PadShape(r) == [r.sh EXCEPT ![Ax(r.axis, Len(r.sh))] = @ + 2 * r.npad]
StitchOk(r) == Len(r.sh) = 3 /\ r.rotation \in {"left", "right"} /\ r.overlap >= 0 /\ r.overlap <= r.sh[3]
StitchShape(r) == <<r.sh[1] \div 2, r.sh[2], 2 * r.sh[3] - r.overlap>>
SampleOk(r) == Len(r.sh) = 3 /\ AxisOk(r.axis, 3) /\ r.level >= 0
SampleShape(r) == [r.sh EXCEPT ![Ax(r.axis, 3)] = IF r.up THEN @ * 2 ^ r.level ELSE @ \div (2 ^ r.level)]
AlongOk(r) == Len(r.sh) = 3 /\ AxisOk(r.axis, 3) /\ (r.out = <<>> \/ r.out = r.sh)
CentreFindOk(r) == /\ Len(r.sh) = 3 /\ r.nth = r.sh[1] /\ r.ind \in 0..(r.sh[2] - 1)
VoOk(r) == Len(r.sh) = 3 /\ r.ind \in 0..(r.sh[2] - 1)
PcOk(r) == r.sh = r.sh2
WaveletOk(r) == Len(r.sh) = 3 /\ r.wname \in {"db5", "haar", "sym2"}
ShiftOk(r) == Len(r.sh) = 3 /\ r.nsx = r.sh[1] /\ r.nsy = r.sh[1]
IntensityOk(r) == r.mode \in {"near", "far"} /\ r.probe[1] <= r.sh[1] /\ r.probe[2] <= r.sh[2]

Ok(r) == CASE r.op = "recon" -> ReconOk(r)
           [] r.op \in {"project", "project2", "project3"} -> ProjectOk(r)
           [] r.op \in {"vector", "vector2", "vector3"} -> VectorOk(r)
           [] r.op = "normalize" -> NormalizeOk(r)
           [] r.op = "normalize_nf" -> NormalizeNfOk(r)
           [] r.op = "normalize_bg" -> BgOk(r)
           [] r.op \in {"median_filter3d", "remove_outlier3d"} -> Filter3dOk(r)
           [] r.op = "stripes_detect3d" -> DetectOk(r)
           [] r.op = "stripes_mask3d" -> MaskOk(r)
           [] r.op = "inpainter_morph" -> InpaintOk(r)
           [] r.op = "remove_ring" -> RingOk(r)
           [] r.op = "pad" -> PadOk(r)
           [] r.op = "sino_360_to_180" -> StitchOk(r)
           [] r.op = "sample" -> SampleOk(r)
           [] r.op = "along" -> AlongOk(r)
           [] r.op = "find_center" -> CentreFindOk(r)
           [] r.op = "find_center_vo" -> VoOk(r)
           [] r.op = "find_center_pc" -> PcOk(r)
           [] r.op = "remove_stripe_fw" -> WaveletOk(r)
           [] r.op = "shift_images" -> ShiftOk(r)
           [] r.op = "calc_intensity" -> IntensityOk(r)
\* the shape of the result; <<>>: a single number or not said here
Shape(r) == CASE r.op = "recon" -> ReconShape(r)
              [] r.op \in {"project", "project2", "project3"} -> ProjectShape(r)
              [] r.op \in {"vector", "vector2", "vector3"} -> VectorShape(r)
              [] r.op = "pad" -> PadShape(r)
              [] r.op = "sino_360_to_180" -> StitchShape(r)
              [] r.op = "sample" -> SampleShape(r)
              [] r.op \in {"find_center", "find_center_vo", "find_center_pc", "calc_intensity"} -> <<>>
              [] OTHER -> r.sh

(***************************************************************************)
(* memory: how many elements of the arrays other than the first are read,  *)
(* and how many there are                                                  *)
(***************************************************************************)
Item(need, size) == [need |-> need, size |-> size]
Reads(r) ==
    CASE r.op = "recon" /\ Len(r.sh) = 3 ->
           {Item(Nt(r), r.nth), Item(Ns(r), CentreLen(r.centre, Ns(r))),
            Item(Prod(ReconShape(r)), Prod(Arg(r, "init_recon", ReconShape(r)))),
            Item(RegPars(r.alg), Arg(r, "reg_par", <<10>>)[1]),
            Item(IF r.alg = "tikh" THEN Prod(ReconShape(r)) ELSE 0, Prod(Arg(r, "reg_data", ReconShape(r)))),
            Item(IF NumBlock(r) > 1 THEN Nt(r) ELSE 0, Len(Order(r))),
            Item(IF r.alg = "gridrec" THEN FilterPars(r) ELSE 0, FilterParLen(r))}
           \cup {Item(Order(r)[k] + 1, Nt(r)) : k \in IF NumBlock(r) > 1 THEN 1..Len(Order(r)) ELSE {}}
      [] r.op \in {"project", "project2", "project3"} /\ Len(r.shs[1]) = 3 ->
           {Item(Prod(r.shs[1]), Prod(r.shs[k])) : k \in 1..Len(r.shs)}
           \cup {Item(r.shs[1][1], CentreLen(r.centre, r.shs[1][1]))}
           \* along another axis the slices are of the size of the first axes
           \cup (IF r.op = "project3" /\ r.axis # 0
                 THEN {Item(r.shs[1][1] * r.shs[1][2] * r.shs[1][3],
                            r.shs[1][IF r.axis = 1 THEN 3 ELSE 2] * r.shs[1][2] * r.shs[1][3])} ELSE {})
      [] r.op \in {"vector", "vector2", "vector3"} ->
           {Item(Prod(r.shs[1]), Prod(r.shs[k])) : k \in 1..Len(r.shs)}
           \cup {Item(r.shs[1][1], r.nths[k]) : k \in 1..Len(r.shs)}
           \cup {Item(r.shs[1][2], CentreLen(r.centres[k], r.shs[1][2])) : k \in 1..Len(r.shs)}
      [] r.op = "normalize_bg" /\ Len(r.sh) = 3 -> {Item(r.air, r.sh[3])}
      [] r.op = "inpainter_morph" -> {Item(Prod(r.sh), Prod(r.mask))}
      [] OTHER -> {}
Safe(r) == \A i \in Reads(r) : i.need <= i.size
=============================================================================
