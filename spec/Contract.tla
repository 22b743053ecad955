------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The contract of every public array function, as far as it is common to  *)
(* all of them: along which axis its slices are independent, how it may be *)
(* parallelised, what it may overwrite, what it returns.  GenContract      *)
(* enumerates the calls to make from this table; TraceContract judges what *)
(* the calls did against it.                                               *)
(*                                                                         *)
(*  ax, oax   axis of the slices in the input and in the result; -1: none; *)
(*            9: the axis that is passed to the function                   *)
(*  par       "none", "core" (ncore), "both" (ncore and nchunk)            *)
(*  kw        TRUE if the function takes out=                              *)
(*  inpl      TRUE if it may overwrite a float32 input                     *)
(*  tol       permitted deviation between two ways of computing the same   *)
(*            slice, in 1e-7 of the largest value (0: identical)           *)
(*  res       dtype of the result: "f32", "f64", "same", "bool"            *)
(*  lay       TRUE if the values do not depend on dtype and memory layout  *)
(*  group     "filter", "prep", "stripe", "recon", "sim"                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

F(fn, ax, oax, par, kw, inpl, tol, res, lay, group) ==
    [fn |-> fn, ax |-> ax, oax |-> oax, par |-> par, kw |-> kw, inpl |-> inpl,
     tol |-> tol, res |-> res, lay |-> lay, group |-> group]

T == TRUE
N == FALSE
Table == {
  F("minus_log",          0, 0, "core", T, N,  2, "f32",  T, "prep"),
  F("normalize",          0, 0, "core", T, N,  2, "f32",  T, "prep"),
  F("normalize_rows",     1, 1, "core", T, N,  2, "f32",  T, "prep"),
  F("normalize_nf",       1, 1, "core", T, N,  2, "f32",  T, "prep"),
  F("normalize_roi",      0, 0, "core", N, N,  2, "f32",  T, "prep"),
  F("normalize_bg",       0, 0, "both", N, N,  2, "f32",  T, "prep"),
  F("retrieve_phase",     0, 0, "both", N, N, 30, "same", N, "prep"),
  F("distortion_correction_proj", 0, 0, "both", N, N, 2, "same", N, "prep"),
  F("distortion_correction_sino", 0, 0, "none", N, N, 2, "f32", N, "prep"),
  F("remove_stripe_fw",   1, 1, "both", N, N, 30, "same", N, "stripe"),
  F("remove_stripe_ti",   1, 1, "both", N, N,  2, "same", N, "stripe"),
  F("remove_stripe_sf",   1, 1, "both", N, N,  2, "f32",  T, "stripe"),
  F("remove_stripe_based_sorting",   1, 1, "both", N, N, 2, "same", N, "stripe"),
  F("remove_stripe_based_filtering", 1, 1, "both", N, N, 30, "same", N, "stripe"),
  F("remove_stripe_based_fitting",   1, 1, "both", N, N, 100, "same", N, "stripe"),
  F("remove_large_stripe",           1, 1, "both", N, N, 2, "same", N, "stripe"),
  F("remove_dead_stripe",            1, 1, "both", N, N, 2, "same", N, "stripe"),
  F("remove_all_stripe",             1, 1, "both", N, N, 2, "same", N, "stripe"),
  F("remove_stripe_based_interpolation", 1, 1, "both", N, N, 2, "same", N, "stripe"),
  F("stripes_detect3d",  -1, -1, "core", N, N, 0, "f32",  T, "stripe"),
  F("stripes_mask3d",    -1, -1, "core", N, N, 0, "bool", N, "stripe"),
  F("gaussian_filter",    9, 9, "core", N, N,  2, "same", N, "filter"),
  F("median_filter",      9, 9, "core", N, N,  0, "same", N, "filter"),
  F("sobel_filter",       9, 9, "core", N, N,  0, "same", N, "filter"),
  F("median_filter3d",   -1, -1, "core", N, N, 0, "same", N, "filter"),
  F("remove_outlier3d",  -1, -1, "core", N, N, 0, "same", N, "filter"),
  F("remove_outlier",     9, 9, "core", T, N,  0, "f32",  T, "filter"),
  F("remove_outlier1d",   9, 9, "core", T, N,  0, "f32",  T, "filter"),
  F("median_filter_nonfinite", 0, 0, "none", N, T, 0, "same", N, "filter"),
  F("adjust_range",       0, 0, "none", N, T,  0, "same", N, "filter"),
  F("remove_nan",         0, 0, "core", N, T,  0, "f32",  T, "filter"),
  F("remove_neg",         0, 0, "core", N, T,  0, "f32",  T, "filter"),
  F("remove_ring",        0, 0, "both", T, N,  2, "f32",  T, "filter"),
  F("circ_mask",          9, 9, "core", N, T,  0, "f32",  T, "filter"),
  F("enhance_projs_aps_1id", 0, 0, "core", N, N, 2, "f64", T, "filter"),
  F("inpainter_slices",   9, 9, "core", N, N,  2, "f32",  T, "filter"),
  F("inpainter_volume",  -1, -1, "core", N, N, 2, "f32",  T, "filter"),
  F("pad",                9, 9, "core", N, N,  0, "same", T, "filter"),
  F("downsample",         9, 9, "none", N, N,  2, "f32",  T, "filter"),
  F("upsample",           9, 9, "none", N, N,  0, "f32",  T, "filter"),
  F("sino_360_to_180",    1, 1, "none", N, N,  2, "same", N, "filter"),
  F("blur_edges",         0, 0, "none", N, N,  0, "same", N, "filter"),
  F("shift_images",      -1, -1, "none", N, N, 100, "same", N, "filter"),
  F("scale",             -1, -1, "none", N, N, 2, "same", N, "filter"),
  F("project",            0, 1, "both", N, N,  2, "f32",  T, "sim"),
  F("project_sino",       0, 0, "both", N, N,  2, "f32",  T, "sim"),
  F("project2",           0, 1, "none", N, N,  2, "f32",  T, "sim"),
  F("project3_volume",   -1, -1, "none", N, N,  2, "f32",  T, "sim"),
  F("project3",           0, 1, "none", N, N,  2, "f32",  T, "sim"),
  F("vector",             1, 0, "none", N, N,  2, "f32",  T, "sim"),
  F("vector2",           -1, -1, "none", N, N,  2, "f32",  T, "sim"),
  F("vector3",           -1, -1, "none", N, N,  2, "f32",  T, "sim"),
  F("art",       1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("bart",      1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("fbp",       1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("gridrec",   1, 0, "both", N, N, 50, "f32", T, "recon"),
  F("mlem",      1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("osem",      1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("ospml_hybrid", 1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("ospml_quad",   1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("pml_hybrid",   1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("pml_quad",     1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("sirt",      1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("tv",        1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("grad",      1, 0, "both", N, N,  2, "f32", T, "recon"),
  F("tikh",      1, 0, "both", N, N,  2, "f32", T, "recon")
}
Of(fn) == CHOOSE c \in Table : c.fn = fn
ASSUME Cardinality({c.fn : c \in Table}) = Cardinality(Table)
=============================================================================
