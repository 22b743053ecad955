----------------------------- MODULE TraceRank -----------------------------
(* Recorded calls of the median based filters against RankFilters. *)
EXTENDS RankFilters, Conform

Want(r, a) ==
    LET ax == IF "axis" \in DOMAIN r THEN NormAxis(r.axis, 3) ELSE 0 IN
    CASE r.op \in {"median_filter", "median_filter_cuda"} -> MedianFilter(a, ax, r.size)
      [] r.op \in {"remove_outlier", "remove_outlier_cuda"} -> RemoveOutlier(a, r.w, r.dif2)
      [] r.op = "remove_outlier1d" -> RemoveOutlier1(a, ax, r.size, r.dif2)
      [] r.op = "median_filter3d" -> MedianFilter3(a, r.size)
      [] r.op = "remove_outlier3d" -> RemoveOutlier3(a, r.size, r.dif2)
      [] r.op = "sobel_filter" -> Sobel(a, ax)
      [] r.op = "median_filter_nonfinite" -> FilterNonfinite2x(a, r.size)

(* of a large array there are only boxes around some voxels *)
Values(r) == IF "boxes" \in DOMAIN r
             THEN \A i \in 1..Len(r.boxes) : AtI(Want(r, r.boxes[i].a), r.boxes[i].at) = r.boxes[i].out
             ELSE r.out.sh # r.a.sh \/ r.out.v = Want(r, r.a).v
MustFail(r) == "boxes" \notin DOMAIN r /\ r.op = "median_filter_nonfinite" /\ NonfiniteFails(r.a, r.size)

Verdict(r) ==
    IF r.outcome \notin {"ok", "raise"} THEN {r.outcome}
    ELSE IF MustFail(r) THEN Clause("accepts a window without finite values", r.outcome = "raise")
    ELSE IF r.outcome = "raise" THEN {"raises on a valid call"}
    ELSE Clause("shape", r.out.sh = r.a.sh /\ ("boxes" \in DOMAIN r \/ WellFormed(r.out)))
         \cup Clause("values", Values(r))
         \cup Clause("dtype", r.dtype = r.wantdtype)

Accept == Judge(Verdict(Trace[pos]))
=============================================================================
