--------------------------- MODULE TraceToolbox ---------------------------
(* Reconstructions with a stand-in for the toolbox that records what it is   *)
(* asked to do.                                                              *)
(*  ev     the events in the order in which they occurred                    *)
(*         run:   p s v (the objects), method, niter, gpu (-1: not told),    *)
(*                off8 (offset of the detector in eighths), init (the value  *)
(*                the slice had before), sino, angles, grid (right or not),  *)
(*                opts (extra options as given), token (what it wrote)       *)
(*         begin: the task of lprec: lp gpu, slices, sinos, niter ... token  *)
(*  graph:  a slice that went through a graph of tasks of UFO                 *)
(*  res    what the slices of the result hold: the token, or 0               *)
(*  cen    the centres in eighths                                            *)
EXTENDS Conform, Toolbox
HasFailed(r) == \E i \in DOMAIN r.ev : r.ev[i].op = "fail"
Range(s) == {s[i] : i \in DOMAIN s}
Common(r, st) ==
    LET failed == st.failed \/ r.fail = "method" IN
    st.bad
    \cup Clause("no error surfaced", failed => r.end # "returned")
    \cup Clause("another error than that of the toolbox surfaced", failed => r.end \in {"returned", "told"})
    \cup Clause("an error without a failure", ~failed => r.end = "returned")
    \cup Clause("the options of the caller were changed", r.kept)
    \cup Clause("objects of the toolbox were left behind", st.alive = {} /\ st.busy = {})
RunOk(r, e, s) ==
    LET gpu == r.proj = "cuda" IN
    /\ e.sino \in Inputs(s, r.nang, r.ndet, r.cen[s], gpu)
    /\ e.off8 = Offset8(r.ndet, r.cen[s], gpu)
    /\ e.init = (IF r.init THEN 0 - s ELSE 0)
Astra(r, st) ==
    LET runs == st.runs IN
    Clause("wrong angles, grid, method, number of iterations, kind of projector or options",
           \A i \in DOMAIN runs : runs[i].shape /\ runs[i].niter = r.niter)
    \cup Clause("a run on another GPU than those listed",
           \A i \in DOMAIN runs : runs[i].gpu \in (IF r.proj = "cuda" /\ r.gpus # <<>> THEN Range(r.gpus) ELSE {-1}))
    \cup Clause("the slices were not shared out among the GPUs",
           (r.end = "returned" /\ r.proj = "cuda" /\ r.nchunk = -1 /\ r.ncore = 1 /\ r.n >= Len(r.gpus))
             => \A g \in Range(r.gpus) : \E i \in DOMAIN runs : runs[i].gpu = g)
    \cup (IF r.end = "returned"
          THEN Clause("a slice was not reconstructed exactly once", Len(runs) = r.n)
               \cup Clause("a slice does not hold the reconstruction of its data",
                           \A s \in 1..r.n : \E i \in DOMAIN runs : runs[i].token = r.res[s] /\ RunOk(r, runs[i], s))
          ELSE {})
Lprec(r, st) ==
    LET runs == st.runs
        Has(e, s) == \E j \in DOMAIN e.slices : e.slices[j] = s IN
    Clause("wrong angles, filter, centre, method or options", \A i \in DOMAIN runs : runs[i].shape)
    \cup Clause("more slices at once than agreed with the toolbox", \A i \in DOMAIN runs : Len(runs[i].slices) \in 1..runs[i].most)
    \cup Clause("a task on another GPU than those listed", \A i \in DOMAIN runs : runs[i].gpu \in Range(r.gpus))
    \cup (IF r.end = "returned"
          THEN Clause("a slice was not reconstructed exactly once",
                      \A s \in 1..r.n : Cardinality({i \in DOMAIN runs : Has(runs[i], s)}) = 1)
               \cup Clause("a slice does not hold the reconstruction of its data",
                      \A s \in 1..r.n : \E i \in DOMAIN runs : \E j \in DOMAIN runs[i].slices :
                          runs[i].slices[j] = s /\ 10 * runs[i].token + j = r.res[s])
          ELSE {})
Ufo(r, st) ==
    LET runs == st.runs IN
    Clause("wrong tasks, steps of the angle or centre",
           \A i \in DOMAIN runs : runs[i].shape /\ runs[i].chain = Chain(r.fn) /\ runs[i].off8 = r.cen[1])
    \cup Clause("a slice was not reconstructed exactly once", Len(runs) = r.n)
    \cup Clause("a slice does not hold the reconstruction of its data",
           \A s \in 1..r.n : \E i \in DOMAIN runs : runs[i].token = r.res[s] /\ runs[i].sino = Sinogram(s, r.nang, r.ndet, 0))
(* every argument reaches the implementation as it was given, or by default, and its result is returned *)
Acc(r) == Clause("wrong outcome of recon_accelerated", r.end = AccEnd(r.impl, r.present, r.fail = "peri"))
          \cup Clause("the implementation was not called once", Len(r.calls) = AccCalls(r.impl, r.present))
          \cup Clause("an argument did not reach the implementation as it was given", \A i \in DOMAIN r.calls : r.calls[i] = r.wanted)
          \cup Clause("the result is not that of the implementation", r.end = "returned" => r.same)
Verdict(r) ==
    IF r.end \in {"crash", "hang"} THEN {r.end}
    ELSE IF r.kind = "other" THEN Acc(r)
    ELSE LET st == After(Empty, r.ev, 1) IN
         Common(r, st) \cup (CASE r.kind = "astra" -> Astra(r, st) [] r.kind = "lprec" -> Lprec(r, st) [] r.kind = "ufo" -> Ufo(r, st))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
