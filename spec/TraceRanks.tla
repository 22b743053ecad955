----------------------------- MODULE TraceRanks -----------------------------
(* Recorded shares of the processes of an MPI job (see Ranks).              *)
(* record: n ncore nchunk cpu size | shares: for each process its chunks    *)
(* <<lo, hi>>  cores: the number of cores each was told                     *)
EXTENDS Ranks, Conform

Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE Clause("every chunk belongs to exactly one process",
                /\ Len(r.shares) = r.size
                /\ EachOnce(r.shares, Cut(r.n, r.ncore, r.nchunk, r.cpu))
                /\ IsPartition(Real(Joined(r.shares, r.size)), r.n))
         \cup Clause("number of cores", \A k \in DOMAIN r.cores : r.cores[k] = (IF r.ncore = None \/ r.ncore = 0 THEN r.cpu ELSE r.ncore))
         \cup Clause("processes wait for each other once", \A k \in DOMAIN r.waits : r.waits[k] = r.waits[1])
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
