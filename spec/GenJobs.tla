------------------------------ MODULE GenJobs ------------------------------
(* Enumerates the calls that are replayed into the job distributor and the  *)
(* reconstruction driver: every size / cores / chunk size, and every        *)
(* assignment of behaviours (fault scenario) to the chunks.                 *)
EXTENDS Partition, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxN, MaxCore, MaxFaultN, MaxFaultChunks, Which

Calls == {[n |-> n, ncore |-> nc, nchunk |-> ck] :
            n \in 1..MaxN, nc \in {None} \cup 1..MaxCore, ck \in {None} \cup 0..(MaxN + 1)}
NChunks(c, cpu) == Len(PoolPlan(c.n, c.ncore, c.nchunk, cpu).chunks)
FaultCalls == {c \in Calls : c.n <= MaxFaultN /\ c.ncore \in 1..MaxCore
                             /\ NChunks(c, MaxCore) <= MaxFaultChunks /\ c.nchunk <= c.n}
Kinds == {"ok", "raise", "defer", "die"}
Scenarios == UNION {{[n |-> c.n, ncore |-> c.ncore, nchunk |-> c.nchunk, kinds |-> k,
                      los |-> [t \in DOMAIN k |-> PoolPlan(c.n, c.ncore, c.nchunk, MaxCore).chunks[t][1]]] :
                        k \in {f \in [1..NChunks(c, MaxCore) -> Kinds] : \E t \in DOMAIN f : f[t] # "ok"}} :
                    c \in FaultCalls}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(IF Which = "calls" THEN Calls ELSE Scenarios))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
