----------------------------- MODULE ReconPool -----------------------------
(***************************************************************************)
(* The reconstruction driver: slices are cut into chunks, a pool of        *)
(* threads applies the algorithm to the chunks, every thread writes its    *)
(* own slices of the result.  A process-wide limit on the number of        *)
(* threads (an environment variable) is in force during the call and must  *)
(* be back at its old value afterwards, however the call ended: it caps    *)
(* the threads of later calls.  A history of several calls is modelled.    *)
(***************************************************************************)
EXTENDS Partition, TLC
CONSTANTS MaxN, Cpu, MaxCalls, MaxLimit, Kinds

VARIABLES
    limit,     \* the process-wide thread limit (None: not set)
    limit0,    \* its value when the current call was made
    ncalls,    \* calls made so far
    cfg,       \* the current call
    chunks, kind, cores,
    nextc,     \* next chunk in the pool's queue
    thread,    \* thread -> chunk index or 0
    st,        \* chunk -> "pending" "running" "done" "raised"
    out,       \* slice -> number of times written
    phase      \* "idle" "running" "returned" "raised"
vars == <<limit, limit0, ncalls, cfg, chunks, kind, cores, nextc, thread, st, out, phase>>

NoCall == [n |-> 1, ncore |-> None, nchunk |-> None]
Init ==
    /\ limit \in {None} \cup 1..MaxLimit /\ limit0 = limit
    /\ ncalls = 0 /\ cfg = NoCall
    /\ chunks = <<>> /\ kind = <<>> /\ cores = 0 /\ nextc = 1
    /\ thread = <<>> /\ st = <<>> /\ out = <<>> /\ phase = "idle"

Call ==
    /\ phase \in {"idle", "returned", "raised"} /\ ncalls < MaxCalls
    /\ \E n \in 1..MaxN, nc \in {None} \cup 0..(Cpu + 1), ck \in {None} \cup 1..(MaxN + 1) :
        LET p == ReconPlan(n, nc, ck, Cpu, limit) IN
        \E k \in [1..Len(p.chunks) -> Kinds] :
            /\ cfg' = [n |-> n, ncore |-> nc, nchunk |-> ck]
            /\ chunks' = p.chunks /\ kind' = k /\ cores' = p.cores
            /\ nextc' = 1
            /\ thread' = [w \in 1..p.cores |-> 0]
            /\ st' = [t \in 1..Len(p.chunks) |-> "pending"]
            /\ out' = [s \in 0..(n - 1) |-> 0]
            /\ limit0' = limit /\ limit' = p.cores     \* in force during the call
    /\ ncalls' = ncalls + 1 /\ phase' = "running"

Start(w) ==
    /\ phase = "running" /\ thread[w] = 0 /\ nextc <= Len(chunks)
    /\ thread' = [thread EXCEPT ![w] = nextc]
    /\ st' = [st EXCEPT ![nextc] = "running"]
    /\ nextc' = nextc + 1
    /\ UNCHANGED <<limit, limit0, ncalls, cfg, chunks, kind, cores, out, phase>>

Finish(w) ==
    /\ phase = "running" /\ thread[w] # 0
    /\ LET t == thread[w] IN
       IF kind[t] = "ok"
       THEN /\ st' = [st EXCEPT ![t] = "done"]
            /\ out' = [s \in DOMAIN out |->
                         IF s \in Slices(chunks[t]) THEN out[s] + 1 ELSE out[s]]
       ELSE st' = [st EXCEPT ![t] = "raised"] /\ UNCHANGED out
    /\ thread' = [thread EXCEPT ![w] = 0]
    /\ UNCHANGED <<limit, limit0, ncalls, cfg, chunks, kind, cores, nextc, phase>>

End ==
    /\ phase = "running" /\ nextc > Len(chunks) /\ \A w \in DOMAIN thread : thread[w] = 0
    /\ phase' = IF \E t \in DOMAIN st : st[t] = "raised" THEN "raised" ELSE "returned"
    /\ limit' = limit0
    /\ UNCHANGED <<limit0, ncalls, cfg, chunks, kind, cores, nextc, thread, st, out>>

Next == Call \/ End \/ \E w \in DOMAIN thread : Start(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(End) /\ WF_vars(\E w \in DOMAIN thread : Start(w) \/ Finish(w))

(* ------------------------------ properties ------------------------------ *)
PlanIsPartition == phase # "idle" => IsPartition(chunks, cfg.n)
ReturnedIsComplete == phase = "returned" => \A s \in DOMAIN out : out[s] = 1
FailureSurfaces == phase = "returned" => \A t \in DOMAIN st : st[t] = "done"
NoFalseAlarm == phase = "raised" => \E t \in DOMAIN st : st[t] = "raised"
Threads == phase = "running" => /\ cores >= 1
                                /\ (limit0 # None => cores <= limit0)
                                /\ (cfg.ncore > 0 => cores <= cfg.ncore)
(* no residue: after a call the limit is what it was before it *)
LimitRestored == phase # "running" => limit = limit0
EveryCallEnds == (phase = "running") ~> (phase \in {"returned", "raised"})

(* every single call refines Jobs *)
J == INSTANCE Jobs WITH
    job <- [n |-> cfg.n, cores |-> IF cfg.ncore > 0 THEN cfg.ncore ELSE Cpu, nchunk |-> cfg.nchunk],
    active <- [w \in {0} \cup DOMAIN thread |->
                 IF w = 0 \/ thread[w] = 0 THEN <<>> ELSE chunks[thread[w]]],
    started <- UNION {Slices(chunks[t]) : t \in {u \in DOMAIN st : st[u] # "pending"}},
    parts <- Cardinality({u \in DOMAIN st : st[u] # "pending"}),
    deferred <- {},
    stored <- out,
    failed <- \E t \in DOMAIN st : st[t] = "raised",
    result <- IF phase \in {"returned", "raised"} THEN phase ELSE "none"
RefinesJobs == [][phase = "running" => J!JNext]_(J!jvars)
=============================================================================
