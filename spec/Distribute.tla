----------------------------- MODULE Distribute -----------------------------
(***************************************************************************)
(* The multi-process job distributor as a state machine: a parent cuts an  *)
(* array into chunks, a pool of workers takes batches of chunks, applies a *)
(* function to each and stores the result in the shared output; chunks may *)
(* be handed back to the parent; a function may raise; a worker may die.   *)
(* The parent returns the output or raises.                                *)
(*                                                                         *)
(* Behaviour of the function on a chunk:                                   *)
(*   "ok"    returns the chunk's result                                    *)
(*   "raise" raises an exception                                           *)
(*   "defer" asks (in a worker) to be run by the parent instead            *)
(*   "die"   the worker process exits or is killed while running it        *)
(***************************************************************************)
EXTENDS Partition, TLC

VARIABLES
    cfg,       \* [n, ncore, nchunk, cpu]: the call
    chunks,    \* sequence of <<lo, hi>>
    kind,      \* chunk index -> behaviour of the function
    bsize,     \* chunks per batch handed to a worker
    nextb,     \* next batch to hand out
    worker,    \* worker -> sequence of chunk indices still to run (<<>> idle) or Dead
    st,        \* chunk index -> "pending" "running" "done" "raised" "lost" "queued" "onhost" "skipped"
    runs,      \* chunk index -> number of completed executions
    out,       \* slice -> how often its result was stored
    phase,     \* "pool" "drain" "end"
    result     \* "none" "returned" "raised"

vars == <<cfg, chunks, kind, bsize, nextb, worker, st, runs, out, phase, result>>

Dead == <<0>>      \* no chunk has index 0

Chunks == DOMAIN chunks
Workers == DOMAIN worker
NBatches == CeilDiv(Len(chunks), bsize)
Batch(b) == [i \in 1..(MinI(b * bsize, Len(chunks)) - (b - 1) * bsize) |-> (b - 1) * bsize + i]
Running(w) == worker[w] # <<>> /\ worker[w] # Dead

Store(t) == [s \in DOMAIN out |-> IF s \in Slices(chunks[t]) THEN out[s] + 1 ELSE out[s]]

InitWith(c, k, b, ch, cores) ==
    /\ cfg = c /\ chunks = ch /\ kind = k /\ bsize = b /\ nextb = 1
    /\ worker = [w \in 1..cores |-> <<>>]
    /\ st = [t \in DOMAIN ch |-> "pending"]
    /\ runs = [t \in DOMAIN ch |-> 0]
    /\ out = [s \in 0..(c.n - 1) |-> 0]
    /\ phase = "pool" /\ result = "none"

Take(w) ==       \* an idle worker takes the next batch
    /\ phase = "pool" /\ worker[w] = <<>> /\ nextb <= NBatches
    /\ worker' = [worker EXCEPT ![w] = Batch(nextb)]
    /\ nextb' = nextb + 1
    /\ UNCHANGED <<cfg, chunks, kind, bsize, st, runs, out, phase, result>>

Start(w) ==      \* the function starts on the first chunk of the batch
    /\ phase = "pool" /\ Running(w)
    /\ LET t == Head(worker[w]) IN
       /\ st[t] = "pending"
       /\ st' = [st EXCEPT ![t] = "running"]
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, worker, runs, out, phase, result>>

Finish(w) ==     \* it ends, one way or another
    /\ phase = "pool" /\ Running(w)
    /\ LET t == Head(worker[w]) IN
       /\ st[t] = "running"
       /\ CASE kind[t] = "ok" ->
                 /\ st' = [st EXCEPT ![t] = "done"]
                 /\ runs' = [runs EXCEPT ![t] = @ + 1]
                 /\ out' = Store(t)
                 /\ worker' = [worker EXCEPT ![w] = Tail(@)]
            [] kind[t] = "defer" ->
                 /\ st' = [st EXCEPT ![t] = "queued"]
                 /\ worker' = [worker EXCEPT ![w] = Tail(@)]
                 /\ UNCHANGED <<runs, out>>
            [] kind[t] = "raise" ->
                 /\ st' = [u \in Chunks |->
                             IF u = t THEN "raised"
                             ELSE IF \E i \in DOMAIN worker[w] : worker[w][i] = u
                                  THEN "skipped" ELSE st[u]]
                 /\ worker' = [worker EXCEPT ![w] = <<>>]
                 /\ UNCHANGED <<runs, out>>
            [] OTHER ->
                 /\ st' = [u \in Chunks |->
                             IF u = t THEN "lost"
                             ELSE IF \E i \in DOMAIN worker[w] : worker[w][i] = u
                                  THEN "skipped" ELSE st[u]]
                 /\ worker' = [worker EXCEPT ![w] = Dead]
                 /\ UNCHANGED <<runs, out>>
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, phase, result>>

SeeDeath ==      \* the parent notices a dead worker and gives up
    /\ phase = "pool" /\ \E w \in Workers : worker[w] = Dead
    /\ phase' = "end" /\ result' = "raised"
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, worker, st, runs, out>>

AllHandled == /\ nextb > NBatches
              /\ \A w \in Workers : worker[w] = <<>>

PoolDone ==      \* every batch has been answered
    /\ phase = "pool" /\ AllHandled
    /\ IF \E t \in Chunks : st[t] = "raised"
       THEN phase' = "end" /\ result' = "raised"
       ELSE phase' = "drain" /\ UNCHANGED result
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, worker, st, runs, out>>

HostStart ==     \* the parent runs a chunk that was handed back
    /\ phase = "drain" /\ \A t \in Chunks : st[t] # "onhost"
    /\ \E t \in Chunks :
       /\ st[t] = "queued"
       /\ st' = [st EXCEPT ![t] = "onhost"]
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, worker, runs, out, phase, result>>

HostEnd ==
    /\ phase = "drain"
    /\ \E t \in Chunks :
       /\ st[t] = "onhost"
       /\ st' = [st EXCEPT ![t] = "done"]
       /\ runs' = [runs EXCEPT ![t] = @ + 1]
       /\ out' = Store(t)
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, worker, phase, result>>

Return ==
    /\ phase = "drain" /\ \A t \in Chunks : st[t] \notin {"queued", "onhost"}
    /\ phase' = "end" /\ result' = "returned"
    /\ UNCHANGED <<cfg, chunks, kind, bsize, nextb, worker, st, runs, out>>

Next == \/ \E w \in Workers : Take(w) \/ Start(w) \/ Finish(w)
        \/ SeeDeath \/ PoolDone \/ HostStart \/ HostEnd \/ Return

Fairness == /\ \A w \in 1..4 : WF_vars(w \in Workers /\ (Take(w) \/ Start(w) \/ Finish(w)))
            /\ WF_vars(SeeDeath) /\ WF_vars(PoolDone \/ HostStart \/ HostEnd \/ Return)

(* ------------------------------ properties ------------------------------ *)
PlanIsPartition == IsPartition(chunks, cfg.n)

(* a returned result holds every slice, stored exactly once *)
ReturnedIsComplete ==
    result = "returned" => /\ \A s \in DOMAIN out : out[s] = 1
                           /\ \A t \in Chunks : runs[t] = 1 /\ st[t] = "done"
(* no slice is ever stored twice, and no two workers own the same chunk *)
NeverTwice ==
    /\ \A s \in DOMAIN out : out[s] <= 1
    /\ \A v, w \in Workers : v # w /\ Running(v) /\ Running(w) =>
          \A i \in DOMAIN worker[v], j \in DOMAIN worker[w] : worker[v][i] # worker[w][j]
(* a failure is never turned into a result *)
FailureSurfaces ==
    (result = "returned") => ~ \E t \in Chunks : st[t] \in {"raised", "lost", "skipped"}
(* and the parent raises only if something failed *)
NoFalseAlarm ==
    (result = "raised") => \E t \in Chunks : st[t] \in {"raised", "lost"}
Terminates == <>(result # "none")

(* ------------------------- refinement of Jobs --------------------------- *)
Touched == {t \in Chunks : st[t] \notin {"pending", "skipped"}}
OnHost == {t \in Chunks : st[t] = "onhost"}
CoresAsked == IF cfg.ncore = None \/ cfg.ncore > cfg.cpu THEN cfg.cpu ELSE cfg.ncore
J == INSTANCE Jobs WITH
    job <- [n |-> cfg.n, cores |-> CoresAsked, nchunk |-> cfg.nchunk],
    active <- [w \in {0} \cup Workers |->
                 IF w = 0 THEN (IF OnHost = {} THEN <<>>
                                ELSE chunks[CHOOSE t \in OnHost : TRUE])
                 ELSE IF Running(w) /\ st[Head(worker[w])] = "running"
                      THEN chunks[Head(worker[w])] ELSE <<>>],
    started <- UNION {Slices(chunks[t]) : t \in Touched},
    parts <- Cardinality(Touched),
    deferred <- {chunks[t] : t \in {u \in Chunks : st[u] = "queued"}},
    stored <- out,
    failed <- \E t \in Chunks : st[t] \in {"raised", "lost"},
    result <- result
RefinesJobs == [][J!JNext]_(J!jvars)
=============================================================================
