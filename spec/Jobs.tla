-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* What a caller relies on when a slice-wise job is run in parallel.  The  *)
(* state is what the caller could observe: which worker is busy with which *)
(* slices, which slices have been stored, how the call ended.              *)
(*                                                                         *)
(* Worker 0 is the caller itself; workers 1, 2, ... are processes (job     *)
(* distributor) or threads (reconstruction).  Distribute and ReconPool     *)
(* (the designs) refine this specification; recorded executions of the     *)
(* code are validated against it.                                          *)
(***************************************************************************)
EXTENDS Partition

VARIABLES
    job,       \* the call: [n, cores, nchunk]: cores the caller allowed, -1: no chunk size
    active,    \* worker -> chunk being processed, or Idle
    started,   \* slices whose processing has started
    deferred,  \* chunks handed back to the caller
    parts,     \* number of chunks started
    stored,    \* slice -> number of times its result was stored
    failed,    \* some chunk failed
    result     \* "none" "returned" "raised"
jvars == <<job, active, started, deferred, parts, stored, failed, result>>

Idle == <<>>

JInit(j, W) ==
    /\ job = j
    /\ active = [w \in W |-> Idle]
    /\ started = {} /\ deferred = {} /\ parts = 0
    /\ stored = [s \in 0..(j.n - 1) |-> 0]
    /\ failed = FALSE /\ result = "none"

(* the chunk size that was asked for is used; only the last chunk is shorter *)
SizeOk(lo, hi) ==
    /\ job.nchunk > 0 => LET c == MinI(job.nchunk, job.n) IN
                         hi - lo = c \/ (hi = job.n /\ hi - lo < c)
    /\ job.nchunk = 0 => hi - lo = 1
(* without a chunk size no core gets more than one chunk *)
PartsOk == job.nchunk = None => parts < job.cores

Busy == {w \in DOMAIN active : active[w] # Idle}

JStart(w, lo, hi) ==
    /\ result = "none" /\ active[w] = Idle
    /\ 0 <= lo /\ lo < hi /\ hi <= job.n
    /\ Cardinality(Busy \ {0}) < job.cores \/ w = 0
    /\ \/ /\ Slices(<<lo, hi>>) \cap started = {}          \* never processed twice
          /\ SizeOk(lo, hi) /\ PartsOk
          /\ started' = started \cup Slices(<<lo, hi>>)
          /\ parts' = parts + 1
          /\ UNCHANGED deferred
       \/ /\ w = 0 /\ <<lo, hi>> \in deferred
          /\ deferred' = deferred \ {<<lo, hi>>}
          /\ UNCHANGED <<started, parts>>
    /\ active' = [active EXCEPT ![w] = <<lo, hi>>]
    /\ UNCHANGED <<job, stored, failed, result>>

JEnd(w) ==
    /\ result = "none" /\ active[w] # Idle
    /\ stored' = [s \in DOMAIN stored |->
                    IF s \in Slices(active[w]) THEN stored[s] + 1 ELSE stored[s]]
    /\ active' = [active EXCEPT ![w] = Idle]
    /\ UNCHANGED <<job, started, deferred, parts, failed, result>>

JDefer(w) ==
    /\ result = "none" /\ w # 0 /\ active[w] # Idle
    /\ deferred' = deferred \cup {active[w]}
    /\ active' = [active EXCEPT ![w] = Idle]
    /\ UNCHANGED <<job, started, parts, stored, failed, result>>

JFail(w) ==          \* the function raised, or its worker died
    /\ result = "none" /\ active[w] # Idle
    /\ failed' = TRUE
    /\ active' = [active EXCEPT ![w] = Idle]
    /\ UNCHANGED <<job, started, deferred, parts, stored, result>>

JReturn ==
    /\ result = "none" /\ ~failed /\ Busy = {} /\ deferred = {}
    /\ \A s \in DOMAIN stored : stored[s] = 1
    /\ result' = "returned"
    /\ UNCHANGED <<job, active, started, deferred, parts, stored, failed>>

JThrow ==
    /\ result = "none" /\ failed
    /\ result' = "raised"
    /\ UNCHANGED <<job, active, started, deferred, parts, stored, failed>>

JNext == \/ \E w \in DOMAIN active : \/ \E lo, hi \in 0..job.n : JStart(w, lo, hi)
                                     \/ JEnd(w) \/ JDefer(w) \/ JFail(w)
         \/ JReturn \/ JThrow
JSpec(W) == (\E j \in {job} : JInit(j, W)) /\ [][JNext]_jvars

(* ------- consequences (checked on the designs, and at every trace step) ------- *)
JComplete == result = "returned" => \A s \in DOMAIN stored : stored[s] = 1
JOnce == \A s \in DOMAIN stored : stored[s] <= 1
JSurfaces == result = "returned" => ~failed
JNoFalseAlarm == result = "raised" => failed
JDisjoint == \A v, w \in Busy : v # w => Slices(active[v]) \cap Slices(active[w]) = {}
=============================================================================
