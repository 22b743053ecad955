----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* How TomoPy cuts an axis of n slices into chunks.  Chunks are pairs      *)
(* <<lo, hi>> denoting the slices lo .. hi-1 (0-based, as in Python).      *)
(*                                                                         *)
(*  - PoolPlan   : the multi-process job distributor (and everything that  *)
(*                 is built on it: stripe removal, background              *)
(*                 normalisation, phase retrieval, projection, ...)        *)
(*  - ReconPlan  : the multi-threaded reconstruction driver.               *)
(*                                                                         *)
(* "None" for an option is written as -1.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1

CeilDiv(a, b) == (a + b - 1) \div b
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

(* fixed-size cut: every chunk has size c except possibly the last *)
CutBy(n, c) == [i \in 1..CeilDiv(n, c) |-> <<(i - 1) * c, MinI(i * c, n)>>]

(* even cut into k parts: the first n % k parts are one slice longer *)
CutInto(n, k) ==
    LET q == n \div k
        r == n % k
        start(i) == (i - 1) * q + MinI(i - 1, r)
    IN  [i \in 1..k |-> <<start(i), start(i + 1)>>]

(* ---- process pool ---- *)
PoolChunk(n, ncore, nchunk, cpu) ==
    LET c1 == IF nchunk > n THEN n ELSE nchunk
        k1 == IF ncore = None \/ ncore > cpu THEN cpu ELSE ncore
        per == IF c1 = None \/ c1 = 0 THEN 1 ELSE c1
        k2 == MinI(k1, CeilDiv(n, per))
        c2 == IF c1 = None THEN CeilDiv(n, k2) ELSE c1
    IN  [cores |-> k2, chunk |-> c2]

PoolPlan(n, ncore, nchunk, cpu) ==
    LET p == PoolChunk(n, ncore, nchunk, cpu)
    IN  [cores |-> p.cores, chunks |-> CutBy(n, IF p.chunk = 0 THEN 1 ELSE p.chunk)]

(* ---- reconstruction threads (limit: inherited thread limit or None) ---- *)
ReconPlan(n, ncore, nchunk, cpu, limit) ==
    LET k1 == MinI(IF ncore = None \/ ncore = 0 THEN cpu ELSE ncore, n)
        ch == IF nchunk = None THEN CutInto(n, k1)
              ELSE CutBy(n, IF nchunk = 0 THEN 1 ELSE nchunk)
        k2 == MinI(k1, Len(ch))
        k3 == IF limit # None THEN MinI(k2, limit) ELSE k2
    IN  [cores |-> k3, chunks |-> ch]

(* ---- what any acceptable plan must satisfy ---- *)
Slices(c) == {s \in c[1]..(c[2] - 1) : TRUE}
Covers(chunks, n) == UNION {Slices(chunks[i]) : i \in DOMAIN chunks} = 0..(n - 1)
DisjointChunks(chunks) ==
    \A i, j \in DOMAIN chunks : i # j => Slices(chunks[i]) \cap Slices(chunks[j]) = {}
NonEmpty(chunks) == \A i \in DOMAIN chunks : chunks[i][1] < chunks[i][2]
Sizes(chunks) == {chunks[i][2] - chunks[i][1] : i \in DOMAIN chunks}
IsPartition(chunks, n) == Covers(chunks, n) /\ DisjointChunks(chunks) /\ NonEmpty(chunks)

(* the chunk size asked for is the one used; only the last chunk is smaller *)
HonoursChunk(chunks, n, nchunk) ==
    nchunk > 0 =>
        LET c == MinI(nchunk, n) IN
        /\ \A i \in DOMAIN chunks : \/ chunks[i][2] - chunks[i][1] = c
                                    \/ chunks[i][2] = n
        /\ \A i \in DOMAIN chunks : chunks[i][2] - chunks[i][1] <= c
(* without a chunk size every core gets at most one chunk *)
OneChunkPerCore(chunks, ncore, nchunk, cpu) ==
    nchunk = None =>
        Len(chunks) <= (IF ncore = None \/ ncore = 0 THEN cpu ELSE ncore)
=============================================================================
