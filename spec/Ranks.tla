------------------------------- MODULE Ranks -------------------------------
(***************************************************************************)
(* Chunks of an axis shared among the processes of an MPI job: every       *)
(* process works on some of them, and each belongs to exactly one process. *)
(* How many each gets is up to the implementation (Share is one choice:    *)
(* what is left over goes to the first process).                           *)
(***************************************************************************)
EXTENDS Partition, TLC

Cut(n, ncore, nchunk, cpu) ==
    IF nchunk = None THEN CutInto(n, IF ncore = None \/ ncore = 0 THEN cpu ELSE ncore)
    ELSE CutBy(n, IF nchunk = 0 THEN 1 ELSE nchunk)

Share(chunks, size, rank) ==
    LET q == Len(chunks) \div size
        r == Len(chunks) % size
        from == IF rank = 0 THEN 0 ELSE q * rank + r
        to == q * (rank + 1) + r
    IN  SubSeq(chunks, from + 1, to)

(* what any way to share must satisfy; a chunk without slices belongs to anyone *)
RECURSIVE Joined(_, _)
Joined(parts, k) == IF k = 0 THEN <<>> ELSE Joined(parts, k - 1) \o parts[k]
Real(chunks) == SelectSeq(chunks, LAMBDA c : c[1] < c[2])
EachOnce(parts, chunks) ==
    LET a == Real(Joined(parts, Len(parts)))
        b == Real(chunks)
    IN  /\ Len(a) = Len(b)
        /\ {a[i] : i \in DOMAIN a} = {b[i] : i \in DOMAIN b}
=============================================================================
