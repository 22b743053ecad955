------------------------------ MODULE MCRanks ------------------------------
(* Every size of the axis, cores, chunk size and number of processes.       *)
EXTENDS Ranks
CONSTANTS MaxN, MaxCore, MaxSize
VARIABLE c
Init == c \in {[n |-> n, nc |-> nc, ck |-> ck, size |-> s] :
                 n \in 1..MaxN, nc \in {None} \cup 0..MaxCore, ck \in {None} \cup 0..(MaxN + 1), s \in 1..MaxSize}
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Chunks == Cut(c.n, c.nc, c.ck, MaxCore)
Parts == [k \in 1..c.size |-> Share(Chunks, c.size, k - 1)]
Shared == EachOnce(Parts, Chunks)
Partitioned == IsPartition(Real(Joined(Parts, c.size)), c.n)
=============================================================================
