---------------------------- MODULE MCDistribute ----------------------------
(* Exhaustive instance: all calls with up to MaxN slices, MaxCore cores,    *)
(* every chunk size, every batch size, every assignment of behaviours.      *)
EXTENDS Distribute
CONSTANTS MaxN, MaxCore, MaxTasks, Kinds

Init ==
    \E n \in 1..MaxN, nc \in {None} \cup 1..(MaxCore + 1), ck \in {None} \cup 0..(MaxN + 1) :
        LET p == PoolPlan(n, nc, ck, MaxCore) IN
        /\ Len(p.chunks) <= MaxTasks
        /\ \E k \in [1..Len(p.chunks) -> Kinds], b \in 1..2 :
             InitWith([n |-> n, ncore |-> nc, nchunk |-> ck, cpu |-> MaxCore], k, b,
                      p.chunks, p.cores)
Spec == Init /\ [][Next]_vars /\ Fairness
=============================================================================
