----------------------------- MODULE GenSession -----------------------------
(* Every schedule of the calls of two threads, to be replayed.               *)
EXTENDS Session, Json, IOUtils
CONSTANTS N
LOCAL INSTANCE SequencesExt
RECURSIVE Merges(_, _)
Merges(a, b) == IF a = 0 /\ b = 0 THEN {<<>>}
    ELSE (IF a > 0 THEN {<<1>> \o s : s \in Merges(a - 1, b)} ELSE {})
         \cup (IF b > 0 THEN {<<2>> \o s : s \in Merges(a, b - 1)} ELSE {})
Schedules == [a \in 2..(N + 2) |-> [b \in 2..(N + 2) |-> Merges(a, b)]]
Cases == UNION {{[prog |-> <<p, q>>, sched |-> s] : s \in Schedules[Steps(p)][Steps(q)]} :
                    p \in Programs(N), q \in Programs(N)}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
