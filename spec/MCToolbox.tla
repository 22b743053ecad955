----------------------------- MODULE MCToolbox -----------------------------
(* Workers that reconstruct their slices one after the other.  For each      *)
(* slice the objects are made in the order of Kinds, the algorithm is run    *)
(* and the objects are deleted, the latest first; any of these steps but the *)
(* deletions may be refused.  What has been made is deleted all the same,    *)
(* the worker stops, the others go on, and the call ends with the error.     *)
(* With Tidy = FALSE or Told = FALSE (what the code must not do) the         *)
(* invariants fail.                                                          *)
EXTENDS Toolbox
CONSTANTS Slices, Workers, Faults, Tidy, Told
Kinds == <<"projector", "sino", "vol", "algorithm">>
VARIABLES st, pc, todo, held, nid, result, faults
vars == <<st, pc, todo, held, nid, result, faults>>

Shares == {f \in [1..Workers -> SUBSET (1..Slices)] :
             /\ UNION {f[w] : w \in 1..Workers} = 1..Slices
             /\ \A v, w \in 1..Workers : v # w => f[v] \cap f[w] = {}}
Init == /\ st = Empty /\ nid = 1 /\ result = "none" /\ faults = 0
        /\ todo \in Shares
        /\ pc = [w \in 1..Workers |-> "next"]
        /\ held = [w \in 1..Workers |-> <<>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Take(w) == /\ pc[w] = "next" /\ Len(held[w]) = 0
           /\ pc' = [pc EXCEPT ![w] = IF todo[w] = {} THEN "done" ELSE "make"]
           /\ UNCHANGED <<st, todo, held, nid, result, faults>>
Make(w) == /\ pc[w] = "make" /\ Len(held[w]) < 4
           /\ LET k == Kinds[Len(held[w]) + 1]
                  e == [op |-> "new", id |-> nid, kind |-> k, uses |-> IF k = "algorithm" THEN held[w] ELSE <<>>] IN
              /\ st' = Step(st, e)
              /\ held' = [held EXCEPT ![w] = Append(@, nid)] /\ nid' = nid + 1
           /\ UNCHANGED <<pc, todo, result, faults>>
Run(w) == /\ pc[w] = "make" /\ Len(held[w]) = 4
          /\ st' = Step(st, [op |-> "run", id |-> held[w][4], slice |-> Least(todo[w])])
          /\ pc' = [pc EXCEPT ![w] = "tidy"] /\ UNCHANGED <<todo, held, nid, result, faults>>
Fail(w) == /\ pc[w] = "make" /\ faults < Faults
           /\ st' = Step(st, [op |-> "fail"]) /\ faults' = faults + 1
           /\ pc' = [pc EXCEPT ![w] = "failing"]
           /\ UNCHANGED <<todo, held, nid, result>>
Last(s) == s[Len(s)]
Free(w) == /\ pc[w] \in {"tidy", "failing"} /\ Len(held[w]) > 0 /\ (Tidy \/ pc[w] = "tidy")
           /\ st' = Step(st, [op |-> "del", id |-> Last(held[w])])
           /\ held' = [held EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
           /\ UNCHANGED <<pc, todo, nid, result, faults>>
Go(w) == /\ pc[w] = "tidy" /\ Len(held[w]) = 0
         /\ todo' = [todo EXCEPT ![w] = @ \ {Least(@)}]
         /\ pc' = [pc EXCEPT ![w] = "next"] /\ UNCHANGED <<st, held, nid, result, faults>>
Stop(w) == /\ pc[w] = "failing" /\ (Len(held[w]) = 0 \/ ~Tidy)
           /\ pc' = [pc EXCEPT ![w] = "failed"] /\ UNCHANGED <<st, todo, held, nid, result, faults>>
Join == /\ result = "none" /\ \A w \in 1..Workers : pc[w] \in {"done", "failed"}
        /\ result' = IF Told /\ \E w \in 1..Workers : pc[w] = "failed" THEN "raised" ELSE "returned"
        /\ UNCHANGED <<st, pc, todo, held, nid, faults>>
Next == Join \/ \E w \in 1..Workers : Take(w) \/ Make(w) \/ Run(w) \/ Fail(w) \/ Free(w) \/ Go(w) \/ Stop(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == st.bad = {}
Clean == result # "none" => st.alive = {}
Surfaces == result # "none" => ((result = "raised") <=> st.failed)
Once == /\ \A i, j \in DOMAIN st.runs : st.runs[i].slice = st.runs[j].slice => i = j
        /\ result = "returned" => {st.runs[i].slice : i \in DOMAIN st.runs} = 1..Slices
Ends == <>(result # "none")

(* the shift for the CPU is the nearest one, and moves the centre to the middle *)
ASSUME \A ndet \in 1..9, c8 \in -8..80 :
         LET K == Nearest(ndet, c8) IN
         /\ K # {} /\ Cardinality(K) <= 2
         /\ \A k \in K, j \in -90..90 : LET x == 4 * ndet - c8  D(i) == IF 8 * i > x THEN 8 * i - x ELSE x - 8 * i IN D(k) <= D(j)
         /\ \A k \in K : (8 * k + c8) - 4 * ndet \in -4..4
=============================================================================
