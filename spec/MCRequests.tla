----------------------------- MODULE MCRequests -----------------------------
(***************************************************************************)
(* A call: it is examined, then either refused, with nothing done, or run, *)
(* and only then are its arrays read.  Every request of the space is taken *)
(* through it.  Checked: what runs stays within its arrays, and what is    *)
(* refused has touched nothing.                                            *)
(***************************************************************************)
EXTENDS RequestSpace
VARIABLES req, phase, read
vars == <<req, phase, read>>
Init == /\ LET space == All IN \E k \in 1..Len(space) : req = space[k]
        /\ phase = "received" /\ read = {}
Refuse == phase = "received" /\ ~Ok(req) /\ phase' = "refused" /\ UNCHANGED <<req, read>>
Accept == phase = "received" /\ Ok(req) /\ phase' = "running" /\ UNCHANGED <<req, read>>
Run == phase = "running" /\ read' = Reads(req) /\ phase' = "done" /\ UNCHANGED req
Next == Refuse \/ Accept \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBounds == \A i \in read : i.need <= i.size
RefusedUntouched == phase = "refused" => read = {}
\* a request that would leave its arrays is never let in
Guarded == ~Safe(req) => phase \in {"received", "refused"}
Decided == <>(phase \in {"refused", "done"})
=============================================================================
