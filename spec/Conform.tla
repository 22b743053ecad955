------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Validation of a recorded trace whose records are independent of each    *)
(* other (one public call each).  A specification extends this module and  *)
(* defines  Verdict(r): the set of the names of the clauses that record r  *)
(* violates.  The records are visited by Shards walkers so that TLC's      *)
(* workers share them.  A rejected record is printed, never skipped, and   *)
(* the walk goes on, so that one rejection does not hide another.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64
VARIABLE pos

Init == pos \in {p \in 1..Shards : p <= Len(Trace)}
Next == pos + Shards <= Len(Trace) /\ pos' = pos + Shards
Spec == Init /\ [][Next]_pos

Judge(failed) == failed = {} \/ PrintT(<<"REJECT", pos, failed>>)

(* the name of a clause if it does not hold *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
