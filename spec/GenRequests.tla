---------------------------- MODULE GenRequests ----------------------------
(* The requests: for every function an admissible one, changed in at most   *)
(* two places (in one for the larger sets).                                 *)
EXTENDS RequestSpace, TLC, Json, IOUtils
ASSUME ndJsonSerialize(IOEnv.CASES, All)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
