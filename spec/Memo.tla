-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* A function that remembers what it computed, and finds it again by some  *)
(* of the aspects of its arguments (its options, the data, the sizes).     *)
(* Which aspects a faulty function finds its results by is not known to    *)
(* the check; Alternating is the history of calls that tells all of these  *)
(* functions from the right ones.                                          *)
(*                                                                         *)
(*   key    the aspects by which a result is found                         *)
(*   keep   "all" results are kept, only the "last", or the "first"        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Aspects, Depth
VARIABLES key, keep, calls, memo, values
vars == <<key, keep, calls, memo, values>>

Args == [Aspects -> 0..1]
Of(a, k) == [x \in k |-> a[x]]
Empty == {}
Hits(m, k, a) == {e \in m : Of(e, k) = Of(a, k)}
(* the remembered entries are the arguments of the calls that computed them *)
Result(m, k, a) == IF Hits(m, k, a) = {} THEN a ELSE CHOOSE e \in Hits(m, k, a) : TRUE
After(m, k, kp, a) == IF Hits(m, k, a) # {} THEN m
                      ELSE CASE kp = "all" -> m \cup {a} [] kp = "last" -> {a} [] kp = "first" -> IF m = {} THEN {a} ELSE m

RECURSIVE Run(_, _, _, _)
Run(m, k, kp, h) == IF h = <<>> THEN <<>>
                    ELSE <<Result(m, k, Head(h))>> \o Run(After(m, k, kp, Head(h)), k, kp, Tail(h))

(* the call, and between two of it one that differs in one aspect *)
Differ(a, x) == [a EXCEPT ![x] = 1 - @]
RECURSIVE Alternating(_, _)
Alternating(a, todo) == IF todo = {} THEN <<a>>
                        ELSE LET x == CHOOSE y \in todo : TRUE IN <<a, Differ(a, x)>> \o Alternating(a, todo \ {x})

Init == key \in SUBSET Aspects /\ keep \in {"all", "last", "first"} /\ calls = <<>> /\ memo = {} /\ values = <<>>
Next == /\ Len(calls) < Depth
        /\ \E a \in Args : /\ calls' = Append(calls, a)
                           /\ values' = Append(values, Result(memo, key, a))
                           /\ memo' = After(memo, key, keep, a)
        /\ UNCHANGED <<key, keep>>
Spec == Init /\ [][Next]_vars

(* what is found by all the aspects is right, in every history *)
Right == key = Aspects => values = calls
(* and a function whose results are found by fewer is wrong somewhere in Alternating *)
Exposed == key # Aspects => \A a \in Args : LET h == Alternating(a, Aspects) IN Run({}, key, keep, h) # h
(* the model and Run are the same *)
Same == values = Run({}, key, keep, calls)
=============================================================================
