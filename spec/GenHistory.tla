---------------------------- MODULE GenHistory ----------------------------
(* The histories to make: every function after every other function, which  *)
(* returned or raised, and every two functions at the same time.            *)
EXTENDS History, TLC, Json, IOUtils, SequencesExt
After == {[kind |-> "after", before |-> f, how |-> h, fn |-> g] : f \in Functions, g \in Functions, h \in {"ok", "raise"}}
AtOnce == {[kind |-> "at once", before |-> f, how |-> "ok", fn |-> g] : f \in Functions \ Draws, g \in Functions \ Draws}
(* functions that evaluate expressions with threads of their own, with large arrays and changing numbers of cores *)
Elementwise == {"minus_log", "normalize", "normalize_nf", "remove_nan", "remove_neg", "remove_outlier",
                "remove_outlier1d", "circ_mask", "pad", "enhance_projs_aps_1id"}
Busy == {[kind |-> "busy", before |-> f, how |-> "ok", fn |-> g] : f \in Elementwise, g \in Elementwise}
(* calls that differ in one aspect (an option or the data), one after another; the history Alternating of Memo *)
Siblings == {[kind |-> "sibling", before |-> f, how |-> "ok", fn |-> f] : f \in Functions}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(After \cup AtOnce \cup Busy \cup Siblings))
Init == HInit
Next == FALSE /\ UNCHANGED vars
=============================================================================
