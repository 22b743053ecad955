--------------------------- MODULE TraceHistory ---------------------------
(*  fresh    outcome of the call in a process that made no other call       *)
(*  outcome  its outcome here; dev: deviation of the result from the fresh  *)
(*           one in 1e-7 of the largest value                               *)
(*  changed  the cells that the calls changed; first: the call before       *)
EXTENDS Conform, History
May(r) == IF r.kind \notin {"after", "sibling"} THEN {} ELSE MayChange(r.fn)
Verdict(r) ==
    IF r.outcome \notin {"ok", "raise"} THEN {r.outcome}
    ELSE Clause("the call ended in another way than in a fresh process", r.outcome = r.fresh)
         \cup Clause("the result depends on earlier or other calls", r.dev = 0)
         \cup {"changed: " \o r.changed[i] : i \in {k \in DOMAIN r.changed : r.changed[k] \notin May(r)}}
         \cup {"changed: " \o r.first[i] : i \in {k \in DOMAIN r.first : r.first[k] \notin MayChange(r.before)}}
TInit == Init /\ cells = [c \in Cells |-> 0] /\ results = <<>>
TSpec == TInit /\ [][Next /\ UNCHANGED vars]_<<pos, vars>>
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
