--------------------------- MODULE TraceRequests ---------------------------
(* Recorded calls: what is admissible succeeds and has the shape it is to   *)
(* have, what is not is refused with an error; nothing given is changed.    *)
EXTENDS Requests, Conform
Verdict(r) ==
    IF r.outcome \notin {"ok", "raise"} THEN {r.outcome}
    ELSE IF Ok(r.req) THEN Clause("refused", r.outcome = "ok")
                           \cup Clause("shape", r.outcome = "ok" => Shape(r.req) = <<>> \/ r.shape = Shape(r.req))
                           \cup Clause("modified", r.changed = <<>>)
    ELSE Clause("accepted", r.outcome = "raise") \cup Clause("modified", r.changed = <<>>)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
