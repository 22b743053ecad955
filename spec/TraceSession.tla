---------------------------- MODULE TraceSession ----------------------------
(* Schedules replayed into the real code.                                    *)
(*  seen[k]   after step k: <<thread, depth, chunk>> of the data that the    *)
(*            function in which the thread stopped was given; <<>> if the    *)
(*            call ended                                                     *)
(*  good[t]   the result of the call of thread t is that of the call alone   *)
(*  after     the environment variable at the end (0: not set)               *)
EXTENDS Conform, Session
RECURSIVE Run(_, _, _, _)
Run(s, sched, prog, k) == IF k > Len(sched) THEN <<>>
    ELSE LET t == sched[k]
             s1 == Step(s, t, prog)
         IN <<s1>> \o Run(s1, sched, prog, k + 1)
Seen(s, t) == IF s.fr[t] = <<>> THEN <<>>
              ELSE LET f == s.fr[t][Len(s.fr[t])] IN f.data \o <<f.i>>
Verdict(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE LET ss == Run(World(r.prog, r.env), r.sched, r.prog, 1)
             end == ss[Len(ss)] IN
         Clause("a function was called with other data", r.seen = [k \in DOMAIN r.sched |-> Seen(ss[k], r.sched[k])])
         \cup Clause("a call did not end as it does alone", r.how = end.outcome)
         \cup Clause("the result of a call is not that of the call alone", \A t \in DOMAIN r.good : r.good[t])
         \cup Clause("the environment was not restored", r.after = end.cells.env /\ AsFound(end, r.env))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
