------------------------------ MODULE TraceJobs ------------------------------
(***************************************************************************)
(* Recorded executions of parallel calls, validated against Jobs: each     *)
(* record holds the events its workers logged, in order, and how the call  *)
(* ended.  Every step must be a step of Jobs and every invariant of Jobs   *)
(* is evaluated in every state.                                            *)
(*                                                                         *)
(* record: n cores nchunk W | ev: sequence of <<kind, worker, lo, hi>>     *)
(*   "S" start  "E" end  "D" handed back  "F" failed (raised or died)      *)
(*   "X" the worker was given data that is not the input's slices lo..hi-1 *)
(*   end: "returned" "raised" "hang" "crash"                               *)
(*   good: for each slice, whether the returned value is the right one     *)
(***************************************************************************)
EXTENDS Jobs, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64
VARIABLES rec, i, done
tvars == <<job, active, started, deferred, parts, stored, failed, result, rec, i, done>>

Ev == Trace[rec].ev
LoadInit(r) ==
    /\ JInit([n |-> Trace[r].n, cores |-> Trace[r].cores, nchunk |-> Trace[r].nchunk],
             0..Trace[r].W)
    /\ rec = r /\ i = 1 /\ done = FALSE
TInit == \E r \in {p \in 1..Shards : p <= Len(Trace)} : LoadInit(r)

EventStep ==
    /\ i <= Len(Ev)
    /\ LET e == Ev[i] IN
       CASE e[1] = "S" -> JStart(e[2], e[3], e[4])
         [] e[1] = "E" -> JEnd(e[2])
         [] e[1] = "D" -> JDefer(e[2])
         [] e[1] = "F" -> JFail(e[2])
         [] OTHER -> FALSE /\ UNCHANGED jvars

EndStep ==
    /\ i = Len(Ev) + 1
    /\ CASE Trace[rec].end = "returned" -> JReturn /\ \A s \in DOMAIN Trace[rec].good : Trace[rec].good[s] = 1
         [] Trace[rec].end = "raised" -> JThrow
         [] OTHER -> FALSE /\ UNCHANGED jvars

Inv == JOnce /\ JComplete /\ JSurfaces /\ JNoFalseAlarm /\ JDisjoint

Why == IF i <= Len(Ev)
       THEN <<"event", i, Ev[i]>>
       ELSE IF Trace[rec].end = "returned"
            THEN IF failed THEN <<"a failure was turned into a result">>
                 ELSE IF \E s \in DOMAIN stored : stored[s] # 1
                      THEN <<"returned without every slice processed exactly once">>
                 ELSE IF Busy # {} \/ deferred # {} THEN <<"returned before every chunk was processed">>
                 ELSE <<"wrong values in the result">>
            ELSE IF Trace[rec].end = "raised" THEN <<"raised although nothing failed">>
            ELSE <<Trace[rec].end>>

Step == /\ ~done
        /\ \/ EventStep /\ i' = i + 1 /\ UNCHANGED <<rec, done>>
           \/ EndStep /\ PrintT(<<"ACCEPT", rec>>) /\ done' = TRUE /\ UNCHANGED <<rec, i>>
Reject == /\ ~done /\ ~ENABLED Step
          /\ PrintT(<<"REJECT", rec, Why>>)
          /\ done' = TRUE /\ UNCHANGED <<job, active, started, deferred, parts, stored, failed, result, rec, i>>
NextRecord ==
    /\ done /\ rec + Shards <= Len(Trace)
    /\ LET r == rec + Shards IN
       /\ job' = [n |-> Trace[r].n, cores |-> Trace[r].cores, nchunk |-> Trace[r].nchunk]
       /\ active' = [w \in 0..Trace[r].W |-> Idle]
       /\ started' = {} /\ deferred' = {} /\ parts' = 0
       /\ stored' = [s \in 0..(Trace[r].n - 1) |-> 0]
       /\ failed' = FALSE /\ result' = "none"
       /\ rec' = r /\ i' = 1 /\ done' = FALSE
TNext == Step \/ Reject \/ NextRecord
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
