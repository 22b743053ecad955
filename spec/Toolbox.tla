------------------------------ MODULE Toolbox ------------------------------
(***************************************************************************)
(* Reconstruction with an external toolbox (ASTRA, lprec, UFO): every slice is  *)
(* handed to the toolbox, whose objects (projectors, linked arrays,        *)
(* algorithms) live until they are deleted and refer to each other.        *)
(*                                                                         *)
(* Step(st, e): the state of the toolbox after event e.                    *)
(*   st.alive   the objects there are: <<id, kind, the objects it uses>>   *)
(*   st.runs    what was run: the events "run"                             *)
(*   st.busy    the tasks that are being run: <<transform, GPU>>           *)
(*   st.ready   the <<transform, GPU>> that were made ready                *)
(*   st.failed  the toolbox has refused something                          *)
(*   st.bad     what is wrong                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* the value of slice s (from 1), angle a, detector cell d (from 0) *)
Data(s, a, d) == 1000 * s + 20 * a + d + 1

(* Centres are in eighths of a cell.  Projectors of the CPU know no centre: *)
(* the data is shifted by the nearest whole number of cells.                *)
Nearest(ndet, c8) == LET x == 4 * ndet - c8 IN {k \in ((x - 4) \div 8)..((x + 4) \div 8) : 8 * k - x \in -4..4}
Shifted(s, a, d, ndet, k) == IF d - k \in 0..(ndet - 1) THEN Data(s, a, d - k) ELSE 0
Sinogram(s, nang, ndet, k) == [a \in 1..nang |-> [d \in 1..ndet |-> Shifted(s, a - 1, d - 1, ndet, k)]]
Inputs(s, nang, ndet, c8, gpu) ==
    IF gpu THEN {Sinogram(s, nang, ndet, 0)} ELSE {Sinogram(s, nang, ndet, k) : k \in Nearest(ndet, c8)}
Offset8(ndet, c8, gpu) == IF gpu THEN c8 - 4 * ndet ELSE 0

(* the graphs of tasks of UFO *)
Chain(fn) == IF fn = "ufo_fbp" THEN <<"input", "fft", "filter", "ifft", "backproject", "output">>
             ELSE <<"input", "zeropad", "fft", "dfi-sinc", "swap-quadrants", "ifft", "swap-quadrants", "output">>

(* recon_accelerated hands its arguments to the implementation named, or given as a function, or found *)
Implemented(impl, present) == \/ impl \in {"callable", "object"}
                              \/ impl \in {"unset", "tomoperi"} /\ present
AccEnd(impl, present, fails) == IF ~Implemented(impl, present) THEN "refused" ELSE IF fails THEN "told" ELSE "returned"
AccCalls(impl, present) == IF Implemented(impl, present) THEN 1 ELSE 0

Empty == [alive |-> {}, runs |-> <<>>, busy |-> {}, ready |-> {}, failed |-> FALSE, bad |-> {}]
Ids(st) == {o[1] : o \in st.alive}
Kind(st, id) == (CHOOSE o \in st.alive : o[1] = id)[2]
Uses(st, id) == (CHOOSE o \in st.alive : o[1] = id)[3]
Wrong(st, what) == [st EXCEPT !.bad = @ \cup {what}]
Step(st, e) ==
    CASE e.op = "new" ->
           IF \E i \in DOMAIN e.uses : e.uses[i] \notin Ids(st) THEN Wrong(st, "an object was made of deleted ones")
           ELSE [st EXCEPT !.alive = @ \cup {<<e.id, e.kind, e.uses>>}]
      [] e.op = "del" ->
           IF e.id \notin Ids(st) THEN Wrong(st, "an object was deleted twice")
           ELSE [st EXCEPT !.alive = {o \in @ : o[1] # e.id}]
      [] e.op = "run" ->
           IF e.id \notin Ids(st) \/ Kind(st, e.id) # "algorithm" THEN Wrong(st, "a deleted algorithm was run")
           ELSE IF \E i \in DOMAIN Uses(st, e.id) : Uses(st, e.id)[i] \notin Ids(st) THEN Wrong(st, "an algorithm was run on deleted objects")
           ELSE [st EXCEPT !.runs = Append(@, e)]
      [] e.op = "ready" -> [st EXCEPT !.ready = @ \cup {<<e.lp, e.gpu>>}]
      [] e.op = "begin" ->
           LET t == <<e.lp, e.gpu>> IN
           IF t \notin st.ready THEN Wrong(st, "a GPU was used that was not made ready")
           ELSE IF t \in st.busy THEN Wrong(st, "two tasks of a call were on one GPU")
           ELSE [st EXCEPT !.busy = @ \cup {t}, !.runs = Append(@, e)]
      [] e.op = "end" -> [st EXCEPT !.busy = @ \ {<<e.lp, e.gpu>>}]
      [] e.op = "graph" -> [st EXCEPT !.runs = Append(@, e)]
      [] e.op = "fail" -> [st EXCEPT !.failed = TRUE]
RECURSIVE After(_, _, _)
After(st, evs, k) == IF k > Len(evs) THEN st ELSE After(Step(st, evs[k]), evs, k + 1)
=============================================================================
