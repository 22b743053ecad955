------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Several calls in one process, at the same time (one in each thread) or  *)
(* inside one another (a slice-wise function that calls the library).      *)
(* The process has cells that all the calls share: the arrays that the     *)
(* last call published (shared), and the environment variable that tells   *)
(* how many cores a reconstruction uses (env; 0: not set).                 *)
(*                                                                         *)
(* A call is [kind, n, fail, nest, inner]: "dist" distributes n chunks on  *)
(* the host, "recon" reconstructs n groups of slices with one core; the    *)
(* function raises at chunk fail, and calls the library (kind inner, one   *)
(* chunk) at chunk nest.  A thread stops whenever a function is called, so *)
(* one step of a thread leads from one such point to the next one:         *)
(*   the function returns, its result is written, the next chunk is read.  *)
(*                                                                         *)
(* Private  a call works on arrays of its own (TRUE: the design), or on    *)
(*          those that were published last                                 *)
(* Counted  the last of overlapping reconstructions restores what the      *)
(*          first one found (TRUE), or each restores what it found itself  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Private, Counted
LOCAL INSTANCE SequencesExt

Inner(c) == [kind |-> c.inner, n |-> 1, fail |-> 0, nest |-> 0, inner |-> "dist"]
Frame(t, d, c) == [id |-> <<t, d>>, call |-> c, i |-> 0, nested |-> FALSE, data |-> <<>>, found |-> 0]
Calls(N) == {[kind |-> k, n |-> n, fail |-> f, nest |-> x, inner |-> y] :
                k \in {"dist", "recon"}, n \in 1..N, f \in 0..N, x \in 0..N, y \in {"dist", "recon"}}
Programs(N) == {c \in Calls(N) : c.fail <= c.n /\ c.nest <= c.n /\ (c.fail = 0 \/ c.nest = 0)
                                 /\ (c.nest = 0 => c.inner = "dist")}
(* a step for every call of a function and one to start *)
Steps(c) == 1 + (IF c.fail > 0 THEN c.fail ELSE c.n) + (IF c.nest > 0 THEN 1 ELSE 0)

Start(env) == [shared |-> <<>>, env |-> env, count |-> 0, saved |-> 0]
Top(s, t) == Last(s.fr[t])
SetTop(s, t, f) == [s EXCEPT !.fr[t] = Append(Front(@), f)]

(* the next chunk is read and the function called *)
Read(s, t) == LET f == Top(s, t) IN
    SetTop(s, t, [f EXCEPT !.i = @ + 1,
                           !.data = IF f.call.kind = "recon" \/ Private THEN f.id ELSE s.cells.shared])
Enter(s, t, c) ==
    LET f == [Frame(t, Len(s.fr[t]) + 1, c) EXCEPT !.found = s.cells.env]
        s1 == [s EXCEPT !.fr[t] = Append(@, f)]
        s2 == IF c.kind = "dist" THEN [s1 EXCEPT !.cells.shared = f.id]
              ELSE [s1 EXCEPT !.cells.saved = IF s.cells.count = 0 THEN s.cells.env ELSE @,
                              !.cells.count = @ + 1, !.cells.env = 1]
    IN Read(s2, t)
(* the call of the top frame ends *)
Leave(s, t) == LET f == Top(s, t)
                   s1 == [s EXCEPT !.fr[t] = Front(@)] IN
    IF f.call.kind = "dist" THEN [s1 EXCEPT !.cells.shared = <<>>]
    ELSE LET k == s.cells.count - 1 IN
         [s1 EXCEPT !.cells.count = k,
                    !.cells.env = IF ~Counted THEN f.found ELSE IF k = 0 THEN s.cells.saved ELSE @]
Write(s, t) == LET f == Top(s, t) IN
    [s EXCEPT !.out[t] = Append(@, [id |-> f.id, i |-> f.i, from |-> f.data,
                                    to |-> IF f.call.kind = "recon" \/ Private THEN f.id ELSE s.cells.shared])]

RECURSIVE Unwind(_, _), Return(_, _)
Unwind(s, t) == IF s.fr[t] = <<>> THEN [s EXCEPT !.outcome[t] = "raised"] ELSE Unwind(Leave(s, t), t)
(* the function of the top frame returns *)
Return(s, t) ==
    LET s1 == Write(s, t)
        f == Top(s1, t) IN
    IF f.i < f.call.n THEN Read(s1, t)
    ELSE LET s2 == Leave(s1, t) IN
         IF s2.fr[t] = <<>> THEN [s2 EXCEPT !.outcome[t] = "returned"] ELSE Return(s2, t)

Step(s, t, prog) ==
    IF s.outcome[t] = "none" /\ s.fr[t] = <<>> THEN Enter(s, t, prog[t])
    ELSE LET f == Top(s, t) IN
         IF f.call.fail = f.i THEN Unwind(s, t)
         ELSE IF f.call.nest = f.i /\ ~f.nested
              THEN Enter(SetTop(s, t, [f EXCEPT !.nested = TRUE]), t, Inner(f.call))
         ELSE Return(s, t)

World(prog, env) == [cells |-> Start(env), fr |-> [t \in DOMAIN prog |-> <<>>],
                     out |-> [t \in DOMAIN prog |-> <<>>], outcome |-> [t \in DOMAIN prog |-> "none"]]

(* what a call alone in a fresh process does *)
Alone(c) == LET k == IF c.fail > 0 THEN c.fail - 1 ELSE c.n IN
    [outcome |-> IF c.fail > 0 THEN "raised" ELSE "returned", chunks |-> k]
(* thread t wrote every chunk of its calls from their own arrays to their own results *)
Faithful(s, t, c) ==
    /\ \A w \in DOMAIN s.out[t] : s.out[t][w].from = s.out[t][w].id /\ s.out[t][w].to = s.out[t][w].id
    /\ s.outcome[t] # "none" =>
         /\ s.outcome[t] = Alone(c).outcome
         /\ SelectSeq(s.out[t], LAMBDA w : w.id = <<t, 1>>) =
              [i \in 1..Alone(c).chunks |-> [id |-> <<t, 1>>, i |-> i, from |-> <<t, 1>>, to |-> <<t, 1>>]]
Quiet(s) == \A t \in DOMAIN s.fr : s.fr[t] = <<>>
AsFound(s, env) == Quiet(s) => s.cells.env = env /\ s.cells.count = 0
=============================================================================
