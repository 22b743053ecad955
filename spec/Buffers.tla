------------------------------ MODULE Buffers ------------------------------
(***************************************************************************)
(* What happens to memory while a public function processes an array.      *)
(*                                                                         *)
(* The argument arrives as a buffer of some dtype and layout (perhaps in   *)
(* shared memory, perhaps a view).  It is converted to float32, made       *)
(* contiguous or moved to shared memory as the function needs, and the     *)
(* function writes its result to a target: the caller's out, a fresh       *)
(* buffer or, for the documented in-place functions, the converted         *)
(* argument.  Invariants: nobody's memory changes except where the         *)
(* contract says so, the returned buffer holds the result, and out is what *)
(* is returned.                                                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Kinds == {"inplace", "copying", "distributed"}      \* how the function works
VARIABLES cfg, mem, cur, target, pc
vars == <<cfg, mem, cur, target, pc>>

\* buffers: 1 the argument, 2 the caller's other data around a view, 3 out, 4.. fresh
Arg == 1
Around == 2
Out == 3
Fresh == {4, 5, 6}
None == 0

Init ==
  /\ cfg \in [kind : Kinds, dt : {"float32", "other"}, lay : {"contiguous", "view"},
              shared : BOOLEAN, out : {"none", "new", "same"}]
  /\ cfg.kind = "inplace" => cfg.out = "none"       \* these take no out
  /\ cfg.out = "same" => cfg.dt = "float32"
  /\ mem = [b \in {Arg, Around, Out} \cup Fresh |->
              CASE b = Arg -> "data" [] b = Around -> "other data" [] OTHER -> "junk"]
  /\ cur = Arg
  /\ target = None
  /\ pc = "convert"

New == CHOOSE b \in Fresh : mem[b] = "junk"
Copy == /\ mem' = [mem EXCEPT ![New] = mem[cur]]
        /\ cur' = New

\* as_float32: a copy only if the dtype differs
Convert ==
  /\ pc = "convert"
  /\ IF cfg.dt = "other" THEN Copy ELSE UNCHANGED <<mem, cur>>
  /\ pc' = "place"
  /\ UNCHANGED <<cfg, target>>

\* as_sharedmem for distributed work, ascontiguousarray for C code.  Distributed
\* work overwrites its array, so that an argument that is already shared is copied
\* as well unless it is the output.
Place ==
  /\ pc = "place"
  /\ CASE cfg.kind = "distributed" ->
            IF cfg.shared /\ cur = Arg /\ cfg.lay = "contiguous" /\ cfg.out = "same"
            THEN UNCHANGED <<mem, cur>>
            ELSE Copy
       [] cfg.kind = "copying" ->
            IF cfg.lay = "view" /\ cur = Arg THEN Copy ELSE UNCHANGED <<mem, cur>>
       [] OTHER -> UNCHANGED <<mem, cur>>
  /\ pc' = "aim"
  /\ UNCHANGED <<cfg, target>>

Aim ==
  /\ pc = "aim"
  /\ target' = CASE cfg.out = "new" -> Out
                 [] cfg.out = "same" -> Arg
                 [] cfg.kind = "copying" -> New
                 [] OTHER -> cur
  /\ pc' = "work"
  /\ UNCHANGED <<cfg, mem, cur>>

Work ==
  /\ pc = "work"
  /\ mem[cur] = "data"                  \* what is processed is the argument's data
  /\ mem' = [mem EXCEPT ![target] = "result"]
  /\ pc' = "returned"
  /\ UNCHANGED <<cfg, cur, target>>

Next == Convert \/ Place \/ Aim \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
MayOverwrite(inpl, out) == inpl \/ out = "same"     \* shared with TraceContract
ArgKept == pc = "returned" =>
   \/ mem[Arg] = "data"
   \/ MayOverwrite(cfg.kind = "inplace", cfg.out)
AroundKept == mem[Around] = "other data"
OutHolds == pc = "returned" => /\ mem[target] = "result"
                               /\ cfg.out = "new" => target = Out
                               /\ cfg.out = "same" => target = Arg
Returns == <>(pc = "returned")
=============================================================================
