----------------------------- MODULE MCSession -----------------------------
(* Every interleaving of the calls of Threads threads.                      *)
EXTENDS Session
CONSTANTS Threads, N, Envs
VARIABLES prog, env, world
Init == prog \in [1..Threads -> Programs(N)] /\ env \in Envs /\ world = World(prog, env)
Next == /\ \E t \in 1..Threads : world.outcome[t] = "none" /\ world' = Step(world, t, prog)
        /\ UNCHANGED <<prog, env>>
Spec == Init /\ [][Next]_<<prog, env, world>>
Independent == \A t \in 1..Threads : Faithful(world, t, prog[t])
Restored == AsFound(world, env)
=============================================================================
