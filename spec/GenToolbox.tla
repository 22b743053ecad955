---------------------------- MODULE GenToolbox ----------------------------
(* The reconstructions to make with a stand-in for the toolbox.              *)
EXTENDS Toolbox, TLC, Json, IOUtils, SequencesExt
Split == {[n |-> n, ncore |-> k, nchunk |-> h] : n \in {1, 2, 3, 5}, k \in {1, 2, 3}, h \in {-1, 1, 2}}
Faults == {<<"none", 0>>, <<"method", 0>>} \cup {<<o, k>> : o \in {"projector", "link", "algorithm", "run"}, k \in 1..3}
Projs == {[proj |-> "linear", gpus |-> g, post |-> FALSE] : g \in {<<>>, <<1>>}}
         \cup {[proj |-> "cuda", gpus |-> g, post |-> p] : g \in {<<>>, <<0>>, <<3, 1>>, <<0, 1, 2>>}, p \in BOOLEAN}
Astra == {[kind |-> "astra", n |-> s.n, ncore |-> s.ncore, nchunk |-> s.nchunk, proj |-> p.proj, gpus |-> p.gpus, post |-> p.post,
           fail |-> f[1], at |-> f[2]] : s \in Split, p \in Projs, f \in Faults}
Lprec == {[kind |-> "lprec", n |-> s.n, ncore |-> s.ncore, nchunk |-> s.nchunk, gpus |-> g, ndet |-> d, fail |-> f[1], at |-> f[2]] :
            s \in Split \cup {[n |-> 8, ncore |-> k, nchunk |-> -1] : k \in {1, 2, 3}}, g \in {<<0>>, <<2, 0>>, <<0, 1, 2>>},
            d \in {6, 2800, 4200}, f \in {<<"none", 0>>, <<"task", 1>>, <<"task", 2>>}}
Ufo == {[kind |-> "ufo", fn |-> f, n |-> s.n, ncore |-> s.ncore, nchunk |-> s.nchunk, border |-> b, fail |-> "none", at |-> 0] :
          s \in Split, f \in {"ufo_fbp", "ufo_dfi"}, b \in 0..3}
(* recon_accelerated: which implementation, whether it is installed, the arguments given (the rest by default) *)
Given == SUBSET {"center", "emission", "algorithm", "hardware", "acc_option", "init_recon", "more"}
Other == {[kind |-> "other", impl |-> i, present |-> p, by |-> b, given |-> SetToSeq(g), fail |-> f, at |-> 1, n |-> 2] :
            i \in {"unset", "tomoperi", "callable", "object", "unknown", "number"}, p \in BOOLEAN, b \in {"name", "place"},
            g \in Given, f \in {"none", "peri"}}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Astra) \o SetToSeq(Lprec) \o SetToSeq(Ufo) \o SetToSeq(Other))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
