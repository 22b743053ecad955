------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* A process that makes one call after another.  Its cells are what a call *)
(* could leave changed for the caller and for later calls; the result of a *)
(* call is a function of its arguments, and of the random numbers for the  *)
(* functions that draw them.                                               *)
(***************************************************************************)
EXTENDS Contract
Cells == {"environment", "directory", "random", "numexpr", "errors", "printing", "warnings", "signals",
          "descriptors", "children", "threads", "path", "logging", "locale", "rounding", "debug", "modules"}
(* functions that draw random numbers from the generator of numpy *)
Draws == {"add_gaussian", "add_poisson", "add_salt_pepper", "add_zingers", "add_rings", "add_jitter", "add_noise",
          "align_seq", "align_joint"}
Others == {"find_center", "find_center_pc", "find_center_vo", "find_center_sino", "write_center", "mask_empty_slice",
           "add_drift", "angles", "shepp3d", "checkerboard", "trim_sinogram", "discrete_cdf",
           "calc_affine_transform", "remove_slits", "slits", "shared"}
Functions == {c.fn : c \in Table} \cup Draws \cup Others
(* the cells that a call may leave changed *)
MayChange(fn) == IF fn \in Draws THEN {"random"} ELSE {}

(* --- the machine: cells hold versions, a result is [fn, args, random] ---- *)
CONSTANTS Fns, Args, Depth
VARIABLES cells, results
vars == <<cells, results>>
Value(fn, a, c) == [fn |-> fn, args |-> a, random |-> IF fn \in Draws THEN c["random"] ELSE 0]
HInit == cells = [c \in Cells |-> 0] /\ results = <<>>
Call(fn, a, raised) ==
    /\ results' = Append(results, [fn |-> fn, args |-> a, raised |-> raised, random |-> cells["random"],
                                   value |-> IF raised THEN [fn |-> fn, args |-> a, random |-> -1] ELSE Value(fn, a, cells)])
    /\ \E k \in {0, 1} : cells' = [c \in Cells |-> IF c \in MayChange(fn) THEN cells[c] + k ELSE cells[c]]
HNext == Len(results) < Depth /\ \E fn \in Fns, a \in Args, r \in BOOLEAN : Call(fn, a, r)
HSpec == HInit /\ [][HNext]_vars
(* equal calls with equal random numbers have equal results, wherever they are in the history *)
Deterministic == \A i, j \in DOMAIN results :
    (/\ results[i].fn = results[j].fn /\ results[i].args = results[j].args
     /\ ~results[i].raised /\ ~results[j].raised
     /\ results[i].fn \in Draws => results[i].random = results[j].random)
    => results[i].value = results[j].value
OnlyRandom == \A c \in Cells \ {"random"} : cells[c] = 0
=============================================================================
