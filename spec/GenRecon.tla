------------------------------ MODULE GenRecon ------------------------------
(* The configurations of the reconstruction and projection calls: every        *)
(* combination of algorithm and options that the library distinguishes.  Each   *)
(* is a case for the driver, which fills in geometry and data.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES cfg, done
Kind == IOEnv.RKIND
Algs == {"art", "bart", "fbp", "mlem", "osem", "ospml_hybrid", "ospml_quad",
         "pml_hybrid", "pml_quad", "sirt", "tv", "grad", "tikh"}
Blocked == {"bart", "osem", "ospml_hybrid", "ospml_quad"}
Recons == [op : {"recon"}, alg : Algs, nb : 1..4, order : {"default", "shuffled"},
           grid : {"square", "wide", "tall", "default"}, slices : {1, 3},
           centre : {"none", "one", "each"}, init : BOOLEAN, n : {1, 2, 3, 7, 16}, sino : BOOLEAN]
Sensible(c) == /\ (c.alg \notin Blocked => c.nb = 1 /\ c.order = "default")
               /\ (c.nb = 1 => c.order = "default")
               /\ (c.alg = "fbp" => c.n = 1)
               /\ (c.slices = 1 => c.centre # "each")
               /\ (c.n >= 7 => c.slices = 1 /\ c.nb < 4)
               /\ (c.n = 16 => c.grid # "wide" /\ c.centre # "one")
Projects == [op : {"project", "project2", "project3"}, alg : {"-"}, nb : {1}, order : {"default"},
             grid : {"square", "wide", "tall"}, slices : {1, 3}, centre : {"none", "one", "each"},
             init : BOOLEAN, n : {0, 1, 2}, sino : BOOLEAN]   \* init: transmission, n: padding / axis
Vectors == [op : {"vector", "vector2", "vector3"}, alg : {"-"}, nb : {1}, order : {"default"},
            grid : {"square"}, slices : {1, 3}, centre : {"none", "one", "each"},
            init : {FALSE}, n : {1, 2, 5, 15}, sino : {FALSE}]
Cases == CASE Kind = "recon" -> {c \in Recons : Sensible(c)}
           [] Kind = "project" -> {c \in Projects : c.slices = 1 => c.centre # "each"}
           [] Kind = "vector" -> {c \in Vectors : c.slices = 1 => c.centre # "each"}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
Init == cfg = 0 /\ done = FALSE
Next == FALSE /\ UNCHANGED <<cfg, done>>
=============================================================================
