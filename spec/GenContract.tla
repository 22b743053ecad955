---------------------------- MODULE GenContract ----------------------------
(* The calls to make: every function of the table in every variation.       *)
EXTENDS Contract, TLC, Json, IOUtils, SequencesExt
Mode == IOEnv.CMODE
Cores == {-1, 1, 2, 3, 8, 40}          \* -1: not given
Chunks == {-1, 1, 2, 3, 5, 50}
Sizes == {1, 2, 3, 5, 8}
Layouts == {"C", "F", "T", "S", "N", "O", "H", "G", "P"}
Dtypes == {"float32", "float64", "int32", "uint16", "uint8", ">f4", ">i2", "uint32", "int64"}
\* read-only arrays, where nothing may be overwritten
LaysOf(c) == Layouts \cup (IF c.inpl THEN {} ELSE {"R"})
Alone == {[fn |-> c.fn, ax |-> c.ax, oax |-> c.oax, par |-> c.par, n |-> n, ncore |-> k, nchunk |-> h] :
            c \in {d \in Table : d.ax # -1}, n \in Sizes, k \in Cores, h \in Chunks}
Whole == {[fn |-> c.fn, ax |-> c.ax, oax |-> c.oax, par |-> c.par, n |-> n, ncore |-> k, nchunk |-> -1] :
            c \in {d \in Table : d.ax = -1}, n \in Sizes \ {1}, k \in Cores}
Chunking == {r \in Alone \cup Whole : /\ r.par # "both" => r.nchunk = -1
                                      /\ r.par = "none" => r.ncore = -1}
Lays == UNION {{[fn |-> c.fn, lay |-> l, dt |-> d] : l \in LaysOf(c), d \in IF c.lay THEN Dtypes ELSE {"float32", ">f4"}} : c \in Table}
Keeps == UNION {{[fn |-> c.fn, lay |-> l, dt |-> d, out |-> "none", par |-> c.par] : l \in LaysOf(c), d \in {"float32", "float64"}} : c \in Table}
         \cup {[fn |-> c.fn, lay |-> l, dt |-> "float32", out |-> o, par |-> c.par] :
            c \in {d \in Table : d.kw}, l \in {"C", "O", "H", "G", "P"}, o \in {"new", "same", "strided"}}
Cases == CASE Mode = "alone" -> Chunking [] Mode = "layout" -> Lays [] Mode = "keep" -> Keeps
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
