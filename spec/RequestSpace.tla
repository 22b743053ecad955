---------------------------- MODULE RequestSpace ----------------------------
(* The space of requests: for every function the values of each option,     *)
(* the first of them the usual one; requests deviate from the usual in at   *)
(* most `Deviations' places.                                                *)
EXTENDS Requests
CONSTANT Deviations
Pick(s) == s[1]
Odd(x, s) == IF x = s[1] THEN 0 ELSE 1
Rng(s) == {s[k] : k \in 1..Len(s)}

(* ---- recon ---- *)
KW(k, v) == [k |-> k, v |-> v]
\* values of the keywords for 2 slices, 4 projections and 5 pixels
Kws == {<<>>} \cup
       {<<KW("num_gridx", <<v>>)>> : v \in {1, 2, 7, 0, -2}} \cup {<<KW("num_gridy", <<v>>)>> : v \in {1, 3, 0}} \cup
       {<<KW("num_iter", <<v>>)>> : v \in {0, 1, 2}} \cup
       {<<KW("num_block", <<v>>)>> : v \in {1, 2, 7, 0, -1}} \cup
       {<<KW("num_block", <<2>>), KW("ind_block", v)>> :
            v \in {<<3, 1, 0, 2>>, <<0, 1>>, <<0, 1, 2, 4>>, <<0, -1, 2, 3>>, <<>>}} \cup
       {<<KW("reg_par", <<v>>)>> : v \in {0, 1, 2, 10}} \cup
       {<<KW(a, v)>> : a \in {"reg_data", "init_recon"},
                       v \in {<<2, 5, 5>>, <<1, 5, 5>>, <<2, 5, 4>>, <<2, 4, 5>>, <<5, 5>>, <<3, 5, 5>>, <<2, 5, 6>>}} \cup
       {<<KW("num_gridx", <<3>>), KW(a, v)>> : a \in {"reg_data", "init_recon"},
                       v \in {<<2, 3, 5>>, <<2, 5, 3>>, <<2, 5, 5>>}} \cup
       {<<KW("bogus", <<1>>)>>}
R(alg, sh, sino, nth, centre, kw, flt) ==
    [op |-> "recon", alg |-> alg, sh |-> sh, sino |-> sino, nth |-> nth, centre |-> centre, kw |-> kw, flt |-> flt]
Recons ==
    {R(a, IF s THEN <<2, 4, 5>> ELSE <<4, 2, 5>>, s, 4, c, k, "") : a \in Algs, s \in BOOLEAN, c \in {-1, 2}, k \in Kws}
    \cup {R(a, sh, s, n, c, <<>>, "") : a \in Algs \cup {"nonsense", "ART", ""}, s \in BOOLEAN,
             sh \in {<<4, 2, 5>>, <<2, 4, 5>>, <<4, 5>>, <<1, 4, 5>>}, n \in {4, 3, 5, 2, 1}, c \in {-1, 0, 1, 2, 3, 4}}
    \cup {R(a, <<4, 2, n>>, FALSE, 4, -1, <<KW("filter_name", <<>>)>> \o k, f) : a \in {"gridrec", "fbp", "mlem"}, n \in {5, 20},
             f \in {"none", "shepp", "cosine", "hann", "hamming", "ramlak", "parzen", "butterworth", "custom", "custom2d"},
             k \in {<<>>} \cup {<<KW("filter_par", <<v>>)>> : v \in {0, 1, 2, 7, 8, 15, 16, 31, 32, 64, 63}}}
    \cup {R("gridrec", <<4, 2, n>>, FALSE, 4, -1, <<KW("filter_name", <<>>), KW(g, <<m>>)>> \o k, f) : n \in {5, 20}, m \in {3, 30}, g \in {"num_gridx", "num_gridy"},
             f \in {"hann", "butterworth", "custom", "custom2d"}, k \in {<<>>} \cup {<<KW("filter_par", <<v>>)>> : v \in {1, 8, 16, 32, 63, 64}}}
    \cup {R(a, <<4, 2, 1>>, FALSE, 4, -1, k, "") : a \in Algs,
             k \in {<<>>, <<KW("num_gridx", <<2>>), KW("num_gridy", <<2>>)>>, <<KW("num_gridx", <<3>>)>>}}

(* ---- projections ---- *)
Objs == {<<3, 3, 3>>, <<2, 3, 3>>, <<3, 2, 3>>, <<3, 3, 2>>, <<3, 3>>}
Proj(op, shs, nth, c, pad, sino, axis) ==
    [op |-> op, shs |-> shs, nth |-> nth, centre |-> c, pad |-> pad, sino |-> sino, axis |-> axis]
Projects ==
    {Proj("project", <<s>>, n, c, p, o, 0) : s \in Objs, n \in {1, 4}, c \in {-1, 0, 1, 2, 3, 4}, p \in BOOLEAN, o \in BOOLEAN}
    \cup {Proj("project2", <<s, t>>, 4, c, p, FALSE, 0) : s \in Objs, t \in Objs, c \in {-1, 0, 2, 3}, p \in BOOLEAN}
    \cup {Proj("project3", <<s, t, u>>, 4, c, TRUE, FALSE, a) :
             s \in Objs, t \in Objs, u \in Objs, c \in {-1, 0, 2, 3}, a \in {0, 1, 2, 3, -1}}
Odd3(r) == Cardinality({k \in 2..Len(r.shs) : r.shs[k] # r.shs[1]}) + (IF CentreOk(r.centre, r.shs[1][1]) THEN 0 ELSE 1)
Few(S) == {r \in S : Odd3(r) <= Deviations}

(* ---- vector tomography ---- *)
Vec(op, shs, nths, cs, axes) == [op |-> op, shs |-> shs, nths |-> nths, centres |-> cs, axes |-> axes]
Tomos == {<<4, 3, 3>>, <<4, 2, 3>>, <<4, 3, 2>>, <<5, 3, 3>>}
Vectors ==
    {Vec("vector", <<s>>, <<n>>, <<c>>, <<0>>) : s \in Tomos, n \in 3..5, c \in {-1, 0, 1, 2, 3, 4}}
    \cup {Vec("vector2", <<s, t>>, <<n, m>>, <<c, d>>, <<a, b>>) : s \in Tomos, t \in Tomos, n \in 3..5, m \in 4..5,
            c \in {-1, 3, 2}, d \in {-1, 2}, a \in {1, 0, 3}, b \in {2, 0, -1}}
    \cup {Vec("vector3", <<s, t, u>>, <<n, m, 4>>, <<c, -1, d>>, <<a, 1, b>>) : s \in Tomos, t \in Tomos, u \in Tomos,
            n \in 4..5, m \in {4, 3}, c \in {-1, 2}, d \in {0, 4}, a \in {0, 2}, b \in {2, 0, 3}}
OddV(r) == Cardinality({k \in 2..Len(r.shs) : r.shs[k] # r.shs[1]})
           + Cardinality({k \in 1..Len(r.shs) : r.nths[k] # r.shs[k][1]})
           + Cardinality({k \in 1..Len(r.shs) : ~CentreOk(r.centres[k], r.shs[1][2])})
           + Cardinality({k \in 1..Len(r.shs) : r.axes[k] \notin 0..2})
FewV(S) == {r \in S : OddV(r) <= Deviations}

(* ---- the rest ---- *)
Normalizes ==
    {[op |-> "normalize", sh |-> s, flat |-> f, dark |-> d, avg |-> a, out |-> o] :
        s \in {<<4, 2, 3>>}, f \in {<<2, 2, 3>>, <<5, 2, 3>>, <<2, 3>>, <<2, 3, 3>>, <<2, 2, 4>>},
        d \in {<<2, 2, 3>>, <<2, 3>>, <<2, 3, 2>>, <<3, 2>>}, a \in {"mean", "median", "mode", ""},
        o \in {<<>>, <<4, 2, 3>>, <<4, 2, 4>>, <<3, 2, 3>>}}
    \cup {[op |-> "normalize_nf", sh |-> <<6, 2, 3>>, flat |-> f, dark |-> d, avg |-> a, locs |-> l, out |-> <<>>] :
        f \in {<<4, 2, 3>>, <<4, 3, 3>>, <<1, 2, 3>>}, d \in {<<2, 2, 3>>, <<2, 3>>, <<2, 2, 4>>},
        a \in {"mean", "median", "max"}, l \in {<<0>>, <<0, 5>>, <<1, 3, 4>>, <<>>, <<0, 1, 2, 3, 4>>}}
    \cup {[op |-> "normalize_bg", sh |-> s, air |-> a] : s \in {<<3, 2, 5>>, <<3, 5, 2>>}, a \in {1, 2, 3, 5, 6, 0, -1, 40}}
Shapes3 == {<<4, 3, 5>>, <<3, 5>>, <<4, 0, 5>>, <<0, 3, 5>>, <<4, 3, 0>>, <<2, 4, 3, 5>>, <<5>>}
Filters3 == {[op |-> o, sh |-> s, size |-> z] : o \in {"median_filter3d", "remove_outlier3d"}, s \in Shapes3, z \in {1, 3, 4, 5, 7}}
Stripes3 == {[op |-> "stripes_detect3d", sh |-> s, size |-> z, radius |-> q] :
                s \in Shapes3 \cup {<<6, 3, 5>>, <<5, 3, 5>>, <<7, 2, 4>>, <<3, 4, 2>>, <<1, 2, 3>>}, z \in {1, 2, 3, 0, -1, 4}, q \in {1, 0, 2}}
            \cup {[op |-> "stripes_mask3d", sh |-> s, len |-> a, depth |-> b, width |-> c, perc |-> p] :
                s \in Shapes3 \cup {<<6, 3, 5>>, <<3, 3, 3>>}, a \in {2, 0, 3, 6, -1}, b \in {1, 0, 3, -1}, c \in {2, 0, 4, 5, -2}, p \in {50, 100, 0, 101, -5}}
OddM(r) == (IF r.op # "stripes_mask3d" THEN 0 ELSE IF ~Filter3dOk(r) THEN 2
            ELSE Cardinality({k \in 1..4 : CASE k = 1 -> ~(r.len > 0 /\ r.len < r.sh[1])
                                             [] k = 2 -> ~(r.depth >= 0 /\ r.depth < r.sh[2])
                                             [] k = 3 -> ~(r.width > 0 /\ r.width < r.sh[3])
                                             [] k = 4 -> ~(r.perc > 0 /\ r.perc <= 100)}))
Inpaints == {[op |-> "inpainter_morph", sh |-> s, mask |-> m, mtype |-> b, type |-> t, axis |-> a, size |-> z] :
                s \in {<<4, 3, 5>>, <<3, 5>>, <<4, 0, 5>>, <<0, 5>>, <<2, 3, 2, 3>>},
                m \in {<<4, 3, 5>>, <<3, 5>>, <<4, 3, 4>>, <<2, 3, 5>>, <<5, 3>>, <<4, 0, 5>>, <<0, 5>>, <<2, 3, 2, 3>>, <<5, 3, 5>>},
                b \in {"bool", "uint8"}, t \in {"mean", "median", "random", "nearest"}, a \in {9, 0, 1, 2, 3, -1}, z \in {3, 5, 1, 0, -3}}
OddI(r) == (IF r.mask = r.sh THEN 0 ELSE 1) + (IF r.mtype = "bool" THEN 0 ELSE 1) + (IF r.type = "nearest" THEN 1 ELSE 0)
           + (IF r.size >= 1 THEN 0 ELSE 1) + (IF r.axis = 9 \/ (Len(r.sh) = 3 /\ r.axis \in 0..2) THEN 0 ELSE 1)
Rings == {[op |-> "remove_ring", sh |-> <<2, 6, 8>>, mode |-> m, tmin |-> t, rwidth |-> w, cx |-> x, cy |-> y] :
            m \in {"WRAP", "Reflect", "mirror", ""}, t \in {30, 0, 179, 180, -1, 400}, w \in {30, 0, 2, -1, -5},
            x \in {4, 0, 7, 8, -1, 30}, y \in {3, 0, 5, 6, 7, -2}}
OddR(r) == (IF r.mode \in {"WRAP", "Reflect"} THEN 0 ELSE 1) + (IF r.tmin \in 0..179 THEN 0 ELSE 1) + (IF r.rwidth >= 0 THEN 0 ELSE 1)
           + (IF r.cx \in 0..7 THEN 0 ELSE 1) + (IF r.cy \in 0..5 THEN 0 ELSE 1)
Pads == {[op |-> "pad", sh |-> s, axis |-> a, npad |-> n, mode |-> m, key |-> k] :
            s \in {<<3, 4, 5>>, <<4, 5>>}, a \in {0, 1, 2, -1, -3, 3, -4}, n \in {2, 0, -1},
            m \in {"constant", "edge", "reflect", ""}, k \in {"", "constant_values", "bogus"}}
Stitches == {[op |-> "sino_360_to_180", sh |-> s, overlap |-> o, rotation |-> q] :
            s \in {<<6, 2, 5>>, <<5, 2, 5>>, <<6, 5>>}, o \in {2, 0, 1, 5, 6, 9, -1, 12}, q \in {"left", "right", "up", "LEFT"}}
Samples == {[op |-> "sample", up |-> u, sh |-> s, axis |-> a, level |-> l] : u \in BOOLEAN, s \in {<<4, 5, 6>>, <<4, 5>>},
            a \in -4..3, l \in {1, 0, 2, 3, -1}}
Alongs == {[op |-> "along", fn |-> f, sh |-> <<4, 5, 6>>, axis |-> a, out |-> o] :
            f \in {"median_filter", "gaussian_filter", "sobel_filter", "remove_outlier", "remove_outlier1d", "circ_mask"},
            a \in {0, 1, 2, -1, -3, 3, -4, 7}, o \in {<<>>, <<4, 5, 6>>, <<4, 5, 5>>, <<3, 5, 6>>}}
Plain(r) == r.out = <<>> \/ r.fn \in {"remove_outlier", "remove_outlier1d"}
Searches == {[op |-> "find_center", sh |-> <<5, 3, 8>>, nth |-> n, ind |-> i] : n \in {5, 4, 6}, i \in {0, 2, 3, 9}}
            \cup {[op |-> "find_center_vo", sh |-> s, ind |-> i] : s \in {<<5, 3, 24>>}, i \in {0, 2, 3, 9}}
            \cup {[op |-> "find_center_pc", sh |-> s, sh2 |-> t] : s \in {<<5, 8>>}, t \in {<<5, 8>>, <<5, 9>>, <<8, 5>>, <<4, 8>>}}
Others == {[op |-> "remove_stripe_fw", sh |-> <<8, 2, 8>>, wname |-> w, ncore |-> c] : w \in {"db5", "haar", "sym2", "nonsense", ""}, c \in {1, 2}}
          \cup {[op |-> "shift_images", sh |-> <<4, 5, 6>>, nsx |-> a, nsy |-> b] : a \in {4, 3, 1}, b \in {4, 3, 1}}
          \cup {[op |-> "calc_intensity", mode |-> m, probe |-> p, sh |-> s] : m \in {"near", "far", "middle", ""},
                 p \in {<<3, 3>>, <<6, 4>>, <<3, 7>>, <<2, 2>>}, s \in {<<6, 6>>, <<3, 3>>, <<6, 4>>}}

All == SetToSeq(Recons) \o SetToSeq(Few(Projects)) \o SetToSeq(FewV(Vectors)) \o SetToSeq(Normalizes) \o SetToSeq(Filters3)
       \o SetToSeq({r \in Stripes3 : OddM(r) <= Deviations}) \o SetToSeq({r \in Inpaints : OddI(r) <= Deviations}) \o SetToSeq({r \in Rings : OddR(r) <= Deviations})
       \o SetToSeq(Pads) \o SetToSeq(Stitches) \o SetToSeq(Samples) \o SetToSeq({r \in Alongs : Plain(r)}) \o SetToSeq(Searches) \o SetToSeq(Others)
=============================================================================
