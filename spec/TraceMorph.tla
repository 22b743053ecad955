----------------------------- MODULE TraceMorph -----------------------------
(* Recorded calls of pad, downsample, upsample, 360->180, trim against Morph *)
EXTENDS Morph, Conform
SameBut(out, want, scale) ==
    /\ out.sh = want.sh /\ WellFormed(out)
    /\ \A p \in DOMAIN want.v : scale * out.v[p] = want.v[p]
Verdict(r) ==
    LET a == r.a ax == IF "axis" \in DOMAIN r THEN NormAxis(r.axis, 3) ELSE 0 IN
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE r.op = "pad" ->
           LET k == IF r.npad = -1 THEN DefaultPad(a.sh[ax + 1]) ELSE r.npad
           IN  Clause("padded array", SameBut(r.out, Pad(a, ax, k, r.mode, r.cval), 1))
               \cup Clause("dtype", r.dtype = r.wantdtype)
       [] r.op = "downsample" -> Clause("binned array", SameBut(r.out, DownX(a, ax, r.level), Pow2(r.level)))
       [] r.op = "upsample" -> Clause("repeated array", SameBut(r.out, Up(a, ax, r.level), 1))
       [] r.op = "updown" -> Clause("downsampling undoes upsampling", r.out = a)
       [] r.op = "stitch" -> Clause("stitched array",
              SameBut(r.out, StitchX(a, r.overlap, r.rotation), 1))
       [] r.op = "trim" -> Clause("region of interest",
              TrimClear(a.sh, r.c4, r.d, r.x, r.y) => SameBut(r.out, Trim(a, r.c4, r.d, r.x, r.y), 1))
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
