---------------------------- MODULE TraceEnhance ----------------------------
EXTENDS Enhance, Conform
\* within a share of the largest value, and of the data for derivatives that cancel
ImgClose(a, b, tol, scale) == Len(a) = Len(b) /\ \A y \in 1..Len(b) : VCloseTo(a[y], b[y], tol, scale)
Scale(a) == DMaxAbs([y \in 1..Len(a) |-> DMaxAbs(a[y])])
Right(r) ==
    CASE r.op = "gaussian" -> /\ Len(r.outs) = Len(r.imgs)
                              /\ \A k \in 1..Len(r.imgs) : ImgClose(r.outs[k], Smooth(r.imgs[k], r.s[1], r.s[2], r.o[1], r.o[2]), Tol(5), Scale(r.imgs[k]))
      [] r.op = "enhance" -> /\ Len(r.outs) = Len(r.imgs)
                             /\ \A k \in 1..Len(r.imgs) : ImgClose(r.outs[k], Enhanced(r.imgs[k], r.size), Tol(5), D1)
      [] r.op = "cdf" -> VClose(r.x, CdfX(r.data, r.steps), Tol(1)) /\ VClose(r.y, CdfY(r.data, r.steps), Tol(1))
      [] r.op = "bell" -> VCloseTo(r.y, [k \in 1..Len(r.x) |-> Bell(r.x[k], r.A, r.mu, r.sigma)], Tol(1), DAbs(r.A))
      \* lines (one size) or images (two) of the transform, by pairs <<before, after>>
      [] r.op = "fourier" -> \A k \in 1..Len(r.before) :
             LET a == r.before[k]
                 b == r.after[k]
                 w == IF Len(r.size) = 1 THEN ByRows(a, r.size[1], r.inverse) ELSE Fourier2(a, r.size[1], r.size[2], r.inverse)
                 top == DAdd(Scale(w.re), Scale(w.im))
             IN  ImgClose(b.re, w.re, Tol(1), top) /\ ImgClose(b.im, w.im, Tol(1), top)
      [] r.op = "write" -> /\ r.files = <<FileName(r.name, r.tail, r.digit, r.ext)>>
                           /\ r.back = r.data /\ r.backtype = r.datatype
Verdict(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE Clause(r.op, Right(r)) \cup Clause("kept", r.kept)
Accept == Judge(Verdict(Trace[pos]))
=============================================================================
