------------------------------- MODULE Phase -------------------------------
(***************************************************************************)
(* Waves behind the object: retrieval of the phase from one image          *)
(* (Paganin), and the intensities a probe or a wave field gives.           *)
(* Images are given by their rows; lengths in cm, energies in keV.         *)
(***************************************************************************)
EXTENDS Linear
Planck == DMul(DRat(658211928, 100000000), DPow(DInt(10), DInt(-19)))       \* keV s
Light == DMul(DRat(299792458, 100000000), DPow(DInt(10), DInt(10)))         \* cm / s
Wavelength(energy) == DDiv(DMul(DMul(D2, DPi), DMul(Planck, Light)), energy)
Ceil(a) == -DFloor(DNeg(a))
RECURSIVE PowerFrom(_, _)
PowerFrom(p, n) == IF p >= n THEN p ELSE PowerFrom(2 * p, n)
(* pixels added on either side: room for the fringes, rounded up to a power of two *)
PadWidth(dim, px, lambda, dist) ==
    (PowerFrom(1, dim + Ceil(DDiv(DMul(DPi, DMul(lambda, dist)), DSq(px)))) - dim) \div 2
Clip(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
Padded(x, py, pz) == Eager([i \in 1..(Len(x) + 2 * py) |-> Eager([j \in 1..(Len(x[1]) + 2 * pz) |->
                        x[Clip(i - py, Len(x))][Clip(j - pz, Len(x[1]))]])])
Cropped(x, py, pz, m, n) == Eager([i \in 1..m |-> SubSeq(x[i + py], pz + 1, pz + n)])
(* n evenly spaced frequencies from minus to plus half the sampling frequency *)
Freqs(n, px) == Eager([i \in 1..n |-> IF n = 1 THEN D0
                                      ELSE DDiv(DRat(2 * (i - 1) - (n - 1), 2 * (n - 1)), px)])
Lowpass(m, n, px, lambda, dist, alpha) ==
    LET u == Freqs(m, px)
        v == Freqs(n, px)
        c == DDiv(DMul(lambda, dist), DMul(DInt(4), DPi))
        raw == Eager([i \in 1..m |-> Eager([j \in 1..n |->
                  DDiv(D1, DAdd(DMul(c, DAdd(DSq(u[i]), DSq(v[j]))), alpha))])])
        peak == DMaxAbs([i \in 1..m |-> DMaxAbs(raw[i])])
    IN  Eager([i \in 1..m |-> VScale(DDiv(D1, peak), raw[i])])
(* the coefficient for index k of the transform: the middle one belongs to k = 0 *)
FromMiddle(w) == LET m == Len(w)
                     n == Len(w[1])
                 IN  Eager([i \in 1..m |-> Eager([j \in 1..n |-> w[1 + ((i - 1 + (m \div 2)) % m)][1 + ((j - 1 + (n \div 2)) % n)]])])
Filtered(x, w) == LET F == Dft2(x) IN
    RealIdft2([re |-> Eager([i \in 1..Len(w) |-> VMul(w[i], F.re[i])]), im |-> Eager([i \in 1..Len(w) |-> VMul(w[i], F.im[i])])])
(* q: [px, dist, energy, alpha, pad] *)
Retrieve(x, q) ==
    LET lambda == Wavelength(q.energy)
        m == Len(x)
        n == Len(x[1])
        py == IF q.pad THEN PadWidth(m, q.px, lambda, q.dist) ELSE 0
        pz == IF q.pad THEN PadWidth(n, q.px, lambda, q.dist) ELSE 0
        w == FromMiddle(Lowpass(m + 2 * py, n + 2 * pz, q.px, lambda, q.dist, q.alpha))
    IN  Cropped(Filtered(Padded(x, py, pz), w), py, pz, m, n)
\* ---- transport of intensity ----
Slope(v, h) == LET n == Len(v) IN
    Eager([i \in 1..n |-> IF i = 1 THEN DDiv(DSub(v[2], v[1]), h)
                          ELSE IF i = n THEN DDiv(DSub(v[n], v[n - 1]), h)
                          ELSE DDiv(DSub(v[i + 1], v[i - 1]), DMul(D2, h))])
Transpose(x) == Eager([j \in 1..Len(x[1]) |-> Eager([i \in 1..Len(x) |-> x[i][j]])])
Along2(x, h) == Eager([i \in 1..Len(x) |-> Slope(x[i], h)])
Along1(x, h) == Transpose(Along2(Transpose(x), h))
MMul(a, b) == Eager([i \in 1..Len(a) |-> VMul(a[i], b[i])])
(* I + dist div(I grad delta),  I = exp(-mu) *)
Transport(mu, delta, px, dist) ==
    LET i1 == Eager([i \in 1..Len(mu) |-> Eager([j \in 1..Len(mu[1]) |-> DExp(DNeg(mu[i][j]))])])
        d1 == Along1(MMul(i1, Along1(delta, px)), px)
        d2 == Along2(MMul(i1, Along2(delta, px)), px)
    IN  Eager([i \in 1..Len(mu) |-> VAxpy(i1[i], dist, VAdd(d1[i], d2[i]))])
\* ---- a Gaussian probe and its raster scan over an image ----
Probe(nx, ny, fwhm, x0, y0, peak) ==
    Eager([i \in 1..nx |-> Eager([j \in 1..ny |->
        LET dx == DAdd(DSub(DInt(i - 1), x0), DHalf)
            dy == DAdd(DSub(DInt(j - 1), y0), DHalf)
        IN  DMul(peak, DExp(DDiv(DMul(DMul(DInt(-4), DLn(D2)), DAdd(DSq(dx), DSq(dy))), DSq(fwhm))))])])
(* where the probe fits, row after row *)
Stops(n, m, step) == [k \in 1..(IF n < m THEN 0 ELSE (n - m) \div step + 1) |-> (k - 1) * step]
Scan(probe, img, sx, sy) ==
    LET xs == Stops(Len(img), Len(probe), sx)
        ys == Stops(Len(img[1]), Len(probe[1]), sy)
    IN  Eager([k \in 1..(Len(xs) * Len(ys)) |->
            LET x == xs[1 + ((k - 1) \div Len(ys))]
                y == ys[1 + ((k - 1) % Len(ys))]
            IN  Eager([i \in 1..Len(probe) |-> VMul(probe[i], SubSeq(img[x + i], y + 1, y + Len(probe[1])))])])
Squares(x) == Eager([i \in 1..Len(x) |-> VMul(x[i], x[i])])
Intensities(probe, img, sx, sy, far) ==
    LET psi == Scan(probe, img, sx, sy) IN
    Eager([k \in 1..Len(psi) |-> Squares(IF far THEN Shifted(Modulus(Dft2(psi[k]))) ELSE psi[k])])
=============================================================================
