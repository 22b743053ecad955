"""Phase retrieval and wave propagation on small images."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


def image(r, rs, m, n):
    k = r.choice(['noise', 'noise', 'flat', 'edge', 'dot', 'ramp'])
    if k == 'noise':
        return 1 + rs.rand(m, n)
    if k == 'flat':
        return np.full((m, n), r.choice([1., .25, 7.]))
    a = np.full((m, n), .5)
    if k == 'edge':
        a[:, :r.randint(0, n)] = 3
        a[:r.randint(0, m)] += 1
    elif k == 'dot':
        a[r.randrange(m), r.randrange(n)] = r.choice([8, -8])
    else:
        a = a + np.arange(n) * .5 - np.arange(m)[:, None] * .25
    return a


def one(c):
    op, i = c['op'], c['i']
    r, rs = vt.rng('phase', op, i), vt.nprng('phase', op, i)
    m, n, k = r.randint(1, 9), r.randint(1, 10), r.choice([1, 2, 3, 4])
    rec = dict(op=op)
    if op == 'phase':
        a = np.stack([image(r, rs, m, n) for _ in range(k)])
        x, how = vt.dress(a, r, ('float32', 'float32', 'float64'))
        while True:
            q = dict(pixel_size=r.choice([1e-4, 3e-4, 1e-3, 2e-5]), dist=r.choice([1, 10, 50, 200]), energy=r.choice([5, 20, 33.3, 60]),
                     alpha=r.choice([1e-4, 1e-3, 1e-2, 1, 1e-7]))
            pad = r.random() < .65
            lam = 2 * np.pi * 6.58211928e-19 * 299792458e2 / q['energy']
            w = np.pi * lam * q['dist'] / q['pixel_size'] ** 2
            if not pad or (w < 14 and abs(w - round(w)) > 1e-6):
                break
        kw = dict(q, pad=pad)
        if r.random() < .3:
            kw['ncore'] = vt.ncores(r)
        if r.random() < .3:
            kw['nchunk'] = r.choice([1, 2])
        rec['par'] = dict(px=vt.dbl(q['pixel_size']), dist=vt.dbl(q['dist']), energy=vt.dbl(q['energy']), alpha=vt.dbl(q['alpha']), pad=pad)
        rec.update(imgs=vt.dbl(a), want=list(a.shape), input=how)
        got, v = vt.call(tomopy.retrieve_phase, x, **kw)
    elif op == 'tie':
        m, n = max(m, 2), max(n, 2)
        mu = np.stack([image(r, rs, m, n) for _ in range(k)]) * r.choice([1, .1])
        de = np.stack([image(r, rs, m, n) for _ in range(k)]) * r.choice([1, 1e-3])
        px, d = r.choice([1, .5, .1]), r.choice([0, 1, 3, .01])
        x, how = vt.dress(mu, r, ('float32', 'float64'))
        y, how2 = vt.dress(de, r, ('float32', 'float64'))
        rec.update(imgs=vt.dbl(mu), delta=vt.dbl(de), px=vt.dbl(px), dist=vt.dbl(d), want=list(mu.shape), input=how + how2)
        got, v = vt.call(tomopy.propagate_tie, x, y, px, d)
    elif op == 'probe':
        m, n = max(m, 2), max(n, 2)
        fwhm, cen = max(m, n) // 2, (m // 2, n // 2)
        kw = {}
        if r.random() < .6:
            kw['fwhm'] = fwhm = r.choice([1, 2, 3.5, 10])
        if r.random() < .6:
            kw['center'] = cen = (r.choice([0, 1.5, m / 2., -2]), r.choice([0, 2.5, n / 2., n]))
        peak = 1
        if r.random() < .6:
            kw['max_int'] = peak = r.choice([2, .5, 100])
        rec.update(nx=m, ny=n, fwhm=vt.dbl(fwhm), x0=vt.dbl(cen[0]), y0=vt.dbl(cen[1]), peak=vt.dbl(peak), want=[m, n])
        got, v = vt.call(tomopy.probe_gauss, m, n, **kw)
    else:
        pm, pn = r.randint(2, 4), r.randint(2, 4)
        m, n = r.randint(pm, 9), r.randint(pn, 9)
        p = image(r, rs, pm, pn)
        a = image(r, rs, m, n)
        sx, sy = pm // 2, pn // 2
        kw = {}
        if r.random() < .5:
            kw['shift_x'] = sx = r.randint(1, 4)
        if r.random() < .5:
            kw['shift_y'] = sy = r.randint(1, 4)
        far = r.random() < .5
        if far or r.random() < .5:
            kw['mode'] = 'far' if far else 'near'
        cnt = ((m - pm) // sx + 1) * ((n - pn) // sy + 1)
        rec.update(probe=vt.dbl(p), imgs=[vt.dbl(a)], sx=sx, sy=sy, far=far, want=[cnt, pm, pn])
        got, v = vt.call(tomopy.calc_intensity, p, a, **kw)
    rec['outcome'] = got
    rec['shape'], rec['out'] = [], []
    if got == 'ok':
        v = np.asarray(v)
        rec['shape'] = list(v.shape)
        rec['out'] = vt.dbl(v) if v.ndim == 3 else [vt.dbl(v)]
    else:
        rec['error'] = v[:200]
    return rec


def main():
    n = dict(phase=160, tie=60, probe=40, scan=80)
    if vt.MKL:
        n = dict(phase=60)
    cs = [dict(op=op, i=i) for op in sorted(n) for i in range(n[op] * (12 if vt.THOROUGH else 1))]
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
