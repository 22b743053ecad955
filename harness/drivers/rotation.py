"""The searches for the rotation axis, on small data."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy
import tifffile


def parallel(rs, r, n, w, ns, cen):
    """sinograms of a few blobs about the axis cen, 0 .. 180 degrees"""
    th = np.linspace(0, np.pi, n)
    x = np.arange(w)
    a = np.zeros((n, ns, w))
    for s in range(ns):
        for _ in range(r.choice([1, 2, 3])):
            rad, ph = r.uniform(0, w / 3.), r.uniform(0, 6.28)
            p = cen + rad * np.cos(th + ph)
            a[:, s] += r.uniform(.5, 2) * np.exp(-(x[None] - p[:, None]) ** 2 / r.choice([1., 2., 6.]))
    return a + r.choice([0, 0, .02]) * rs.rand(*a.shape)


def one(c):
    op, i = c['op'], c['i']
    r, rs = vt.rng('rot', op, i), vt.nprng('rot', op, i)
    rec = dict(op=op)
    if op == 'vo':
        n, w, ns = r.randint(4, 12), r.randint(8, 18), r.choice([1, 2, 3, 5, 9, 10, 10, 11, 11, 12, 13])
        cen = (w - 1) / 2. + r.choice([-2, -1, -.5, 0, .25, 1, 1.75])
        a = parallel(rs, r, n, w, ns, cen) if r.random() < .8 else rs.rand(n, ns, w)
        a = a.astype('float32').astype('float64')
        x, how = vt.dress(a, r, ('float32', 'float64'))
        step8, srad8 = 0, 0
        while srad8 < 8 or srad8 > 2 * w or srad8 < step8:      # at least a pixel, at most a quarter of the width
            step8 = r.choice([1, 2, 2, 4, 8])
            srad8 = step8 * r.randint(1, 12)
        q = dict(smin=r.choice([-3, -2, -50, 0, -5]), smax=r.choice([1, 3, 4, 50]), ratio=r.choice([.5, .5, .3, 1.]), drop=r.choice([20, 20, 1, 0]))
        kw = dict(q, srad=srad8 / 8., step=step8 / 8.)
        if r.random() < .5:
            kw['ncore'] = vt.ncores(r)
        sel = [ns // 2] if ns <= 10 else list(range(ns // 2 - 5, ns // 2 + 5))
        if r.random() < .4:
            kw['ind'] = r.randrange(ns)
            sel = [kw['ind']]
        if ns == 1 and r.random() < .5:
            x, sel = x[:, 0], [0]
            kw.pop('ind', None)
        got, v = vt.call(tomopy.find_center_vo, x, **kw)
        rec.update(input=how, sinos=[vt.dbl(a[:, s]) for s in sel], found8=0, exact=False,
                   par=dict(smin=q['smin'], smax=q['smax'], ratio=vt.dbl(q['ratio']), drop=q['drop'], srad8=srad8, step8=step8))
        if got == 'ok':
            v = float(v)
            rec['found8'], rec['exact'] = int(round(8 * v)), abs(8 * v - round(8 * v)) < 1e-9
    elif op == 'large':
        n, w = r.choice([(1500, 2700), (1201, 3400), (2101, 1910), (1800, 2100)])
        half = r.choice([30, 50, 50, 80])
        axis4 = 2 * (w - 1) + r.randint(-4 * half + 8, 4 * half - 8)
        th = np.linspace(0, np.pi, n)
        a = np.zeros((n, w), 'f4')
        x = np.arange(w) - axis4 / 4.
        for _ in range(r.choice([3, 4, 6])):
            k = r.choice([12, 20, 35, 60])
            rad, f = r.uniform(.05, .3) * w, r.uniform(0, 6.28)
            u = x[None] - (rad * np.cos(th - f))[:, None]
            a += r.uniform(1, 2) * np.sqrt(np.clip(k * k - u * u, 0, None)).astype('f4') / k
        kw = {} if half == 50 and r.random() < .5 else dict(smin=-half, smax=half)
        got, v = vt.call(tomopy.find_center_vo, a[:, None, :], ind=0, ncore=4, **kw)
        rec.update(axis4=axis4, found4=0, shape=[n, w])
        if got == 'ok':
            rec['found4'] = int(round(4 * float(v)))
    elif op == 'pc':
        m, w = r.randint(6, 14), r.randint(16, 28)
        lo, hi = r.randint(6, 8), w - r.randint(6, 8)
        p1 = np.zeros((m, w))
        p1[:, lo:hi] = rs.rand(m, hi - lo) + .2
        s = r.randint(-5, 5)
        p2 = np.roll(p1[:, ::-1], s, 1)
        kw = {}
        kw['tol'] = r.choice([.5, .5, .25, .1, 1.])
        if kw['tol'] == .5 and r.random() < .5:
            del kw['tol']
        if r.random() < .5:
            kw['rotc_guess'] = (w - 1) / 2. + r.choice([-2, -1, 0, 1, 3])
            if r.random() < .3 and 'tol' in kw:
                kw['tol'] = .5
        x, how = vt.dress(p1, r, ('float32', 'float64'))
        y, _ = vt.dress(p2, r, (str(x.dtype),))
        got, v = vt.call(tomopy.find_center_pc, x, y, **kw)
        rec.update(input=how, p1=vt.dbl(p1), p2=vt.dbl(p2), found2=0, exact=False)
        if got == 'ok':
            v = float(v)
            rec['found2'], rec['exact'] = int(round(2 * v)), abs(2 * v - round(2 * v)) < 1e-4
    elif op == 'pcsub':          # mirrored about an axis anywhere between the pixels
        m, w = r.choice([8, 13, 20]), r.choice([17, 23, 31])
        p1 = rs.rand(m, w) + .2
        s = r.uniform(-4, 4)
        fq = np.fft.fftfreq(w)
        p2 = np.real(np.fft.ifft(np.fft.fft(p1[:, ::-1], axis=1) * np.exp(-2j * np.pi * fq * s)[None], axis=1))
        tol = r.choice([.5, .25, .1, .04, .02, .3, .07])
        kw = {} if tol == .5 and r.random() < .5 else dict(tol=tol)
        got, v = vt.call(tomopy.find_center_pc, p1.astype(r.choice(['float32', 'float64'])), p2, **kw)
        rec.update(input='', tol1000=int(1000 * tol), true1000=int(round(1000 * ((w - 1 + s) / 2.))), found1000=0)
        rec['alias1000'] = 500 * w          # the shift is known up to the width
        if got == 'ok':
            rec['found1000'] = int(round(1000 * float(v)))
    elif op == 'entropy':
        n, w, ns = r.randint(5, 12), r.choice([8, 12, 16, 20]), r.choice([1, 3])
        cen = w / 2. + r.choice([-2, -1, 0, .5, 1.5])
        a = parallel(rs, r, n, w, ns, cen).astype('float32')
        if i % 4 == 3:
            a = -a                 # absorption and emission are both used
        th = np.linspace(0, np.pi, n).astype('float32')
        ind = r.choice([None, r.randrange(ns)])
        init = r.choice([None, cen, w / 2. + 1])
        ratio = r.choice([1., .8, .5])
        masked, sino = r.random() < .7, r.random() < .5
        x = np.ascontiguousarray(np.swapaxes(a, 0, 1)) if sino else a
        kw = dict(ind=ind, init=init, mask=masked, ratio=ratio, sinogram_order=sino, tol=.5)
        got, v = vt.call(tomopy.find_center, x.copy(), th, **kw)
        k = ns // 2 if ind is None else ind
        one_ = a[:, k:k + 1]
        if got == 'ok':
            base = tomopy.recon(one_, th, algorithm='gridrec')
            if masked:
                base = tomopy.circ_mask(base, 0)
            f = tomopy.recon(one_, th, center=np.float32(w // 2 if init is None else init), algorithm='gridrec')[0]
            b = tomopy.recon(one_, th, center=np.array(v, dtype='float32'), algorithm='gridrec')[0]
            rec.update(low=vt.dbl(base.min()), high=vt.dbl(base.max()), first=vt.dbl(f), best=vt.dbl(b), masked=masked, ratio=vt.dbl(ratio))
    elif op == 'write':
        n, w, ns = r.randint(3, 7), r.choice([8, 12, 16, 9, 13]), r.choice([1, 3, 4])
        a = parallel(rs, r, n, w, ns, w / 2.).astype('float32')
        th = np.linspace(0, np.pi, n).astype('float32')
        sino = r.random() < .5
        x = np.ascontiguousarray(np.swapaxes(a, 0, 1)) if sino else a
        ind = r.choice([None, r.randrange(ns)])
        rng = r.choice([None, [w / 2. - 1, w / 2. + 1, .5], [w / 2., w / 2. + 3], [w / 2. - 2.25, w / 2. - 1.2, .35]])
        alg = r.choice(['gridrec', 'gridrec', 'fbp', 'sirt', 'art', 'mlem'])
        masked, ratio = r.random() < .6, r.choice([1., .8, .5])
        kw = dict(ind=ind, mask=masked, ratio=ratio, sinogram_order=sino, algorithm=alg)
        extra = {}
        if rng is not None:
            kw['cen_range'] = r.choice([rng, tuple(rng), np.array(rng)])
        if r.random() < .5:
            kw['filter_name'] = r.choice(['parzen', 'hann', 'none'])
        if alg in ('gridrec', 'fbp'):
            extra['filter_name'] = kw.get('filter_name', 'parzen')
        d = tempfile.mkdtemp(dir=vt.TMP)
        dest = os.path.join(d, 'sub', 'center')
        got, v = vt.call(tomopy.write_center, x.copy(), th, dpath=dest, **kw)
        cs = np.arange(w / 2. - 5, w / 2. + 5, .5) if rng is None else np.arange(*rng)
        k = ns // 2 if ind is None else ind
        if got == 'ok':
            names = ['%.2f.tiff' % u for u in cs]
            files = sorted(os.listdir(dest))
            order = [u if u in files else '' for u in names] + [u for u in files if u not in names]
            refs = [tomopy.recon(a[:, k:k + 1], th, center=np.float32(u), algorithm=alg, **extra)[0] for u in cs]
            rec.update(names=names, files=order, refs=vt.dbl(np.stack(refs)), masked=masked, ratio=vt.dbl(ratio),
                       imgs=[vt.dbl(tifffile.imread(os.path.join(dest, u))) if u in files else [] for u in names])
        shutil.rmtree(d)
    else:
        n, m, w = r.randint(1, 5), r.randint(1, 7), r.randint(2, 9)
        a = rs.rand(n, m, w) * (rs.rand(m) < .6)[None, :, None] * r.choice([1, 30]) + r.choice([.01, .5])
        integer = r.random() < .3
        if integer:
            a = np.rint(a * 50) + 1
        th = r.choice([.25, .25, .5, 1., 2.])
        x, how = vt.dress(a, r, ('int32', 'uint16') if integer else ('float32', 'float64'))
        kw = {} if th == .25 else dict(threshold=th)
        got, v = vt.call(tomopy.mask_empty_slice, x, **kw)
        rec.update(sums=vt.dbl(a.sum(0)), threshold=vt.dbl(th), input=how)
        if got == 'ok':
            rec['mask'] = [bool(u) for u in v]
    rec['outcome'] = got
    if got != 'ok':
        rec['error'] = str(v)[:200]
    return rec


def main():
    n = dict(vo=70, pc=50, pcsub=30, entropy=24, write=24, empty=60, large=3)
    cs = [dict(op=op, i=i) for op in sorted(n) for i in range(n[op] * (10 if vt.THOROUGH else 1))]
    vt.rng('order').shuffle(cs)
    cs.sort(key=lambda c: c['op'] != 'large')
    vt.write_trace(vt.run_cases(cs, one, timeout=150, on_fail=lambda c, how: dict(c, outcome=how)))


main()
