"""Corrections of the geometry of projection images."""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy
from scipy import ndimage
from tomopy.misc.npmath import calc_affine_transform
from tomopy.prep import alignment as A


def smooth(r, rs, m, n):
    """values without extremes next to each other: splines do not overshoot the range by much"""
    return 1 + rs.rand(m, n)


def slit_image(r, m, n, top, bottom, left, right):
    a = np.full((m, n), r.choice([1., 20.]))
    a[top:bottom, left:right] = r.choice([500., 1000.])
    y, x = np.mgrid[:m, :n]
    a += 100 * np.exp(-((y - (top + bottom) / 2. - 1) ** 2 + (x - (left + right) / 2. + 2) ** 2) / 9.)
    return a


def one(c):
    op, i = c['op'], c['i']
    r, rs = vt.rng('align', op, i), vt.nprng('align', op, i)
    m, n, k = r.randint(1, 9), r.randint(1, 10), r.choice([1, 2, 3, 4])
    rec = dict(op=op, imgs=[], want=[])
    if op in ('shift', 'jitter', 'blur'):
        m, n = max(m, 2), max(n, 2)
    a = np.stack([smooth(r, rs, m, n) for _ in range(k)])
    if r.random() < .3:
        a = a - 1.5
    if op == 'scale' and i % 4 == 1:
        a = np.minimum(a - a.max() - r.choice([0, .25]), 0) if r.random() < .7 else a * 0
    if op in ('shift', 'jitter') and i % 12 == 4:
        a = a * 0
    dts = ('float32', 'float64')
    x, how = vt.dress(a, r, dts)
    v = None
    if op in ('unwarp', 'sino'):
        xc, yc = r.uniform(-2, n + 1), r.uniform(-2, m + 1)
        if r.random() < .3:
            xc, yc = r.randint(0, n), r.randint(0, m)
        f = [r.choice([1., .9, 1.2])] + [r.uniform(-1, 1) * 10 ** -(j + r.choice([1, 2])) for j in range(r.randint(0, 4))]
        rec.update(xc=vt.dbl(xc), yc=vt.dbl(yc), fact=vt.dbl(f))
        if op == 'unwarp':
            kw = {}
            if r.random() < .4:
                kw = dict(ncore=vt.ncores(r), nchunk=r.choice([None, 1, 2]))
            rec['want'] = list(a.shape)
            got, v = vt.call(tomopy.distortion_correction_proj, x, xc, yc, f, **kw)
        else:
            rec['ind'] = ind = r.randrange(m)
            rec['want'] = [k, n]
            got, v = vt.call(tomopy.distortion_correction_sino, x, ind, xc, yc, f)
    elif op == 'coefs':
        nums = [round(rs.randn() * 10 ** r.choice([-8, -3, 0, 3]), r.choice([3, 9, 12])) for _ in range(r.randint(2, 8))]
        pre = r.choice(['', 'factor%d = ', 'name %d: '])
        with tempfile.NamedTemporaryFile('w', dir=vt.TMP, suffix='.txt', delete=False) as fh:
            fh.write('\n'.join((pre % j if pre else '') + r.choice(['%r', '%.17e']) % u for j, u in enumerate(nums)) + r.choice(['', '\n']))
        got, w = vt.call(tomopy.load_distortion_coefs, fh.name)
        os.unlink(fh.name)
        rec.update(written=vt.dbl(nums), coefs=[])
        if got == 'ok':
            rec['coefs'] = vt.dbl([w[0], w[1]] + list(w[2]))
            v = np.zeros(0)
            rec['want'] = [0]
        else:
            v = w
    elif op == 'shift':
        sy, sc = rs.randint(-3, 4, k), rs.randint(-3, 4, k)
        t = r.choice([int, float])
        rec.update(sy=sy.tolist(), sc=sc.tolist(), want=list(a.shape))
        got, v = vt.call(tomopy.shift_images, x, sy.astype(t), sc.astype(t))
    elif op == 'jitter':
        lo = r.choice([0, -3, 1, .5])
        hi = lo + r.choice([1, 2.5, 4])
        np.random.seed(r.randrange(2 ** 31))
        got, w = vt.call(tomopy.add_jitter, x, lo, hi)
        rec.update(low=vt.dbl(lo), high=vt.dbl(hi), want=list(a.shape))
        if got == 'ok':
            v, jc, jy = w
            rec.update(jc=vt.dbl(jc), jy=vt.dbl(jy))
            if len(jc) != k or len(jy) != k:
                got, v = 'raise', 'number of shifts'
        else:
            v = w
    elif op == 'scale':
        if r.random() < .3:
            x, how = vt.dress(np.rint(a * 8), r, ('int32', 'uint16') if a.min() > 0 else ('int32',))
            a = np.rint(a * 8)
        rec['want'] = list(a.shape)
        got, w = vt.call(tomopy.prep.alignment.scale, x)
        v = w
        if got == 'ok':
            v, s = w
            rec['scl'] = vt.dbl(s)
    elif op == 'blur':
        lo = r.choice([0, .2, .5])
        hi = lo + r.choice([.1, .3, .6])
        if i % 8 == 3:
            lo = hi = r.choice([0, .25, .5, 1])
        rec.update(low=vt.dbl(lo), high=vt.dbl(hi), want=list(a.shape))
        got, v = vt.call(tomopy.blur_edges, x, lo, hi)
    elif op == 'slits':
        m, n = r.randint(16, 26), r.randint(16, 30)
        if r.random() < .3:
            m, n = r.choice([(12, 30), (30, 12), (40, 16)])
        t, b = r.randint(3, m // 2 - 2), r.randint(m // 2 + 2, m - 3)
        lf, rt = r.randint(3, n // 2 - 2), r.randint(n // 2 + 2, n - 3)
        a = slit_image(r, m, n, t, b, lf, rt)[None] * (1 + .05 * rs.rand(m, n))
        quad = r.random() < .6
        k2, k1 = r.choice([1, 3, 3]), r.choice([1, 3, 5])
        rec.update(k2=k2, k1=k1, quadrant=quad, want=[4, 2])
        got, v = vt.call(tomopy.find_slits_corners_aps_1id, a[0], method='quadrant' if quad else 'simple',
                         medfilt2_kernel_size=k2, medfilt_kernel_size=k1)
        if got == 'ok':
            rec['found'] = np.asarray(v).astype(int)
    elif op == 'crop':
        m, n = r.randint(8, 14), r.randint(8, 14)
        a = rs.rand(k, m, n)
        clip = [r.choice([0, 1, 2]) for _ in range(4)]
        t, b, lf, rt = r.uniform(0, 2), r.uniform(5, m - 1), r.uniform(0, 2), r.uniform(5, n - 1)
        cn = np.array([[lf, t], [lf + r.random(), b], [rt, b - r.random()], [rt - r.random(), t + r.random()]])
        if r.random() < .3:
            cn = np.rint(cn)
        x = a.copy()
        cs, ys = cn[:, 0], cn[:, 1]
        rec.update(corners=vt.dbl(cn), clip=clip, want=[k, len(range(m)[int(np.floor(ys.min())) + clip[2]:int(np.ceil(ys.max())) - clip[3]]),
                                                        len(range(n)[int(np.floor(cs.min())) + clip[0]:int(np.ceil(cs.max())) - clip[1]])])
        got, v = vt.call(tomopy.remove_slits_aps_1id, x, cn, inclip=tuple(clip))
    elif op == 'affine':
        p = rs.rand(r.choice([3, 4, 7]), 2) * 20
        M = np.array([[1, 0], [0, 1]]) + rs.randn(2, 2) * r.choice([0, .1, .5])
        q = p.dot(M.T) + rs.randn(2) * 5
        rec.update(src=vt.dbl(p), dst=vt.dbl(q), want=[3, 3])
        got, v = vt.call(calc_affine_transform, p, q)
        if got == 'ok':
            rec['matrix'] = vt.dbl(v)
    else:
        far = i % 6 == 5           # the reference is nowhere near: no kernel will do
        k = 1 if far else 2
        for attempt in range(8):
            m, n = r.randint(78, 90), r.randint(78, 110)
            box = (20, m - 20, 25, n - 25)
            d = [(r.randint(-3, 3), r.randint(-3, 3)) for _ in range(k)]

            def im(dy, dx):
                a = np.ones((m, n))
                a[box[0] + dy:box[1] + dy, box[2] + dx:box[3] + dx] = 1000.
                y, x = np.mgrid[:m, :n]
                return ndimage.gaussian_filter(a + 50 * np.exp(-((y - 30 - dy) ** 2 + (x - 40 - dx) ** 2) / 8.), 1.)
            # the search for the slits is a heuristic: images on which it succeeds
            got, ref = vt.call(A.find_slits_corners_aps_1id, im(0, 0), medfilt_kernel_size=3)
            if got == 'ok' and all(vt.call(A.find_slits_corners_aps_1id, im(*q), medfilt_kernel_size=3)[0] == 'ok' and
                                   np.abs(A.find_slits_corners_aps_1id(im(*q), medfilt_kernel_size=3) - ref - q[::-1]).max() < .01 for q in d):
                if not far or all(vt.call(A.find_slits_corners_aps_1id, im(*d[0]), medfilt2_kernel_size=k2, medfilt_kernel_size=k1)[0] == 'ok' and
                                  np.abs(A.find_slits_corners_aps_1id(im(*d[0]), medfilt2_kernel_size=k2, medfilt_kernel_size=k1) - ref).max() < 6
                                  for k2 in range(3, 33, 2) for k1 in range(3, 33, 2)):
                    break
        a = np.stack([im(*q) for q in d])
        if far:
            ref = ref + r.choice([(0, 24), (24, 0), (-26, 3), (2, -24)])
        got, w = vt.call(A.detector_drift_adjust_aps_1id, a.copy(), ref, ncore=1)
        rec.update(drift=[[0, 0] if far else list(q) for q in d], margin=8, want=list(a.shape), corners=[])
        v = w[0] if got == 'ok' else w
        if far and got == 'ok':
            rec.update(corners=[vt.dbl(w[1][0]), vt.dbl(ref)])
    if op in ('unwarp', 'sino', 'shift', 'jitter', 'scale', 'blur', 'slits', 'crop', 'drift'):
        rec['imgs'] = vt.dbl(a)
    rec.update(outcome=got, shape=[], out=[], input=how)
    if got == 'ok':
        v = np.asarray(v)
        rec['shape'] = list(v.shape)
        if op not in ('coefs', 'slits', 'affine'):
            rec['out'] = vt.dbl(v) if v.ndim == 3 else [vt.dbl(v)]
    else:
        rec['error'] = str(v)[:200]
    return rec


def main():
    n = dict(unwarp=120, sino=80, coefs=20, shift=60, jitter=60, scale=30, blur=50, slits=40, crop=30, affine=20, drift=6)
    cs = [dict(op=op, i=i) for op in sorted(n) for i in range(n[op] * (10 if vt.THOROUGH else 1))]
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
