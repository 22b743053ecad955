"""stripes_detect3d and stripes_mask3d on integer data / weights that are multiples of 1/64."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


def one(c):
    op, i = c['op'], c['i']
    r, rs = vt.rng('s3', op, i), vt.nprng('s3', op, i)
    kw = {}
    if r.random() < .6:
        kw['ncore'] = vt.ncores(r)
    if op == 'detect':
        sh = [r.randint(2, 9), r.randint(1, 5), r.randint(1, 9)]
        a = rs.randint(-8, 20, sh)
        k = r.random()
        if k < .3:                      # stripes on a background
            a = a % 3 + 10 * (rs.rand(1, sh[1], sh[2]) < .3)
        elif k < .4:
            a = np.full(sh, r.choice([0, 3, -4]))
        x, how = vt.dress(a, r, ('float32', 'float32', 'float64', 'int16'))
        size = r.randint(1, sh[0] // 2)
        radius = r.choice([1, 1, 2, 3])
        rec = dict(op=op, a=vt.arr3(a), size=size, radius=radius, input=how)
        kw['size'] = size
        if radius != 3 or r.random() < .5:
            kw['radius'] = radius
        got, v = vt.call(tomopy.prep.stripe.stripes_detect3d, x, **kw)
        rec['outcome'] = got
        if got == 'ok':
            rec.update(out=dict(sh=list(v.shape), v=vt.dbl(v.ravel())), dtype=str(v.dtype))
    else:
        sh = [r.randint(2, 12), r.randint(1, 6), r.randint(2, 10)]
        a = rs.randint(0, 65, sh)
        k = r.random()
        if k < .6:                      # vertical structures
            m = rs.rand(sh[0], sh[1], sh[2]) < .8
            a = np.where(m & (rs.rand(1, sh[1], sh[2]) < r.choice([.2, .5])), rs.randint(0, 40, sh), rs.randint(30, 65, sh))
        x, how = vt.dress(a, r, ('float32', 'float32', 'float64'))
        x = x / np.float32(64)
        thr = r.choice([0, 20, 32, 38, 40, 64])
        ln = r.randint(1, sh[0] - 1)
        dp = r.randint(0, sh[1] - 1)
        wd = r.randint(1, sh[2] - 1)
        while True:
            sens = r.choice([100, 100, 85, 50, 33, 10, 1, 67, 95])
            if sens == 100 or ((sens * ln) % 100 and (sens * dp) % 100) or (dp == 0 and (sens * ln) % 100):
                break
        rec = dict(op=op, a=vt.arr3(a), thr=thr, len=ln, depth=dp, width=wd, sens=sens, input=how)
        kw.update(threshold=thr / 64.0, min_stripe_length=ln, min_stripe_depth=dp, min_stripe_width=wd, sensitivity_perc=float(sens))
        if r.random() < .5:
            kw['sensitivity_perc'] = sens
        got, v = vt.call(tomopy.prep.stripe.stripes_mask3d, x, **kw)
        rec['outcome'] = got
        if got == 'ok':
            rec.update(out=vt.arr3(v), dtype=str(v.dtype))
    if got != 'ok':
        rec['error'] = v[:200]
    return rec


def main():
    k = 1500 if vt.THOROUGH else 220
    cs = [dict(op=o, i=i) for o in ('detect', 'mask') for i in range(k)]
    vt.rng('order').shuffle(cs)
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
