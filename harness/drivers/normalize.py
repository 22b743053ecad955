"""normalize, normalize_nf, normalize_bg, normalize_roi, minus_log on integer data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy

S = 65536
CAP = 2 ** 30


def fx(a, scale):
    a = np.asarray(a, dtype='float64')
    b = np.where(np.isfinite(a), a, 0) * scale
    e = np.rint(np.clip(b, -CAP, CAP)).astype('int64')
    e = np.where(np.isnan(a), -CAP + 1, e)
    e = np.where(np.isinf(a), CAP, e)
    return {'sh': list(a.shape), 'v': e.ravel().tolist()}


def outarg(r, x, kw):
    m = r.choice(['none', 'none', 'new', 'newF', 'same'])
    if m == 'none':
        return None
    if m == 'same' and x.dtype == np.float32:
        kw['out'] = x
    else:
        kw['out'] = np.full(x.shape, 7.5, 'float32', order='F' if m == 'newF' else 'C')
    return kw['out']


def one(c):
    op, i = c['op'], c['i']
    big = c.get('big')        # a large array, of which some pixels are judged
    key = ('norm', op, i) + (('big',) if big else ())
    r, rs = vt.rng(*key), vt.nprng(*key)
    sh = [r.randint(1, 7), r.randint(1, 4), r.randint(1, 5)]
    if big:
        sh = [r.choice([2, 11, 33]), r.choice([3, 64, 130]), r.choice([70, 129, 300])]
        ys, xs = [r.randrange(sh[1]) for _ in range(9)], [r.randrange(sh[2]) for _ in range(9)]
        ys[:2], xs[:2] = [0, sh[1] - 1], [0, sh[2] - 1]
    pick = (lambda z: np.ascontiguousarray(np.asarray(z)[:, ys, xs][:, None, :])) if big else (lambda z: z)
    rec = dict(op=op, outcome='ok')
    kw = {}
    if r.random() < .7:
        kw['ncore'] = vt.ncores(r)
    DT = ('float32', 'float32', 'float64', 'uint16', 'int32', '>u2', 'uint8')
    if op in ('normalize', 'normalize_nf'):
        a = rs.randint(0, 60, sh)
        x, how = vt.dress(a, r, DT)
        nd = r.randint(1, 4)
        d = rs.randint(0, 6, [nd] + sh[1:])
        dd, dhow = vt.dress(d, r, DT)
        flag2 = nd == 1 and r.random() < .5
        avg = r.choice(['mean', 'median'])
        rec.update(how=avg)
        if avg == 'median' or r.random() < .5:
            kw['averaging'] = avg
        cut4 = r.choice([None, None, 2, 4, 6, 9, 0, -3])
        rec.update(hascut=cut4 is not None, cut4=cut4 or 0)
        if cut4 is not None:
            kw['cutoff'] = cut4 / 4.0
        if op == 'normalize':
            nf = r.randint(1, 4)
            f = rs.randint(4, 40, [nf] + sh[1:])
            ff, fhow = vt.dress(f, r, DT)
            farg = ff[0] if nf == 1 and r.random() < .5 else ff
            o = outarg(r, x, kw)
            got, v = vt.call(tomopy.normalize, x, farg, dd[0] if flag2 else dd, **kw)
        else:
            sh[0] = r.randint(2, 10) if not big else r.choice([11, 40])
            a = rs.randint(0, 60, sh)
            x, how = vt.dress(a, r, DT)
            n = r.randint(1, min(6 if big else 3, sh[0]))
            loc = sorted(r.sample(range(sh[0]), n))
            g = r.choice([1, 1, 2, 3])
            extra = r.choice([0, 0, 1]) if n > 1 else 0
            extra = min(extra, n - 1)
            f = rs.randint(4, 40, [g * n + extra] + sh[1:])
            ff, fhow = vt.dress(f, r, DT)
            rec.update(loc=loc)
            o = outarg(r, x, kw)
            got, v = vt.call(tomopy.normalize_nf, x, ff, dd[0] if flag2 else dd, loc, **kw)
        rec.update(a=vt.arr3(pick(a)), flat=vt.arr3(pick(f)), dark=vt.arr3(pick(d)),
                   input='%s %s %s %s' % (how, fhow, dhow, sh))
        if got == 'ok' and o is not None and v is not o:
            got, v = 'does not return out', ''
        if got == 'ok':
            v = pick(v)
            rec['o6'] = fx(v, S * 1e-6)
    elif op == 'normalize_bg':
        if big:
            sh[2] = r.choice([17, 20, 33])
            ii, ys = [r.randrange(sh[0]) for _ in range(4)], [r.randrange(sh[1]) for _ in range(4)]
            ii[:2], ys[:2] = [0, sh[0] - 1], [0, sh[1] - 1]
            pick = lambda z: np.ascontiguousarray(np.asarray(z)[ii, ys][:, None, :])
        else:
            sh[2] = r.randint(2, 9)
        a = rs.randint(-3 if r.random() < .3 else 1, 30, sh)
        air = r.randint(1, min(4, sh[2]))
        x, how = vt.dress(a, r, ('float32', 'float32', 'float64', 'int32'))
        if air != 1 or r.random() < .5:
            kw['air'] = air
        if r.random() < .6:
            kw['nchunk'] = r.choice([None, 1, 2, 3, 50])
        got, v = vt.call(tomopy.normalize_bg, x, **kw)
        rec.update(a=vt.arr3(pick(a)), air=air, input=how)
        v = pick(v) if got == 'ok' else v
    elif op == 'normalize_roi':
        sh = [r.randint(1, 5) if not big else r.choice([17, 40]), r.randint(1, 7), r.randint(1, 7)]
        lowv = r.choice([1, 0, -4])
        a = rs.randint(lowv, 20, sh)
        if r.random() < .2:
            a[0] = 0
        y0, x0 = r.randrange(sh[1]), r.randrange(sh[2])
        y1, x1 = r.randint(y0 + 1, sh[1] + 2), r.randint(x0 + 1, sh[2] + 2)
        roi = [y0, x0, y1, x1]
        x, how = vt.dress(a, r, ('float32', 'float32', 'float64', 'int32'))
        if r.random() < .1:
            roi = [0, 0, 10, 10]
        elif roi:
            kw['roi'] = roi
        got, v = vt.call(tomopy.normalize_roi, x, **kw)
        rec.update(a=vt.arr3(a), roi=roi, input=how)
    else:
        E = rs.randint(0, 4, sh + [4])
        E[..., 2:] = rs.randint(0, 2, sh + [2])
        a = (np.array([2, 3, 5, 7]) ** E).prod(-1)
        a = np.where(rs.rand(*sh) < .08, 0, a)
        a = np.where(rs.rand(*sh) < .08, -a, a)
        x, how = vt.dress(a, r, ('float32', 'float32', 'float64', 'int32'))
        o = outarg(r, x, kw)
        got, v = vt.call(tomopy.minus_log, x, **kw)
        rec.update(a=vt.arr3(a), e=E.reshape(-1, 4).tolist(), input=how)
        if got == 'ok' and o is not None and v is not o:
            got, v = 'does not return out', ''
        if got == 'ok':
            rec['o'] = vt.arr3(np.rint(v.astype('float64') * S))
    rec['outcome'] = got
    if got == 'ok' and op != 'minus_log':
        rec['o'] = fx(v, S)
    if got != 'ok':
        rec['error'] = str(v)[:200]
    return rec


W = dict(normalize=7, normalize_nf=7, normalize_bg=4, normalize_roi=4, minus_log=3)


def main():
    k = 100 if vt.THOROUGH else 20
    cs = [dict(op=o, i=i) for o in W for i in range(W[o] * k)]
    cs += [dict(op=o, i=i, big=1) for o in W if o != 'minus_log' for i in range(W[o] * k // 10)]
    vt.rng('order').shuffle(cs)
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
