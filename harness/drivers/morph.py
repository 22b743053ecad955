"""pad, downsample, upsample, sino_360_to_180, trim_sinogram: real calls on integer data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


def one(c):
    op, i = c['op'], c['i']
    big = c.get('big')        # a large array, of which some lines along the axis are judged
    key = ('morph', op, i) + (('big',) if big else ())
    r, rs = vt.rng(*key), vt.nprng(*key)
    sh = [r.randint(1, 5), r.randint(1, 5), r.randint(1, 9)]
    if big:
        sh = [r.choice([3, 16, 70]), r.choice([5, 33, 140]), r.choice([9, 40, 130])]
    a = rs.permutation(int(np.prod(sh))).reshape(sh)
    rec = dict(op=op, outcome='ok', out=vt.NONE, dtype='', wantdtype='')
    ax = vt.pick_axis(r)
    if op == 'pad':
        x, how = vt.dress(a, r, vt.INTDT + ('complex128', 'float16', 'bool'))
        if x.dtype == bool:
            a = a % 2
            x[...] = a.astype(bool)
        npad = r.choice([-1, -1, 0, 1, 2, 3, 7] + ([20, 64] if big else []))
        if big and x.dtype.kind != 'b':
            a = a % 100
            x[...] = a
        mode = r.choice(['constant', 'constant', 'edge'])
        kw = {}
        cval = 0
        if mode == 'constant' and r.random() < 0.6:
            cval = 1 if x.dtype == bool else r.choice([0, 3, 100])
            kw['constant_values'] = cval
        if npad != -1:
            kw['npad'] = npad
        if r.random() < 0.7 or mode != 'constant':
            kw['mode'] = mode
        if r.random() < 0.5:
            kw['ncore'] = vt.ncores(r)
        got, v = vt.call(tomopy.pad, x, ax, **kw)
        if got == 'ok' and v.dtype.kind == 'c':
            v = v.real.astype('complex128') + v.imag * 1000
            rec['dtype'] = 'complex128'
            v = v.real
        rec.update(axis=ax, npad=npad, mode=mode, cval=cval, wantdtype=str(x.dtype), input=how)
        if got == 'ok' and not rec['dtype']:
            rec['dtype'] = str(v.dtype)
    elif op in ('downsample', 'upsample', 'updown'):
        level = r.choice([0, 1, 1, 1, 2, 3])
        dt = ('float32', 'float32', 'float64', 'int32', 'uint16')
        if op == 'downsample':
            if not big:
                sh = [r.randint(1, 9), r.randint(1, 7), r.randint(1, 9)]
            sh[ax % 3] = max(sh[ax % 3], 2 ** level)
            a = rs.permutation(int(np.prod(sh))).reshape(sh) % 2000 * 8
        x, how = vt.dress(a, r, [d for d in dt if d != 'uint16' or a.max() < 65536])
        kw = {}
        if not (level == 1 and r.random() < .3):
            kw['level'] = level
        if not (ax == 2 and r.random() < .5):
            kw['axis'] = ax
        if op == 'updown':
            got, v = vt.call(lambda: tomopy.downsample(tomopy.upsample(x, **kw), **kw))
        else:
            got, v = vt.call(getattr(tomopy, op), x, **kw)
        rec.update(axis=ax, level=level, input=how)
    elif op == 'stitch':
        sh = [r.randint(2, 9), r.randint(1, 3), r.randint(1, 8)]
        if big:
            sh = [r.choice([6, 11]), r.choice([2, 40]), r.choice([33, 90])]
        ov = r.randint(0, sh[2])
        a = rs.randint(1, 400, sh) * 840
        x, how = vt.dress(a, r, ('float32', 'float64'))
        rot = r.choice(['left', 'right'])
        kw = dict(overlap=ov + r.choice([0, 0, .25, -.25]), rotation=rot)
        if ov == 0 and r.random() < .5:
            kw.pop('overlap')
        if rot == 'left' and r.random() < .5:
            kw.pop('rotation')
        f = r.choice([tomopy.sino_360_to_180, tomopy.sino_360_t0_180])
        got, v = vt.call(f, x, **kw)
        rec.update(overlap=ov, rotation=rot, input=how)
        a = a // 840
        if got == 'ok':
            S = max(1, ov - 1) if ov != 1 else 2
            v = v.astype('float64') * S / 840                        # integers if right
            v = np.where(abs(v - np.rint(v)) < .05, np.rint(v), v)
            if big:
                rows = [0, sh[1] - 1]
                a, v = a[:, rows], v[:, rows]
            rec['scaled'] = True
            rec['out'] = vt.arr3(v)
            # TraceMorph multiplies by the scale itself
            rec['op'] = 'stitch'
    else:
        sh = [r.choice([1, 2, 4]), r.randint(1, 3) if not big else 33, r.randint(8, 16)]
        a = rs.permutation(int(np.prod(sh))).reshape(sh) + 2
        d = r.randint(1, 6)
        c4 = 2 * sh[2] + r.randint(-6, 6)
        px, py = r.randint(-3, 3), r.randint(-3, 3)
        x, how = vt.dress(a, r, ('float32', 'float64', 'int32'))
        got, v = vt.call(tomopy.trim_sinogram, x, c4 / 4.0, px, py, d)
        rec.update(c4=c4, d=d, x=px, y=py, input=how)
        if got == 'raise':
            # windows that leave the frame are not specified
            al = np.arctan2(px, py)
            rad = np.hypot(px, py)
            st = [c4 / 4.0 - d / 2.0 + rad * np.cos(al - m * np.pi / sh[0]) for m in range(sh[0])]
            if min(st) < 0 or max(st) + d > sh[2]:
                got, v = 'ok', np.zeros((0, 0, 0))
    if big and op != 'stitch':
        for d in range(3):
            if d != (ax % 3 if op != 'trim' else 2) and not (op == 'trim' and d == 0):
                n = a.shape[d]
                keep = [0, n - 1, r.randrange(n)] if op != 'trim' else [0, n - 1]
                if got == 'ok' and v.shape[d] == n:
                    v = np.take(v, keep, d)
                a = np.take(a, keep, d)
    rec['a'] = vt.arr3(a)
    rec['outcome'] = got
    if got == 'ok':
        if op != 'stitch':
            rec['out'] = vt.arr3(v)
    else:
        rec['error'] = v[:200]
    return rec


W = dict(pad=8, downsample=6, upsample=4, updown=2, stitch=7, trim=6)


def main():
    k = 120 if vt.THOROUGH else 25
    cs = [dict(op=o, i=i) for o in W for i in range(W[o] * k)]
    cs += [dict(op=o, i=i, big=1) for o in W for i in range(W[o] * k // 6)]
    vt.rng('order').shuffle(cs)
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
