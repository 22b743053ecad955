"""Median filters, dezingers, Sobel: real calls on integer data -> trace for TraceRank."""
import json, os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy

OPS = ['median_filter', 'remove_outlier', 'remove_outlier1d', 'median_filter3d', 'remove_outlier3d',
       'sobel_filter', 'median_filter_nonfinite', 'median_filter_cuda', 'remove_outlier_cuda']
W = {'median_filter': 5, 'remove_outlier': 6, 'remove_outlier1d': 5, 'median_filter3d': 4,
     'remove_outlier3d': 5, 'sobel_filter': 2, 'median_filter_nonfinite': 4, 'median_filter_cuda': 2,
     'remove_outlier_cuda': 2}


def data(r, rs, sh):
    kind = r.choice(['few', 'spiky', 'ramp', 'distinct'])
    n = int(np.prod(sh))
    if kind == 'few':
        a = rs.randint(0, 4, sh)
    elif kind == 'distinct':
        a = rs.permutation(n).reshape(sh)
    elif kind == 'ramp':
        a = np.indices(sh).sum(0) * 3 + rs.randint(0, 2, sh)
    else:
        a = rs.randint(5, 9, sh)
        a[rs.rand(*sh) < 0.15] = 60
        a[rs.rand(*sh) < 0.1] = 0
    return a


def device():
    """a stand-in for the GPU toolbox: filters the padded image it is given"""
    mod, made = types.ModuleType('tomocuda'), []

    class mFilter:
        def __init__(self, w, h, n, size):
            self.w, self.h, self.n, self.size, self.im, self.res = w, h, n, size, None, None
            made.append(self)

        def setCuImage(self, im):
            im = np.asarray(im)
            assert im.ndim == 1 and im.dtype == np.float32
            self.im = im.reshape(self.h + self.size - 1, self.w + self.size - 1).copy()

        def windows(self, size):
            assert size == self.size
            w = np.lib.stride_tricks.sliding_window_view(self.im, (size, size)).reshape(self.h, self.w, -1)
            return np.sort(w, axis=2)[:, :, size * size // 2], self.im[size // 2:, size // 2:][:self.h, :self.w]

        def run2DFilter(self, size):
            self.res = self.windows(size)[0]

        def run2DRemoveOutliner(self, size, dif):
            m, im = self.windows(size)
            self.res = np.where(im - m >= dif, m, im)

        def retreive(self):
            res, self.res = self.res.ravel().copy(), None
            return res

    mod.mFilter = mFilter
    return mod, made


def one(c):
    if not c['op'].endswith('cuda') or c['i'] % 4 == 0:
        return case(c)                                 # no GPU: the CPU filters
    mod, made = device()
    sys.modules['tomocuda'] = mod
    try:
        return dict(case(c), images=len(made))
    finally:
        del sys.modules['tomocuda']


def case(c):
    op, i = c['op'], c['i']
    k = (op, i, 'big') if c.get('big') else (op, i)
    r, rs = vt.rng('rank', *k), vt.nprng('rank', *k)
    three = op.endswith('3d')
    big = c.get('big')          # a large array, of which some voxels are judged
    sh = [r.randint(1, 4 if three else 5), r.randint(1, 5), r.randint(1, 6)]
    if big:
        sh = [r.choice([1, 2, 9, 18, 33]), r.choice([5, 17, 40, 65]), r.choice([3, 11, 34, 70, 129])]
        r.shuffle(sh)
        if op == 'remove_outlier1d' and r.random() < .5:
            sh = [r.choice([2, 3, 18]) for _ in sh]      # long in the direction of the window
            sh[0 if i % 3 == 0 else i % 3] = r.choice([66, 100, 140, 300])
    a = data(r, rs, sh)
    rec = dict(op=op, a=vt.arr3(a), outcome='ok', out=vt.NONE, dtype='', wantdtype='float32')
    signed = op == 'sobel_filter' or r.random() < 0.5
    dts = vt.INTDT
    if signed and a.min() >= 0:
        a = a - (a.max() // 3)
        dts = ('float32', 'float32', 'float64', 'int16', 'int32')
        rec['a'] = vt.arr3(a)
    elif r.random() < .3 and a.max() <= 65:
        a = a * 1000                                   # the upper half of 16 bit
        dts = ('float32', 'uint16', 'uint16', 'float64', '>u2', 'uint32')
        rec['a'] = vt.arr3(a)
    ncore = vt.ncores(r)
    size = r.choice([1, 2, 3, 3, 4, 5])
    if big:
        size = r.choice([3, 3, 4, 5, 5, 7] if three else [3, 5, 6, 7, 9, 11])
    dif2 = r.choice([1, 2, 3, 4, 7, 10, 40])
    axis = vt.pick_axis(r)
    top = {'uint8': 255, 'int16': 32767, 'uint16': 65535, '>u2': 65535}
    dts = [d for d in dts if a.max() <= top.get(d, 1e9)]
    x, how = vt.dress(a, r, dts)
    kw = {}
    if r.random() < 0.8:
        kw['ncore'] = ncore
    rec.update(input=how, ncore=-1 if ncore is None else ncore)
    f = getattr(tomopy, op)
    outarg = None
    if op in ('median_filter', 'sobel_filter', 'median_filter_cuda'):
        if op == 'median_filter_cuda':
            kw = {}
        rec.update(axis=axis, size=size)
        if op == 'sobel_filter':
            got, v = vt.call(f, x, axis=axis, **kw)
        else:
            got, v = vt.call(f, x, size, axis, **kw)
    elif op in ('remove_outlier', 'remove_outlier_cuda'):
        w = [1 if d == axis % 3 else size for d in range(3)]
        if op == 'remove_outlier_cuda':
            kw = {}
        elif r.random() < 0.4:
            om = r.choice(['new', 'same'])
            if om == 'same' and x.dtype == np.float32:
                outarg = x
            else:
                outarg = np.full(sh, 99, 'float32', order=r.choice('CF'))
            kw['out'] = outarg
        rec.update(axis=axis, size=size, dif2=dif2, w=w)
        got, v = vt.call(f, x, dif2 / 2.0, size, axis, **kw)
    elif op == 'remove_outlier1d':
        axis = i % 3 if big else axis % 3
        if r.random() < 0.4:
            outarg = x if (r.random() < .5 and x.dtype == np.float32) else np.full(sh, 99, 'float32')
            kw['out'] = outarg
        rec.update(axis=axis, size=size, dif2=dif2)
        got, v = vt.call(f, x, dif2 / 2.0, size, axis, **kw)
    elif op == 'median_filter3d':
        rec.update(size=size)
        rec['wantdtype'] = 'uint16' if x.dtype == np.uint16 else 'float32'
        got, v = vt.call(f, x, size, **kw)
    elif op == 'remove_outlier3d':
        dif2 = r.choice([0, dif2, dif2, dif2])
        rec.update(size=size, dif2=dif2)
        rec['wantdtype'] = 'uint16' if x.dtype == np.uint16 else 'float32'
        got, v = vt.call(f, x, dif2 / 2.0, size, **kw)
    else:
        size = r.choice([3, 4, 5, 7] if big else [1, 2, 3, 3, 4, 5, 6, 7])
        x, how = vt.dress(a, r, ('float32', 'float64', '>f4'))
        m = rs.rand(*sh) < r.choice([.05, .1] if big else [.05, .3, .6])
        x[m] = rs.choice([np.nan, np.inf, -np.inf], m.sum())
        rec.update(size=size, a=vt.arr3(x), wantdtype=str(x.dtype), input=how)
        got, v = vt.call(f, x, size)
        if got == 'ok':
            v = (v * 2).astype(v.dtype)
    rec['outcome'] = got
    if got == 'ok':
        if outarg is not None and v is not outarg:
            rec['outcome'] = 'does not return out'
        rec.update(out=vt.arr3(v), dtype=str(v.dtype))
        if big:
            rec.update(boxes=boxes(r, rec['a'], rec['out'], size // 2 + 1, ncore))
    else:
        rec['error'] = v[:200]
    if big:
        for k in ('a', 'out'):
            rec[k] = dict(sh=rec[k]['sh'], v=[])
    return rec


def boxes(r, a, o, h, ncore):
    """boxes around some voxels: what lies in it, what the call gave there, and where the voxel is"""
    sh = a['sh']
    if o['sh'] != sh:
        return []
    A, O, out = np.reshape(a['v'], sh), np.reshape(o['v'], sh), []
    cut = ncore or 8
    for b in range(18):
        x = [(n * r.randint(1, max(1, cut - 1)) // cut - r.randint(0, 1)) % n if b % 2 else r.choice([0, 1, h, n - 1, n - 2, n - h, r.randrange(n), r.randrange(n)]) % n for n in sh]
        lo = [max(0, p - h) if p + h < n else max(0, min(p - h, n - 1 - 2 * h)) for p, n in zip(x, sh)]
        hi = [min(n, max(p + h + 1, 2 * h + 1)) for p, n in zip(x, sh)]
        b = tuple(slice(l, u) for l, u in zip(lo, hi))
        out.append(dict(a=vt.arr3(A[b]), at=[p - l for p, l in zip(x, lo)], out=int(O[tuple(x)])))
    return out


def main():
    scale = 40 if vt.THOROUGH else 9
    cs = [dict(op=o, i=i) for o in OPS for i in range(W[o] * scale)]
    cs += [dict(op=o, i=i, big=1) for o in OPS for i in range(2 * scale if o == 'remove_outlier1d' else scale)]
    vt.rng('order').shuffle(cs)

    def fail(c, how):
        return dict(c, outcome=how)

    vt.write_trace(vt.run_cases(cs, one, on_fail=fail))


main()
