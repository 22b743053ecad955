"""inpainter_morph on small images and volumes; exact zeros are missing values as well."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


def one(c):
    mode, i = c['mode'], c['i']
    r, rs = vt.rng('inp', mode, i), vt.nprng('inp', mode, i)
    kind = r.choice(['image', 'volume', 'volume', 'planes', 'planes'])
    if kind == 'image':
        sh = [r.randint(1, 9), r.randint(1, 9)]
    elif kind == 'volume':
        sh = [r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)]
    else:
        sh = [r.randint(1, 6), r.randint(1, 6), r.randint(1, 6)]
    a = np.rint(rs.rand(*sh) * 1000 + 10) / 8
    if r.random() < .3:
        a[rs.rand(*sh) < .3] = 0
    k = r.random()
    if k < .4:
        m = rs.rand(*sh) < r.choice([.1, .4, .8])
    elif k < .9:
        m = np.zeros(sh, bool)
        box = []
        for d in sh:
            lo = r.randrange(d)
            box.append(slice(lo, r.randint(lo + 1, d)))
        m[tuple(box)] = True
    else:
        m = np.full(sh, r.random() < .5)
    x, how = vt.dress(a, r, ('float32', 'float32', 'float64'))
    mm, how2 = vt.dress(m, r, ('bool',), ['C', 'F', 'T', 'S', 'O', 'N'])
    size = r.choice([1, 1, 2, 3] if kind != 'volume' else [1, 1, 2])
    it = r.choice([0, 0, 1, 1, 2, 3])
    kw = dict(size=size, iterations=it)
    if mode != 'random' or r.random() < .5:
        kw['inpainting_type'] = mode
    ax = None
    if kind == 'planes':
        kw['axis'] = ax = r.randrange(3)
    if r.random() < .6:
        kw['ncore'] = vt.ncores(r)
    rec = dict(op=kind, mode=mode, size=size, iterations=it, want=sh, input=how + ' ' + how2, call=repr(kw))
    keep = x.copy()
    got, v = vt.call(tomopy.inpainter_morph, x, mm, **kw)
    rec['outcome'] = got
    if got != 'ok':
        rec['error'] = v[:300]
        return rec
    rec.update(shape=list(v.shape), dtype=str(v.dtype), parts=[])
    if list(v.shape) == sh:
        def part(a, m, o):
            s = ([1] * 3 + list(a.shape))[-3:]
            return dict(a=dict(sh=s, v=vt.dbl(a.ravel())), mask=[bool(q) for q in m.ravel()], out=vt.dbl(o.ravel()))
        if ax is None:
            rec['parts'] = [part(a, m, v)]
        else:
            rec['parts'] = [part(np.take(a, q, ax), np.take(m, q, ax), np.take(v, q, ax)) for q in range(sh[ax])]
    return rec


def main():
    k = 600 if vt.THOROUGH else 250
    cs = [dict(mode=o, i=i) for o in ('mean', 'median', 'random') for i in range(k)]
    vt.rng('order').shuffle(cs)
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
