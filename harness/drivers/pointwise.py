"""remove_nan, remove_neg, adjust_range, circ_mask on integer data with NaN / inf."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


def one(c):
    op, i = c['op'], c['i']
    r, rs = vt.rng('pt', op, i), vt.nprng('pt', op, i)
    sh = [r.randint(1, 5), r.randint(1, 8), r.randint(1, 8)]
    if r.random() < .15 and op in ('remove_nan', 'remove_neg'):
        sh = [r.choice([100, 130]), 9, 9]        # more than one numexpr block
    a = rs.randint(-9, 30, sh)
    special = r.random() < (.4 if op == 'adjust_range' else .7)
    dts = ('float32', 'float32', 'float64') if special else ('float32', 'float32', 'float64', 'int32', 'int16')
    x, how = vt.dress(a, r, dts)
    if special:
        m = rs.rand(*sh) < .3
        x[m] = rs.choice([np.nan, np.nan, np.inf, -np.inf], m.sum())
    rec = dict(op=op, a=vt.arr3(x), input=how, wantdtype='float32')
    kw = {}
    if op != 'adjust_range' and r.random() < .6:
        kw['ncore'] = vt.ncores(r)
    val = r.choice([0, 0, 7, -3, 1000001, 1000003])
    pyval = {1000001: float('nan'), 1000003: float('-inf')}.get(val, val)
    if op in ('remove_nan', 'remove_neg'):
        if val or r.random() < .5:
            kw['val'] = pyval
        rec['val'] = val
        got, v = vt.call(getattr(tomopy, op), x, **kw)
    elif op == 'adjust_range':
        lo, hi = r.choice([None, -5, 0, 3, -100]), r.choice([None, 25, 10, 3, 100])
        rec.update(lo=2000000 if lo is None else lo, hi=2000000 if hi is None else hi, wantdtype=str(x.dtype))
        if lo is not None:
            kw['dmin'] = lo
        if hi is not None:
            kw['dmax'] = hi
        got, v = vt.call(tomopy.adjust_range, x, **kw)
    else:
        ax = vt.pick_axis(r)
        rat4 = r.choice([4, 4, 3, 2, 1, 5, 6])
        rec.update(axis=ax, rat4=rat4, val=val)
        if rat4 != 4 or r.random() < .5:
            kw['ratio'] = rat4 / 4.0
        if val or r.random() < .5:
            kw['val'] = pyval
        got, v = vt.call(tomopy.circ_mask, x, ax, **kw)
    rec['outcome'] = got
    if got == 'ok':
        rec.update(out=vt.arr3(v), dtype=str(v.dtype))
    else:
        rec['error'] = v[:200]
    return rec


def main():
    k = 600 if vt.THOROUGH else 110
    cs = [dict(op=o, i=i) for o in ('remove_nan', 'remove_neg', 'adjust_range', 'circ_mask') for i in range(k)]
    vt.rng('order').shuffle(cs)
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
