"""Stripe removal on small sinograms of distinct values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import pywt
from tomopy.prep import stripe as S

OPS = ['sf', 'sorting', 'filtering', 'large', 'dead', 'all', 'interpolation', 'fitting', 'ti', 'fw']


def sinogram(r, rs, n, w, kind):
    """positive values, multiples of 1/16, distinct within a column"""
    x = np.arange(w)
    base = 300 + 40 * np.sin(x[None, :] / 3. + np.arange(n)[:, None] / 4. + rs.rand() * 6) + 120 * rs.rand(n, w) * r.choice([.2, 1])
    if kind == 'stripes':
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(w)
            d = r.choice([1, 1, 2])
            what = r.choice(['gain', 'gain', 'dead', 'noisy', 'drop'])
            if what == 'gain':
                base[:, k:k + d] *= r.choice([1.5, .6, 3])
            elif what == 'dead':
                base[:, k:k + d] = 250 + .5 * rs.rand(n, base[:, k:k + d].shape[1])
            elif what == 'noisy':
                base[:, k:k + d] = 100 + 700 * rs.rand(n, base[:, k:k + d].shape[1])
            else:
                base[n // 3:, k:k + d] *= .5
    a = np.rint(base * 16).astype(int)
    for k in range(w):                       # distinct values
        col = a[:, k]
        o = np.argsort(col, kind='stable')
        for i in range(1, n):
            if col[o[i]] <= col[o[i - 1]]:
                col[o[i]] = col[o[i - 1]] + 1
    return a / 16.


def one(c):
    op, i = c['op'], c['i']
    r, rs = vt.rng('str', op, i), vt.nprng('str', op, i)
    n = r.randint(4, 14)
    w = r.randint(5, 14)
    ns = r.choice([1, 2, 3])
    if op == 'fw':
        n, w = r.randint(2, 12), r.randint(2, 12)
        ns = r.choice([1, 2])
        if i % 12 == 5:
            n, w, ns = r.randint(2, 4), r.randint(2, 4), r.randint(5, 9)      # more sinograms than rows or columns
    if op == 'filtering':
        n = r.randint(4, 22)
    if op in ('sf', 'sorting', 'ti'):
        w = r.randint(3, 12)
    if op in ('sorting', 'filtering') and i % 40 == 7:
        n, w, ns = r.choice([2, 3, 4]), [2100, 610, 750, 2000, 590][i // 40 % 5], 1      # sizes by default
    kind = r.choice(['stripes', 'stripes', 'plain'])
    a = np.stack([sinogram(r, rs, n, w, kind) for _ in range(ns)], 1)
    if r.random() < .3:
        a = a * 2. ** r.choice([-10, -6, 3])
    if op in ('sf', 'sorting', 'filtering') and r.random() < .3:
        a = a - np.round(a.mean())
    if op in ('ti', 'sf') and r.random() < .2:
        a[:] = a[:1, :1]                     # nothing changes with the angle
        if r.random() < .5:
            a[:] = a[0, 0, 0]
    if op == 'ti' and r.random() < .2:
        a[rs.rand(*a.shape) < .1] = np.nan
    x, how = vt.dress(a, r, ('float32', 'float32', 'float32', 'float64'))
    kw = {}
    if r.random() < .7:
        kw['ncore'] = vt.ncores(r)
    if r.random() < .4:
        kw['nchunk'] = r.choice([None, 1, 2, 3])
    rec = dict(op=op, input=how, want=list(a.shape), sinos=[vt.dbl(a[:, k]) for k in range(ns)])
    snr = r.choice([3, 3, 2, 1.5, 1.25, 5])
    drop = r.choice([d for d in (0, 10, 10, 33, 47, 79, 95) if d == 0 or (min(d, 80) * n) % 200])
    if op == 'sf':
        rec['size'] = kw['size'] = r.choice([1, 2, 3, 4, 5, 7, 20])
        if r.random() < .2:
            rec['size'] = 5
            del kw['size']
        f = S.remove_stripe_sf
    elif op in ('sorting', 'filtering'):
        rec['size'], rec['dim'] = r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2])
        if w > 500:
            rec['size'] = 21 if w > 2000 else max(5, w // 100)
            rec['dim'] = 1
        elif r.random() < .3:
            rec['size'] = 5                  # the default for fewer than 600 columns
        else:
            kw['size'] = rec['size']
        if rec['dim'] == 2 or r.random() < .5:
            kw['dim'] = rec['dim']
        f = S.remove_stripe_based_sorting
        if op == 'filtering':
            f = S.remove_stripe_based_filtering
            sg = r.choice([3, 3, 1, 2.5, 6])
            rec['sigma'] = vt.dbl(sg)
            if sg != 3 or r.random() < .5:
                kw['sigma'] = sg
    elif op in ('large', 'interpolation'):
        rec.update(size=r.choice([3, 5, 6, 9, 31]), drop=min(drop, 80), norm=r.random() < .5, snr=vt.dbl(snr))
        kw.update(size=rec['size'], drop_ratio=drop / 100., norm=rec['norm'], snr=snr)
        if rec['drop'] == 10 and r.random() < .5:
            del kw['drop_ratio']
        if rec['norm'] and r.random() < .5:
            del kw['norm']
        f = S.remove_large_stripe if op == 'large' else S.remove_stripe_based_interpolation
    elif op in ('dead', 'all'):
        rec.update(size=r.choice([3, 5, 6, 9, 31]), snr=vt.dbl(snr))
        if op == 'dead':
            rec['norm'] = kw['norm'] = r.random() < .5
            kw.update(size=rec['size'], snr=snr)
            f = S.remove_dead_stripe
        else:
            rec.update(small=r.choice([1, 3, 4, 5, 7]), dim=r.choice([1, 2]))
            kw.update(la_size=rec['size'], sm_size=rec['small'], dim=rec['dim'], snr=snr)
            f = S.remove_all_stripe
    elif op == 'fitting':
        sg = (r.choice([5, 2.5, 8]), r.choice([20, 6, 3]))
        rec.update(order=r.choice([1, 2, 3, 4, 5, 3]), sx=vt.dbl(sg[0]), sy=vt.dbl(sg[1]))
        kw.update(order=rec['order'], sigma=sg)
        f = S.remove_stripe_based_fitting
    elif op == 'ti':
        al = r.choice([1.5, 0, .5, 3])
        rec.update(nblock=r.choice([0, 0, 1, 2, 3, n]), alpha=vt.dbl(al))
        kw.update(nblock=rec['nblock'], alpha=al)
        f = S.remove_stripe_ti
    else:
        wn = r.choice(['haar', 'db2', 'db5', 'sym5', 'db3'])
        sg = r.choice([2, 1, .5, 4])
        lv = r.choice([1, 2, 3, None]) if i % 12 != 5 else None
        rec.update(lo=vt.dbl(np.array(pywt.Wavelet(wn).dec_lo)), sigma=vt.dbl(sg), pad=r.random() < .6)
        rec['level'] = lv or int(np.ceil(np.log2(max(a.shape))))
        kw.update(wname=wn, sigma=sg, pad=rec['pad'])
        if lv:
            kw['level'] = lv
        f = S.remove_stripe_fw
    got, v = vt.call(f, x, **kw)
    rec['outcome'] = got
    rec['call'] = repr(kw)
    if got == 'ok':
        rec.update(shape=list(v.shape), dtype=str(v.dtype), out=[])
        if v.shape == a.shape:
            rec['out'] = [vt.dbl(v[:, k]) for k in range(ns)]
    else:
        rec['error'] = v[:300]
    return rec


def main():
    k = int((900 if vt.THOROUGH else 150) * vt.FEW)
    ops = os.environ.get('SOPS', '').split(',') if os.environ.get('SOPS') else OPS
    cs = [dict(op=o, i=i) for o in ops for i in range(k)]
    vt.rng('order').shuffle(cs)
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
