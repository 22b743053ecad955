"""Calls of the public functions as enumerated by GenContract (CMODE = alone | layout | keep)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import catalogue

MODE = os.environ['CMODE']
GROUPS = os.environ.get('CGROUPS', '').split(',')
PROJ = {'project', 'project_sino', 'project2', 'project3', 'project3_volume', 'vector', 'vector2', 'vector3'} | set(catalogue.ALGS)


def alone(c):
    """every slice of the call equals the call on that slice alone, and a permutation of the
    slices permutes the result"""
    key = (c['fn'], c['n'], c['ncore'], c['nchunk'], c['rep'])
    call = catalogue.make(c['fn'], vt.rng('mk', *key), vt.nprng('mk', *key), c['n'])
    par = {}
    if c['ncore'] != -1:
        par['ncore'] = c['ncore']
    if c['nchunk'] != -1:
        par['nchunk'] = c['nchunk']
    rec = dict(c, kind='alone', devs=[], perm=[])
    got, v = vt.call(call, {k: a.copy() for k, a in call.arrays.items()}, **par)
    rec['outcome'] = got
    if got != 'ok':
        rec['error'] = v[:200]
        return rec
    v = np.array(v)
    rec['dtype'], rec['rank'] = str(v.dtype), v.ndim
    one = dict(ncore=1) if c['par'] != 'none' else {}
    if c['ax'] == -1:
        g, ref = vt.call(call, {k: a.copy() for k, a in call.arrays.items()}, **one)
        rec['devs'] = [vt.dev(v, ref)] if g == 'ok' else [vt.BIG]
        return rec
    oax = call.axis if c['oax'] == 9 else c['oax']
    if v.ndim <= oax or v.shape[oax] != c['n']:
        rec['devs'] = [vt.BIG]
        return rec
    for s in range(c['n']):
        g, ref = vt.call(call, call.select([s]), **one)
        if g != 'ok' or np.ndim(ref) != v.ndim:
            rec['devs'].append(vt.BIG)
            rec['error'] = 'slice alone: ' + str(ref)[:100]
        else:
            rec['devs'].append(vt.dev(np.take(v, s, oax), np.take(ref, 0, oax)))
    if c['n'] > 1:
        p = vt.nprng('perm', *key).permutation(c['n'])
        g, ref = vt.call(call, call.select(p), **par)
        rec['perm'] = [vt.BIG] * c['n'] if g != 'ok' or np.shape(ref) != v.shape else \
            [vt.dev(np.take(v, int(p[s]), oax), np.take(ref, s, oax)) for s in range(c['n'])]
    return rec


def wrap(a, lay):
    if lay == 'H' and a.dtype != np.float32:
        lay = 'O'
    return vt.layout(a, lay)


def layout(c):
    """the same values in another dtype and memory layout give the same result"""
    key = (c['fn'], c['lay'], c['dt'], c['rep'])
    r = vt.rng('mk', *key)
    integer = np.dtype(c['dt']).kind in 'iu' or c['dt'] == 'float16'
    call = catalogue.make(c['fn'], r, vt.nprng('mk', *key), r.choice([1, 2, 3, 5]), integer=integer)
    rec = dict(c, kind='layout', devs=[])
    g0, ref = vt.call(call, {k: np.array(a, order='C') for k, a in call.arrays.items()})
    A = {}
    for k, a in call.arrays.items():
        b = np.array(a, order='C')
        if k == call.main or k in ('oy', 'oz', 't1', 't2', 'flat', 'dark'):
            b = b.astype(c['dt'])
        if k in ('theta', 'center') and c['dt'] == 'float64':
            b = b.astype('float64')
        A[k] = wrap(b, c['lay'])
    snap = {k: np.array(a) for k, a in A.items()}
    g1, v = vt.call(call, A)
    rec['outcome'] = g1
    rec['plain'] = g0
    if g1 == 'ok' and g0 == 'ok':
        rec['devs'] = [vt.dev(np.array(v), np.array(ref))]
        rec['dtype'] = str(np.asarray(v).dtype)
    else:
        rec['error'] = str(v if g1 != 'ok' else ref)[:200]
    return rec


def keep(c):
    """what a call does to its arguments, and what out= does"""
    key = (c['fn'], c['lay'], c['dt'], c['out'], c['rep'])
    r = vt.rng('mk', *key)
    call = catalogue.make(c['fn'], r, vt.nprng('mk', *key), r.choice([1, 2, 3, 5]))
    rec = dict(c, kind='keep', devs=[], changed=[], isout=True)
    g0, ref = vt.call(call, {k: np.array(a, order='C') for k, a in call.arrays.items()})
    A = {}
    for k, a in call.arrays.items():
        b = np.array(a, order='C')
        if k == call.main:
            b = b.astype(c['dt'])
        A[k] = wrap(b, c['lay'])
    base = {k: (a.base if a.base is not None and isinstance(a.base, np.ndarray) else a) for k, a in A.items()}
    snap = {k: np.array(a) for k, a in A.items()}
    bsnap = {k: np.array(b) for k, b in base.items()}
    par = {}
    out = None
    if c['out'] != 'none' and g0 == 'ok':
        if c['out'] == 'new':
            out = np.full(np.shape(ref), -7, np.asarray(ref).dtype)
        elif c['out'] == 'same':
            out = A[call.main]
        else:
            big = np.full([s + 2 for s in np.shape(ref)], -7, np.asarray(ref).dtype)
            out = big[tuple(slice(1, 1 + s) for s in np.shape(ref))]
        par['out'] = out
    if r.random() < .5 and c['par'] != 'none':
        par['ncore'] = r.choice([1, 1, 2, 8])
        if c['par'] == 'both':
            par['nchunk'] = r.choice([1, 2, 50, None])
    g1, v = vt.call(call, A, **par)
    rec['outcome'], rec['plain'] = g1, g0
    if g1 == 'ok' and g0 == 'ok':
        rec['devs'] = [vt.dev(np.array(v), np.array(ref))]
        rec['dtype'] = str(np.asarray(v).dtype)
        if out is not None:
            rec['isout'] = bool(v is out) or bool(np.array_equal(out, v, equal_nan=True))
            rec['devs'].append(vt.dev(np.array(out), np.array(ref)))
            if c['out'] == 'strided':
                big[tuple(slice(1, 1 + s) for s in np.shape(ref))] = -7
                rec['changed'] += ['around out'] if not (big == -7).all() else []
    else:
        rec['error'] = str(v if g1 != 'ok' else ref)[:200]
    for k in sorted(A):
        if c['out'] == 'same' and k == call.main:
            continue
        if not np.array_equal(A[k], snap[k], equal_nan=A[k].dtype.kind == 'f'):
            rec['changed'].append('main' if k == call.main else k)
        elif not np.array_equal(base[k], bsnap[k], equal_nan=base[k].dtype.kind == 'f'):
            rec['changed'].append('around ' + k)
    return rec


def main():
    cs = vt.cases()
    r = vt.rng('contract', MODE, os.environ.get('CGROUPS', ''))
    # PROJ functions belong to C02, the rest to C01
    if 'proj' in GROUPS:
        cs = [c for c in cs if c['fn'] in PROJ]
    elif 'rest' in GROUPS:
        cs = [c for c in cs if c['fn'] not in PROJ]
    by = {}
    for c in cs:
        by.setdefault(c['fn'], []).append(c)
    per = int(os.environ.get('CPER', '10')) * (12 if vt.THOROUGH else 1)
    todo = []
    for fn in sorted(by):
        l = sorted(by[fn], key=lambda c: str(sorted(c.items())))
        r.shuffle(l)
        while len(l) < per:
            l = l + [dict(c, rep=c.get('rep', 0) + 1) for c in l]
        todo += [dict(c, rep=c.get('rep', 0)) for c in l[:per]]
    r.shuffle(todo)
    f = dict(alone=alone, layout=layout, keep=keep)[MODE]
    vt.write_trace(vt.run_cases(todo, f, timeout=60, on_fail=lambda c, how: dict(c, kind=MODE, outcome=how)))


main()
