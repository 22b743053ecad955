"""The requests enumerated by GenRequests, made to the real functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy
from tomopy.misc import corr
from tomopy.prep import stripe


def theta(n, r):
    return np.sort(np.array([r.uniform(0.02, 3.1) for _ in range(n)], np.float32))


def centre(c, n, r):
    if c == -1:
        return {}
    if c == 0:
        return dict(center=r.choice([2.5, np.float32(2.25), 2]))
    v = [2.0 + .25 * k for k in range(c)]
    return dict(center=np.array(v, np.float32) if r.random() < .5 else v)


def build(q, r, rs):
    """(call, the arrays that are given)"""
    def a(sh, dt='float32'):
        x = (.5 + rs.rand(*sh)).astype(dt)
        return vt.layout(x, r.choice(['C', 'C', 'F', 'O']))
    op = q['op']
    if op == 'recon':
        x, th = a(q['sh']), theta(q['nth'], r)
        kw = {}
        for k in q['kw']:
            n, v = k['k'], k['v']
            if n in ('num_gridx', 'num_gridy', 'num_iter', 'num_block'):
                kw[n] = v[0]
            elif n == 'ind_block':
                kw[n] = np.array(v, dtype=np.int64 if r.random() < .5 else np.float32)
            elif n == 'reg_par':
                kw[n] = np.full(v[0], .5, np.float32) if r.random() < .5 else [.5] * v[0]
            elif n in ('reg_data', 'init_recon'):
                kw[n] = a(v)
            elif n == 'filter_name':
                kw[n] = q['flt']
            elif n == 'filter_par':
                kw[n] = np.linspace(.3, .6, v[0]).astype(np.float32)
            else:
                kw[n] = v[0]
        if r.random() < .4:
            kw['ncore'] = r.choice([1, 2, 3])
        kw.update(centre(q['centre'], 0, r))
        if q['sino'] or r.random() < .5:
            kw['sinogram_order'] = q['sino']
        arrays = [x, th] + [v for v in kw.values() if isinstance(v, np.ndarray)]
        return lambda: tomopy.recon(x, th, algorithm=q['alg'], **kw), arrays
    if op in ('project', 'project2', 'project3'):
        xs, th = [a(s) for s in q['shs']], theta(q['nth'], r)
        kw = dict(pad=q['pad'], sinogram_order=q['sino'], **centre(q['centre'], 0, r))
        if op == 'project3':
            kw['axis'] = q['axis']
        elif op == 'project' and r.random() < .4:
            kw['ncore'] = r.choice([1, 2, 3])
        return lambda: getattr(tomopy, op)(*xs, th, **kw), xs + [th]
    if op in ('vector', 'vector2', 'vector3'):
        xs, ths = [a(s) for s in q['shs']], [theta(n, r) for n in q['nths']]
        kw = {}
        for k, c in enumerate(q['centres']):
            for v in centre(c, 0, r).values():
                kw['center' + ('' if op == 'vector' else str(k + 1))] = v
        if op != 'vector':
            for k, v in enumerate(q['axes']):
                kw['axis%d' % (k + 1)] = v
        return lambda: np.array(getattr(tomopy, op)(*xs, *ths, **kw)), xs + ths
    if op in ('normalize', 'normalize_nf'):
        x, f, d = a(q['sh']), a(q['flat']) + 2, a(q['dark'])
        kw = dict(averaging=q['avg'])
        if q['out']:
            kw['out'] = np.zeros(q['out'], np.float32)
        if op == 'normalize':
            return lambda: tomopy.normalize(x, f, d, **kw), [x, f, d]
        return lambda: tomopy.normalize_nf(x, f, d, list(q['locs']), **kw), [x, f, d]
    if op == 'normalize_bg':
        x = a(q['sh'])
        return lambda: tomopy.normalize_bg(x, air=q['air']), [x]
    if op in ('median_filter3d', 'remove_outlier3d'):
        x = a(q['sh'], r.choice(['float32', 'float32', 'uint16']))
        if op == 'median_filter3d':
            return lambda: tomopy.median_filter3d(x, q['size']), [x]
        return lambda: tomopy.remove_outlier3d(x, .25, q['size']), [x]
    if op == 'stripes_detect3d':
        x = a(q['sh'])
        return lambda: stripe.stripes_detect3d(x, q['size'], q['radius']), [x]
    if op == 'stripes_mask3d':
        x = a(q['sh'])
        return lambda: stripe.stripes_mask3d(x, .6, q['len'], q['depth'], q['width'], q['perc']), [x]
    if op == 'inpainter_morph':
        x, m = a(q['sh']), (a(q['mask']) > 1.2).astype(q['mtype'])
        kw = {} if q['axis'] == 9 else dict(axis=q['axis'])
        return lambda: corr.inpainter_morph(x, m, q['size'], 1, q['type'], **kw), [x, m]
    if op == 'remove_ring':
        x = a(q['sh'])
        return lambda: tomopy.remove_ring(x, center_x=q['cx'], center_y=q['cy'], theta_min=q['tmin'],
                                          rwidth=q['rwidth'], int_mode=q['mode'], ncore=r.choice([1, 2])), [x]
    if op == 'pad':
        x = a(q['sh'], r.choice(['float32', 'int16', 'float64']))
        kw = {} if q['key'] == '' else {q['key']: 1}
        return lambda: tomopy.pad(x, q['axis'], q['npad'], q['mode'], **kw), [x]
    if op == 'sino_360_to_180':
        x = a(q['sh'])
        return lambda: tomopy.sino_360_to_180(x, q['overlap'], q['rotation']), [x]
    if op == 'sample':
        x = a(q['sh'])
        return lambda: (tomopy.upsample if q['up'] else tomopy.downsample)(x, q['level'], q['axis']), [x]
    if op == 'along':
        x = a(q['sh'])
        kw = dict(axis=q['axis'])
        if q['out']:
            kw['out'] = np.zeros(q['out'], np.float32)
        f = q['fn']
        given = [x.copy()] if f == 'circ_mask' else [x]
        arg = {'remove_outlier': (x, .25), 'remove_outlier1d': (x, .25)}.get(f, (x,))
        if f == 'circ_mask':    # works in place
            return lambda: tomopy.circ_mask(x.copy(), **kw), given
        if r.random() < .5:
            kw['ncore'] = r.choice([1, 2])
        return lambda: getattr(tomopy, f)(*arg, **kw), given
    if op == 'find_center':
        x, th = a(q['sh']), theta(q['nth'], r)
        return lambda: tomopy.find_center(x, th, ind=q['ind'], tol=2.), [x, th]
    if op == 'find_center_vo':
        x = a(q['sh'])
        return lambda: tomopy.find_center_vo(x, ind=q['ind'], smin=-3, smax=3, ncore=1), [x]
    if op == 'find_center_pc':
        x, y = a(q['sh']), a(q['sh2'])
        return lambda: tomopy.find_center_pc(x, y), [x, y]
    if op == 'remove_stripe_fw':
        x = a(q['sh'])
        return lambda: tomopy.remove_stripe_fw(x, wname=q['wname'], level=1, ncore=q['ncore']), [x]
    if op == 'shift_images':
        x, sx, sy = a(q['sh']), rs.randint(-1, 2, q['nsx']), rs.randint(-1, 2, q['nsy'])
        return lambda: tomopy.shift_images(x, sx, sy), [x, sx, sy]
    if op == 'calc_intensity':
        x, p = a(q['probe']), a(q['sh'])
        return lambda: tomopy.sim.propagate.calc_intensity(x, p, shift_x=1, shift_y=1, mode=q['mode']), [x, p]
    raise ValueError(op)


def one(q):
    key = [q['rep']] + [str(q[k]) for k in sorted(q)]
    r, rs = vt.rng('req', *key), vt.nprng('reqn', *key)
    req = {k: v for k, v in q.items() if k != 'rep'}
    f, arrays = build(q, r, rs)
    snap = [np.array(x) for x in arrays]
    rec = dict(op=q['op'], req=req, changed=[], shape=[])
    got, v = vt.call(f)
    rec['outcome'] = got
    if got == 'ok':
        rec['shape'] = list(np.shape(v))
    else:
        rec['error'] = v[:150]
    rec['changed'] = [k + 1 for k in range(len(arrays)) if not np.array_equal(arrays[k], snap[k])]
    return rec


def main():
    cs = vt.cases()
    r = vt.rng('requests')
    by = {}
    for c in cs:
        by.setdefault(c['op'], []).append(c)
    per = 320 if not vt.THOROUGH else 10 ** 9
    todo = []
    for op in sorted(by):
        l = sorted(by[op], key=lambda c: str(sorted(c.items())))
        r.shuffle(l)
        n = per * (6 if op == 'recon' else 1)
        todo += [dict(c, rep=0) for c in l[:n]]
        if vt.THOROUGH:
            todo += [dict(c, rep=1) for c in l]
    r.shuffle(todo)
    vt.write_trace(vt.run_cases(todo, one, timeout=60, on_fail=lambda c, how: dict(
        op=c['op'], req={k: v for k, v in c.items() if k != 'rep'}, changed=[], shape=[], outcome=how)))


main()
