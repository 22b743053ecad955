"""project*, recon with the iterative algorithms and vector* on small problems."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import geom
import numpy as np
import tomopy

KIND = os.environ['RKIND']
TOL = {'art': 1500, 'fbp': 300, 'tv': 1500, 'grad': 2000, 'tikh': 2000}


def centres(c, r, nx, ny, dx, nt, ns):
    """(theta, centre per slice, centre argument)"""
    while True:
        if c['centre'] == 'none':
            cs = np.full(1, dx / 2.0, np.float32)
            th, tries = [], 0
            while len(th) < nt and tries < 200:
                t = geom.angle(r)
                tries += 1
                if geom.clear(nx, ny, [float(t)], dx, float(cs[0])):
                    th.append(t)
            if len(th) < nt:
                return None
            return np.array(th, np.float32), np.repeat(cs, ns), None
        th, cs = geom.choose(r, nx, ny, dx, nt, ns if c['centre'] == 'each' else 1)
        if c['centre'] == 'each':
            return th, cs, cs
        arg = r.choice([float(cs[0]), cs[0], [float(cs[0])], np.repeat(cs, ns)])
        return th, np.repeat(cs, ns), arg


def grid(c, r, lo=3, hi=6):
    a, b = r.randint(lo, hi), r.randint(lo, hi)
    if c['grid'] == 'square':
        return a, a
    if a == b:
        b = a + 1
    a, b = min(a, b), max(a, b)
    return (a, b) if c['grid'] == 'wide' else (b, a)


def flat(a):
    return vt.dbl(np.asarray(a).reshape(a.shape[0], -1))


def workers(r):
    kw = {}
    if r.random() < .5:
        kw['ncore'] = r.choice([1, 2, 3])
    if r.random() < .4:
        kw['nchunk'] = r.choice([1, 2, 5])
    return kw


def do_recon(c, r, rs):
    ns, alg = c['slices'], c['alg']
    nt = r.randint(3, 6) if c['nb'] == 1 else r.randint(max(3, c['nb']), 7)
    for _ in range(50):
        dx = r.randint(4, 8) if c['n'] < 7 else r.randint(3, 4) if c['n'] < 16 else 3
        nx, ny = (dx, dx) if c['grid'] == 'default' else grid(c, r, *((3, 6) if c['n'] < 7 else (2, 4) if c['n'] < 16 else (2, 3)))
        g = centres(c, r, nx, ny, dx, nt, ns)
        if g is not None:
            break
    else:
        return None
    th, cs, carg = g
    # data that is of the size of a projection of values around one
    sino = np.zeros((ns, nt, dx))
    for s in range(ns):
        for p in range(nt):
            for d in range(dx):
                pos, _ = geom.raypos(dx, float(cs[s]), d)
                sino[s, p, d] = geom.chord(nx, ny, float(th[p]), pos) * rs.uniform(.4, 1.6)
    if r.random() < .15:       # rays, or a whole slice, that nothing was seen on
        if r.random() < .4:
            if alg not in ('grad', 'tikh') or not c['init']:      # there are only rounding errors at the end
                sino[r.randrange(ns)] = 0
        else:
            sino[rs.rand(*sino.shape) < r.choice([.2, .5, .8])] = 0
    sino = sino.astype(np.float32)
    data = sino if c['sino'] else np.ascontiguousarray(sino.swapaxes(0, 1))
    kw = workers(r)
    if c['grid'] != 'default':
        kw.update(num_gridx=nx, num_gridy=ny)
    rec = dict(op='recon', alg=alg, nx=nx, ny=ny, dx=dx, ns=ns, n=c['n'], nb=c['nb'], sino=c['sino'], ord=[], reg=[],
               regdata=[], tol=TOL.get(alg, 500), centre=vt.dbl(cs), theta=vt.dbl(th), data=vt.dbl(data))
    if alg != 'fbp' and (c['n'] > 1 or r.random() < .5):
        kw['num_iter'] = c['n']
    if c['nb'] > 1:
        kw['num_block'] = c['nb']
        o = list(range(nt))
        if c['order'] == 'shuffled':
            r.shuffle(o)
            kw['ind_block'] = r.choice([o, np.array(o), np.array(o, np.int32)])
        rec['ord'] = o
    if 'pml' in alg or alg in ('tv', 'grad', 'tikh'):
        two = 'hybrid' in alg or alg == 'tikh'
        if alg == 'grad':
            reg = [r.choice([-1., .5, .1])]
        elif alg == 'tikh':
            reg = [r.choice([-1., .3, .1]), r.choice([0., .1, 1.])]
        elif alg == 'tv':
            reg = [r.choice([.01, .1, 1., 10.])]
        else:
            reg = [r.choice([.1, 1., 3.])] + ([r.choice([.1, .5, 2.])] if two else [])
        if alg in ('grad', 'tikh', 'tv') or r.random() < .8:
            kw['reg_par'] = r.choice([reg, np.array(reg, np.float32)] + ([] if two else [reg[0]]))
            reg = [float(np.float32(x)) for x in reg]
        else:
            reg = [1., 1.]
        rec['reg'] = vt.dbl(reg)
        if alg == 'tikh' and r.random() < .6:
            rd = rs.uniform(.2, 2., (ns, nx, ny)).astype(np.float32)
            kw['reg_data'] = rd
            rec['regdata'] = flat(rd)
    if c['init']:
        init = rs.uniform(.2, 2., (ns, nx, ny)).astype(np.float32)
        kw['init_recon'] = init.copy() if r.random() < .5 else init.astype(np.float64)
    else:
        init = np.full((ns, nx, ny), 1e-6, np.float32)
    rec['init'] = flat(init)
    got, v = vt.call(tomopy.recon, data, th.copy(), center=carg, algorithm=alg, sinogram_order=c['sino'], **kw)
    rec['outcome'] = got
    if got == 'ok':
        if v.shape != (ns, nx, ny):
            rec['outcome'] = 'shape'
            rec['shape'] = list(v.shape)
        else:
            rec.update(out=flat(v), dtype=str(v.dtype))
    else:
        rec['error'] = v[:300]
    return rec


def width(nx, ny):
    return int(np.ceil((np.sqrt(nx * nx + ny * ny) + 2) / 2.) * 2)


def do_project(c, r, rs):
    op = c['op']
    ns = c['slices']
    nt = r.randint(1, 6)
    pad = c['n'] != 2 if op != 'project3' else True
    for _ in range(60):
        nx, ny = grid(c, r)
        if op == 'project3' and c['n']:
            ny = nx
            ns = nx
        dx = width(nx, ny) if pad else nx
        g = centres(c, r, nx, ny, dx, nt, ns)
        if g is not None:
            break
    else:
        return None
    th, cs, carg = g
    if carg is not None and c['centre'] == 'one' and np.size(carg) > 1 and len(carg) != ns:
        carg = float(cs[0])
    vols = [rs.uniform(-1, 2, (ns, nx, ny)).astype(np.float32) for _ in range(3)]
    kw = {}
    if carg is not None:
        kw['center'] = carg
    if c['init']:
        kw['emission'] = False
    if not pad or r.random() < .5:
        kw['pad'] = pad
    if c['sino'] or r.random() < .5:
        kw['sinogram_order'] = c['sino']
    kw.update(workers(r))
    rec = dict(op=op, nx=nx, ny=ny, dx=dx, ns=ns, pad=pad, sino=c['sino'], emission=not c['init'],
               centre=vt.dbl(cs), theta=vt.dbl(th), axis=0)
    if op == 'project':
        rec['obj'] = flat(vols[0])
        got, v = vt.call(tomopy.project, vols[0], th.copy(), **kw)
    elif op == 'project2':
        rec.update(objx=flat(vols[0]), objy=flat(vols[1]))
        got, v = vt.call(tomopy.project2, vols[0], vols[1], th.copy(), **kw)
    else:
        rec.update(objx=flat(vols[0]), objy=flat(vols[1]), objz=flat(vols[2]), axis=c['n'])
        if c['n'] or r.random() < .5:
            kw['axis'] = c['n']
        got, v = vt.call(tomopy.project3, vols[0], vols[1], vols[2], th.copy(), **kw)
    rec['outcome'] = got
    if got == 'ok':
        if v.ndim == 3 and str(v.dtype) == 'float32':
            rec['out'] = vt.dbl(v)
        else:
            rec.update(outcome='shape', shape=list(v.shape))
    else:
        rec['error'] = v[:300]
    return rec


def do_vector(c, r, rs):
    op = c['op']
    sets = {'vector': 1, 'vector2': 2, 'vector3': 3}[op]
    axes = {'vector': [0], 'vector2': [1, 2], 'vector3': [0, 1, 2]}[op]
    for _ in range(60):
        n = r.randint(3, 5) if c['n'] < 5 else 3
        ns = n if sets > 1 else c['slices']
        nt = r.randint(2, 5)
        gs = [centres(c, r, n, n, n, nt, ns) for _ in range(sets)]
        if all(g is not None for g in gs):
            break
    else:
        return None
    datas, args = [], {}
    for k, (th, cs, carg) in enumerate(gs):
        d = np.zeros((nt, ns, n))
        for s in range(ns):
            for p in range(nt):
                for x in range(n):
                    pos, _ = geom.raypos(n, float(cs[s]), x)
                    d[p, s, x] = geom.chord(n, n, float(th[p]), pos) * rs.uniform(-1.5, 1.5)
        datas.append(d.astype(np.float32))
        if carg is not None:
            args['center' + ('' if sets == 1 else str(k + 1))] = cs.copy() if np.size(carg) > 1 else carg
    if c['n'] > 1 or r.random() < .5:
        args['num_iter'] = c['n']
    if sets > 1 and r.random() < .6:
        axes = [r.randrange(3) for _ in axes]
        args.update(('axis%d' % (k + 1), a) for k, a in enumerate(axes))
    rec = dict(op=op, nx=n, ny=n, dx=n, ns=ns, n=c['n'], axes=axes, tol=600, thetas=[vt.dbl(g[0]) for g in gs],
               centres=[vt.dbl(g[1]) for g in gs], datas=[vt.dbl(d) for d in datas])
    got, v = vt.call(getattr(tomopy, op), *(datas + [g[0].copy() for g in gs]), **args)
    rec['outcome'] = got
    if got == 'ok':
        rec['out'] = [flat(x) for x in v]
    else:
        rec['error'] = v[:300]
    return rec


def one(c):
    key = [c[k] for k in sorted(c)]
    r, rs = vt.rng('recon', *key), vt.nprng('reconn', *key)
    f = {'recon': do_recon, 'project': do_project, 'vector': do_vector}[KIND]
    rec = f(c, r, rs)
    return rec if rec is not None else dict(skip=True)


def main():
    allc = vt.cases()
    r = vt.rng('pick', KIND)
    r.shuffle(allc)
    per = int(os.environ.get('RPER', '30'))
    reps = int(os.environ.get('RREPS', '1'))
    groups = {}
    for c in allc:
        groups.setdefault((c['op'], c['alg']), []).append(c)
    cs = []
    for k in sorted(groups):
        g = groups[k]
        if vt.THOROUGH:
            cs += [dict(c, rep=i) for i in range(2 * reps) for c in g]
        else:
            cs += [dict(g[i % len(g)], rep=i // len(g)) for i in range(per)]
    r.shuffle(cs)
    recs = vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how))
    vt.write_trace([x for x in recs if not x.get('skip')])


main()
