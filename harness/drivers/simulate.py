"""Angles, simulated artefacts, phantoms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy

OPS = ['angles', 'drift', 'zingers', 'pepper', 'gaussian', 'poisson', 'rings', 'phantom', 'phantom', 'shepp3d']
IMAGES = ['baboon', 'barbara', 'cameraman', 'checkerboard', 'lena', 'peppers', 'shepp2d']


def flat(a):
    return vt.dbl(np.asarray(a, dtype=np.float64).ravel())


def blocks(a, n=4):
    h, w = a.shape
    ys, xs = np.linspace(0, h, n + 1).round().astype(int), np.linspace(0, w, n + 1).round().astype(int)
    return [float(a[ys[i]:ys[i + 1], xs[j]:xs[j + 1]].mean()) for i in range(n) for j in range(n)]


def data(r, rs, dts=('float32', 'float32', 'float64')):
    sh = [r.randint(2, 12), r.randint(5, 11), r.randint(5, 11)]
    x = rs.uniform(1, 5, sh).astype(r.choice(dts))
    return sh, vt.layout(x, r.choice(vt.LAYOUTS))


def image(name, r):
    import skimage.io
    import tifffile
    f = getattr(tomopy, name)
    path = os.path.join(os.path.dirname(tomopy.__file__), 'data', name + '.tif')
    im = tifffile.imread(path)
    rec = dict(op='image', name=name, kept=True)
    size = r.choice([64, 100, (60, 100), (100, 72), 128, (513, 200)])
    dt = r.choice(['float32', 'float64', 'uint8', 'int32'])

    def run():
        return f(size=im.shape), f(size, dt) if r.random() < .5 else f(size=size, dtype=dt)
    rec['outcome'], v = vt.call(run)
    if rec['outcome'] != 'ok':
        return dict(rec, error=v)
    nat, res = v
    rec['native'] = flat(nat[0, ::37, ::41])
    rec['file'] = flat(im[::37, ::41])
    rec['shape'], rec['want'] = list(nat.shape) + list(res.shape), [1] + list(im.shape) + [1] + list(size if isinstance(size, tuple) else (size, size))
    rec['dtype'], rec['wantdtype'] = str(nat.dtype) + str(res.dtype), 'float32' + dt
    if dt == 'uint8':       # the spline may leave the range of the type
        res = f(size)
    rec['blocks'], rec['ref'] = flat(blocks(res[0])), flat(blocks(im.astype(float)))
    rec['within'] = vt.dbl(np.array(.05 * float(np.ptp(im.astype(float)))))
    return rec


def events(hit):
    """how many, in the first half of each axis, at neighbours along each axis"""
    return dict(count=int(hit.sum()), half=[int(np.take(hit, range(n // 2), ax).sum()) for ax, n in enumerate(hit.shape)],
                pairs=[int((np.take(hit, range(n - 1), ax) & np.take(hit, range(1, n), ax)).sum()) for ax, n in enumerate(hit.shape)])


def many(kind, r, rs):
    """random changes of many elements: sums over all of them"""
    sh = [2 * r.randint(40, 70) for _ in range(3)]
    np.random.seed(rs.randint(2 ** 31))
    m = tomopy.sim.project
    rec = dict(op='many', kind=kind, sh=sh, kept=True)
    x = vt.layout(rs.uniform(1, 5, sh).astype(r.choice(['float32', 'float64'])), r.choice(vt.LAYOUTS))
    before = np.array(x)
    if kind in ('zingers', 'pepper'):
        f = r.choice([1e-4, 3e-4, .002, .9998, .9995, .37])
        rec['f'] = vt.dbl(f)
        rec['outcome'], v = vt.call(lambda: m.add_zingers(x, f, 77.) if kind == 'zingers' else m.add_salt_pepper(x, f, 77.))
        if rec['outcome'] == 'ok':
            hit = v == 77
            rec.update(events(hit), kept=bool((v[~hit] == before[~hit]).all()))
        return rec
    if kind == 'poisson':
        lam = r.choice([.01, .3, 4., 60.])
        x = np.full(sh, lam)
        rec['lam'] = vt.dbl(lam)
        rec['outcome'], v = vt.call(lambda: m.add_poisson(x))
        z = v - lam if rec['outcome'] == 'ok' else None
    elif kind == 'gaussian':
        mean, std = r.choice([0., 2.]), r.choice([.5, 3.])
        x = np.array(x, dtype='float64')
        before = x.copy()
        rec['outcome'], v = vt.call(lambda: m.add_gaussian(x, mean, std))
        z = (v - before - mean) / std if rec['outcome'] == 'ok' else None
    else:
        std = r.choice([.05, .2])
        sh = [2] + [2 * r.randint(250, 350) for _ in range(2)]
        x = rs.uniform(1, 5, sh)
        rec['sh'] = [1] + sh[1:]
        rec['outcome'], v = vt.call(lambda: m.add_rings(x, std))
        z = (v[:1] / x[:1] - 1) / std if rec['outcome'] == 'ok' else None
    if rec['outcome'] == 'ok':
        rec['sums'] = [vt.dbl(float((z ** k).sum())) for k in (1, 2, 3, 4)]
        rec['next'] = [vt.dbl(float((np.take(z, range(n - 1), ax) * np.take(z, range(1, n), ax)).sum())) for ax, n in enumerate(z.shape)]
    return rec


def one(c):
    if c[0] == 'many':
        return many(c[1], vt.rng('many', *c), vt.nprng('manyn', *c))
    r, rs = vt.rng('simulate', *c), vt.nprng('simulaten', *c)
    op = c[0]
    if op == 'image':
        return image(c[1], r)
    np.random.seed(rs.randint(2 ** 31))
    rec = dict(op=op, kept=True)
    if op == 'angles':
        n, a, b = r.choice([1, 2, 3, 7, 18]), r.choice([0., -20., 10.5, 90]), r.choice([180., 360, 0, 33.25, -45])
        if r.random() < .3:
            a, b = 0., 180.
            f = lambda: tomopy.angles(n)
        else:
            f = lambda: tomopy.angles(n, a, b)
        rec.update(n=n, a=vt.dbl(a), b=vt.dbl(b))
        rec['outcome'], v = vt.call(f)
        return dict(rec, y=flat(v)) if rec['outcome'] == 'ok' else dict(rec, error=v)
    if op in ('phantom', 'shepp3d'):
        sh = [r.choice([1, 2, 5, 6, 7, 8, 9]) for _ in range(3)]
        if op == 'shepp3d' or r.random() < .3:
            sh = [r.randint(5, 11)] * 3
        size = tuple(sh)
        dt = r.choice(['float32', 'float32', 'float64'])
        if op == 'shepp3d':
            if r.random() < .3:
                size = tuple(sh[:2] + [r.randint(4, 12)])
            f = lambda: tomopy.shepp3d(sh[0] if size == tuple(sh) and r.random() < .6 else size, dtype=dt)
            es = []
        else:
            es = [dict(A=float(r.choice([1, -.5, 2.25, .1])), a=r.uniform(.2, 1.2), b=r.uniform(.2, 1.2), c=r.uniform(.2, 1.2),
                       x0=r.uniform(-.6, .6), y0=r.uniform(-.6, .6), z0=r.uniform(-.6, .6),
                       phi=float(r.choice([0, 90, -108, r.uniform(-180, 180)])), theta=float(r.choice([0, 90, r.uniform(-180, 180)])),
                       psi=float(r.choice([0, 90, r.uniform(-180, 180)]))) for _ in range(r.randint(0, 4))]
            f = lambda: tomopy.misc.phantom.phantom(size, es, dt)
        rec['outcome'], v = vt.call(f)
        rec.update(sh=list(size), es=[dict(A=vt.dbl(e['A']), axes=[vt.dbl(e[k]) for k in 'abc'], centre=[vt.dbl(e[k]) for k in ('x0', 'y0', 'z0')],
                                          phi=vt.dbl(e['phi']), theta=vt.dbl(e['theta']), psi=vt.dbl(e['psi'])) for e in es])
        if rec['outcome'] != 'ok':
            return dict(rec, error=v)
        rec['kept'] = v.shape == size and v.dtype == dt
        rec['y'] = flat(v)
        return rec
    sh, x = data(r, rs)
    if op == 'poisson':
        x = vt.layout((x * r.choice([8, 40, 300])).astype(x.dtype), r.choice(vt.LAYOUTS))
        if r.random() < .3:
            x[rs.rand(*sh) < .3] = 0
        if r.random() < .3:
            x = x.astype('uint16')
    before = np.array(x)
    rec.update(sh=sh, x=flat(before))
    if op == 'drift':
        amp, period, mean = r.choice([.2, 0., 1.5]), r.choice([50, 7., 3.3]), r.choice([1, .5, 2.])
        rec.update(amp=vt.dbl(amp), period=vt.dbl(period), mean=vt.dbl(mean))
        rec['outcome'], v = vt.call(lambda: tomopy.sim.project.add_drift(x, amp, period, mean))
    elif op == 'zingers':
        p, sat = r.choice([.01, .1, .3, .6, 1.]), r.choice([2 ** 16, 100., -1.])
        rec.update(f=vt.dbl(p), sat=vt.dbl(sat))
        rec['outcome'], v = vt.call(lambda: tomopy.sim.project.add_zingers(x, p, sat))
    elif op == 'pepper':
        p, val = r.choice([.01, .1, .3, .6, 1., 0.]), r.choice([None, 0., 40.])
        rec.update(f=vt.dbl(p), given=val is not None, val=vt.dbl(val or 0.))
        rec['outcome'], v = vt.call(lambda: tomopy.sim.project.add_salt_pepper(x, p, val))
        if val is None:     # the largest value itself counts as struck
            before.flat[np.argmax(before)] *= 1
    elif op == 'gaussian':
        mean, std = r.choice([0, 0, 3., -1.]), r.choice([None, 0., 1., .1, 20.])
        rec.update(mean=vt.dbl(mean), given=std is not None, std=vt.dbl(std or 0.))
        rec['outcome'], v = vt.call(lambda: tomopy.sim.project.add_gaussian(x, mean, std))
    elif op == 'poisson':
        rec['outcome'], v = vt.call(lambda: tomopy.sim.project.add_poisson(x))
    elif op == 'rings':
        std = r.choice([.05, .2, 0.])
        rec.update(std=vt.dbl(std))
        rec['outcome'], v = vt.call(lambda: tomopy.sim.project.add_rings(x, std))
    if rec['outcome'] != 'ok':
        return dict(rec, error=v)
    rec['y'] = flat(v)
    # noise is added in place by two functions, all others leave the data alone
    rec['kept'] = bool(v.shape == x.shape and np.array_equal(x, v if op in ('pepper', 'gaussian') else before))
    return rec


todo = [(op, i, k) for i, op in enumerate(OPS) for k in range(160 if vt.THOROUGH else 30)]
todo += [('image', n, k) for n in IMAGES for k in range(6 if vt.THOROUGH else 1)]
todo += [('many', op, k) for op in ('zingers', 'pepper', 'poisson', 'gaussian', 'rings') for k in range(60 if vt.THOROUGH else 8)]
vt.write_trace(vt.run_cases(todo, one, on_fail=lambda c, how: dict(op=c[0], outcome=how, kept=True)))
