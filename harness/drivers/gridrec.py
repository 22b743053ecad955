"""recon(algorithm='gridrec') on small sinograms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy

FILTERS = ['none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth', 'custom', 'custom2d']


def clear(t, n):
    """no point of the line is next to a line of the grid"""
    j = np.arange(1, n // 2)
    us = [j * np.cos(float(t)), j * np.sin(float(t))]
    # ... and none where the nearest sample of the window is undecided
    return t == 0 or all(np.abs(u - np.rint(u)).min() > 4e-5 and np.abs(u * 256 % 1 - .5).min() > 2e-3 for u in us)


def one(c):
    i = c['i']
    r, rs = vt.rng('gridrec', i), vt.nprng('gridrec', i)
    f = FILTERS[i % len(FILTERS)]
    ns, nt = r.choice([1, 2, 2, 3, 4, 5]), r.randint(1, 9)
    dx = r.choice([3, 8, 9, 12, 15, 16, 16, 17, 20])
    if r.random() < .3:
        gx = gy = dx
    else:
        gx, gy = r.choice([1, 5, 8, 12, 13, 16, 17, dx]), r.choice([2, 7, 8, 11, 16, 20, dx])
    pd = 16
    while pd < max(dx, gx, gy):
        pd *= 2
    sino = rs.uniform(-1, 2, (ns, nt, dx)).astype('float32')
    if r.random() < .3:
        sino *= 0
        for s in range(ns):
            sino[s, r.randrange(nt), r.randrange(dx)] = r.uniform(.5, 3)
    th = []
    grid = r.random() < .5
    for k in range(nt):
        t = np.float32(np.pi * k / nt) if grid else np.float32(r.uniform(-7, 7))
        while not clear(t, pd):
            t = np.float32(t + r.uniform(-.01, .01))
        th.append(t)
    th = np.array(th, 'float32')
    kind = r.choice(['none', 'one', 'each', 'pairs'])
    if kind == 'none':
        carg, cs = None, np.full(ns, dx / 2.)
    elif kind == 'one':
        v = dx / 2. + r.choice([-1.5, -.25, 0, .4, 2])
        carg, cs = r.choice([v, [v], np.float32(v)]), np.full(ns, v)
    else:
        cs = dx / 2. + rs.uniform(-2, 2, ns)
        if kind == 'pairs':
            cs = np.repeat(cs, 2)[:ns]
        carg = r.choice([cs, list(cs)])
    par = [.5, 8.]
    kw = dict(algorithm='gridrec')
    if f == 'custom':
        par = rs.uniform(0, 1, pd // 2)
        kw['filter_par'] = r.choice([par, list(par), par.astype('float32')])
    elif f == 'custom2d':
        par = rs.uniform(0, 1, (nt, pd // 2))
        kw['filter_par'] = r.choice([par, par.ravel(), list(par.ravel()), np.asfortranarray(par), np.repeat(par, 2, 1)[:, ::2]])
    elif r.random() < .5:
        par = [r.choice([.5, .3, .25, 1., 1.7, .05, round(r.uniform(.05, .8), 3)]), r.choice([1., 2., 8., 1.5, .5, 2.7, .3])]
        kw['filter_par'] = r.choice([par, np.array(par), np.array(par, 'float32')])
    if f != 'shepp' or r.random() < .5:
        kw['filter_name'] = f
    if gx != dx or r.random() < .3:
        kw['num_gridx'] = gx
    if gy != dx or r.random() < .3:
        kw['num_gridy'] = gy
    if r.random() < .5:
        kw['ncore'] = r.choice([1, 2, 3])
    if r.random() < .5:
        kw['nchunk'] = r.choice([1, 2, 3, 4])
    if r.random() < .2:
        kw['init_recon'] = rs.uniform(-1, 1, (ns, gx, gy)).astype('float32')
    order = r.random() < .5
    if order:
        x = sino.copy()
        kw['sinogram_order'] = True
    else:
        x = np.swapaxes(sino, 0, 1)
        if r.random() < .7:
            x = x.copy()
    if r.random() < .2:
        x = x.astype('float64')
    got, v = vt.call(tomopy.recon, x, r.choice([th, th.copy()]), center=carg, **kw)
    rec = dict(op='gridrec', outcome=got, filter=f, gx=gx, gy=gy, par=vt.dbl(np.ravel(np.asarray(par, 'float32'))), sinos=vt.dbl(sino), theta=vt.dbl(th),
               centres=vt.dbl(np.asarray(cs, 'float32')), want=[ns, gx, gy])
    if got == 'ok':
        rec.update(shape=list(v.shape), out=vt.dbl(v))
    else:
        rec['error'] = str(v)[:200]
    return rec


def main():
    cs = [dict(i=i) for i in range(1200 if vt.THOROUGH else 120)]
    vt.write_trace(vt.run_cases(cs, one, on_fail=lambda c, how: dict(c, outcome=how)))


main()
