"""Gaussian filters, contrast enhancement, distributions, image files."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy
from tomopy.misc import npmath
from tomopy.util import misc as tmisc


def one(c):
    op, k = c
    r, rs = vt.rng('enhance', *c), vt.nprng('enhancen', *c)
    rec = dict(op=op, kept=True)
    if op == 'gaussian':
        ax = vt.pick_axis(r)
        sh = [r.randint(1, 6) if i == ax % 3 else r.randint(1, 9) for i in range(3)]
        x, how = vt.dress(rs.randint(-20, 21, sh) if r.random() < .5 else rs.uniform(-3, 3, sh).astype('f4'), r,
                          ('float32', 'float64', 'int16') if r.random() < .5 else ('float32',))
        s = [r.choice([.5, 1., 1.7, 3., .2, 0.]) for _ in range(2)]
        o = [r.choice([0, 0, 1, 2, 3]) for _ in range(2)]
        kw = {}
        if r.random() < .4:
            s = [s[0], s[0]]
        if r.random() < .6:
            o = [o[0], o[0]]
        if r.random() < .3:
            s = [3., 3.]
        else:
            kw['sigma'] = s[0] if s[0] == s[1] else tuple(s)
        if r.random() < .4:
            o = [0, 0]
        else:
            kw['order'] = o[0] if o[0] == o[1] else tuple(o)
        if ax != 0 or r.random() < .5:
            kw['axis'] = ax
        nc = vt.ncores(r)
        if nc:
            kw['ncore'] = nc
        before = np.array(x)
        rec['outcome'], v = vt.call(lambda: tomopy.gaussian_filter(x, **kw))
        if rec['outcome'] != 'ok':
            return dict(rec, error=v)
        rec['kept'] = bool(np.array_equal(before, x) and v.shape == x.shape and v.dtype == np.float32)
        rec.update(imgs=vt.dbl(np.moveaxis(before.astype('f4'), ax, 0)), outs=vt.dbl(np.moveaxis(v, ax, 0)), s=vt.dbl(s), o=o)
        return rec
    if op == 'enhance':
        sh = [r.randint(1, 4), r.randint(2, 8), r.randint(2, 8)]
        a = rs.randint(0, r.choice([2, 6, 200]), sh)
        if r.random() < .25:
            a[r.randrange(sh[0])] = 0
        x, how = vt.dress(a, r, ('float32', 'float64', 'uint8', 'uint16'))
        size = r.choice([1, 3, 5])
        kw = dict(median_ks=size) if size != 5 or r.random() < .5 else {}
        cpus = tomopy.util.mproc.mp.cpu_count
        nc = r.choice([None, 1, 2, 3])
        if nc:
            kw['ncore'] = nc
        elif r.random() < .6:       # a machine with a single processor
            tomopy.util.mproc.mp.cpu_count = lambda: 1
        before = np.array(x)
        rec['outcome'], v = vt.call(lambda: tomopy.enhance_projs_aps_1id(x, **kw))
        tomopy.util.mproc.mp.cpu_count = cpus
        if rec['outcome'] != 'ok':
            return dict(rec, error=v)
        rec['kept'] = bool(np.array_equal(before, x) and v.shape == x.shape)
        rec.update(imgs=vt.dbl(before), outs=vt.dbl(v), size=size)
        return rec
    if op == 'cdf':
        n = r.choice([0, 1, 2, 3, 5, 10, 17])
        d = rs.randint(0, r.choice([3, 100]), n).astype(r.choice(['float64', 'int64']))
        steps = r.choice([0, 0, 1, 2, 3, 4, 10, 20])
        rec['outcome'], v = vt.call(lambda: npmath.discrete_cdf(d, steps) if steps else npmath.discrete_cdf(d))
        if rec['outcome'] != 'ok':
            return dict(rec, error=v)
        rec.update(data=vt.dbl(d), steps=steps, x=vt.dbl(v[0]), y=vt.dbl(v[1]))
        return rec
    if op == 'bell':
        x, A, mu, sigma = rs.uniform(-5, 5, r.randint(1, 6)), r.choice([1., -2.5, 4]), r.uniform(-2, 2), r.choice([.5, 1, 3.])
        rec['outcome'], v = vt.call(lambda: npmath.gauss1d(x, A, mu, sigma))
        if rec['outcome'] != 'ok':
            return dict(rec, error=v)
        rec.update(x=vt.dbl(x), A=vt.dbl(A), mu=vt.dbl(mu), sigma=vt.dbl(sigma), y=vt.dbl(v))
        return rec
    if op == 'write':
        import tifffile
        from tomopy.util.misc import write_tiff
        d = tempfile.mkdtemp(prefix='vt-write-', dir=vt.TMP)
        here = os.getcwd()
        try:
            os.chdir(d)
            name = r.choice(['a', 'b.c', 'sub/a', 'sub/deep/x_', 'a.tiff/b', 'x1'])
            ext = r.choice(['tiff', 'tiff', 'tif'])
            tail = r.choice(['', '', '.tiff', '.tif', 'tiff', '_tif', '.', '.tiff.'])
            digit = r.choice(['', '', '7', '12', '00003'])
            data = rs.randint(0, 200, (r.randint(2, 5), r.randint(2, 5))).astype(r.choice(['uint8', 'uint16', 'float32', 'int16']))
            full = r.random() < .5
            target = (d + '/' if full else '') + name + tail
            kw = {}
            if digit:
                kw['digit'] = int(digit) if digit[0] != '0' and r.random() < .7 else digit
            if ext != 'tiff':
                kw['ext'] = ext

            def run():
                if r.random() < .4:     # overwritten by the next
                    write_tiff(data[:1] + 1, target, **kw)
                write_tiff(data, fname=target, **kw)
            rec['outcome'], v = vt.call(run)
            if rec['outcome'] != 'ok':
                return dict(rec, error=v)
            files = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
            back = tifffile.imread(os.path.join(d, files[0]))
            rec.update(files=files, name=name, tail=tail, digit=digit, ext=ext, data=data.astype(int), back=np.asarray(back, dtype=np.float64).round(3).astype(int),
                       datatype=str(data.dtype), backtype=str(back.dtype))
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)
        return rec


    if op == 'fourier':
        return fourier(rec, r, rs)


def pair(a):
    return dict(re=vt.dbl(np.ascontiguousarray(a.real, dtype='f8')), im=vt.dbl(np.ascontiguousarray(a.imag, dtype='f8')))


def fourier(rec, r, rs):
    name = r.choice(['fft', 'ifft', 'fft2', 'ifft2'])
    f, two = getattr(tmisc, name), name.endswith('2')
    nd = r.randint(2, 3) if two else r.randint(1, 3)
    sh = [r.randint(1, 7) for _ in range(nd)]
    x = rs.uniform(-3, 3, sh)
    if r.random() < .6:
        x = x + 1j * rs.uniform(-3, 3, sh)
    if r.random() < .4:
        x = x.astype('complex64' if np.iscomplexobj(x) else 'float32')
    kw = {}
    if two:
        ax = tuple(r.sample(range(nd), 2)) if r.random() < .6 else (-2, -1)
        if ax != (-2, -1) or r.random() < .5:
            kw['axes'] = tuple(a - nd if r.random() < .3 and a >= 0 else a for a in ax)
    else:
        ax = (r.randrange(nd),) if r.random() < .7 else (-1,)
        if ax != (-1,) or r.random() < .5:
            kw['axis'] = ax[0] - nd if r.random() < .3 and ax[0] >= 0 else ax[0]
    size = [sh[a] for a in ax]
    if r.random() < .4:
        size = [r.randint(1, 9) for _ in ax]
        kw['s' if two else 'n'] = tuple(size) if two else size[0]
    if r.random() < .2:
        kw['extra_info'] = r.randint(1, 4)
    given = x
    if r.random() < .3:     # leave to lose what is passed
        kw['overwrite_input'] = r.choice([True, False])
        if kw['overwrite_input']:
            x = x.copy()
    kept = x.copy()
    rec['outcome'], y = vt.call(lambda: f(given, **kw))
    if rec['outcome'] != 'ok':
        return dict(rec, error=y)
    to = tuple(range(-len(ax), 0))
    a, b = np.moveaxis(x, ax, to), np.moveaxis(np.asarray(y), ax, to)
    a, b = [z.reshape((-1,) + z.shape[-2:]) if z.ndim > 1 else z.reshape(1, 1, -1) for z in (a, b)]
    return dict(rec, kept=np.array_equal(x, kept), name=name, inverse=name[0] == 'i', size=size, args=str(sorted(kw.items())),
                before=[pair(z) for z in a], after=[pair(z) for z in b])


N = dict(fourier=120) if vt.MKL else dict(fourier=120, gaussian=150, enhance=60, cdf=60, bell=20, write=60)
todo = [(op, k) for op in N for k in range(N[op] * (8 if vt.THOROUGH else 1))]
vt.write_trace(vt.run_cases(todo, one, on_fail=lambda c, how: dict(op=c[0], outcome=how, kept=True)))
