"""Reconstructions with external toolboxes (ASTRA, lprec), for which modules of this file stand in: they keep
account of the objects that are made, used and deleted, refuse the step they are told to refuse, and
write a token into the slices they are asked to reconstruct.  Recorded: everything they were asked to do."""
import copy, ctypes, importlib.machinery, itertools, os, queue, sys, threading, time, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy


class Told(Exception):
    pass


class Box(object):
    """what has happened, in its order"""

    def __init__(self, c):
        self.lock = threading.RLock()
        self.ev = []
        self.ids = itertools.count(1)
        self.seen = {}
        self.c = c

    def log(self, **e):
        with self.lock:
            self.ev.append(e)

    def step(self, op):
        """may refuse"""
        with self.lock:
            k = self.seen[op] = self.seen.get(op, 0) + 1
            refuse = self.c['fail'] == op and self.c['at'] == k
            if refuse:
                self.ev.append(dict(op='fail'))
        if refuse:
            raise Told('told to fail')


def ints(a):
    a = np.asarray(a)
    return a.astype(int).tolist() if np.isfinite(a).all() and np.array_equal(a, a.astype(int)) and np.abs(a).max() < 1e9 \
        else (a * 0).astype(int).tolist() if np.isfinite(a).all() else []


def eighths(x):
    return int(8 * x) if 8 * x == int(8 * x) else 10 ** 6


# ------------------------------------------------------------------ ASTRA
def astra_module(box, want, post):
    m = types.ModuleType('astra')
    objs = {}

    def new(kind, what, uses=()):
        with box.lock:
            i = next(box.ids)
            objs[i] = (kind, what)
            box.ev.append(dict(op='new', id=i, kind=kind, uses=[int(u) for u in uses]))
        return i

    def delete(kind):
        def f(i):
            for k in (i if isinstance(i, (list, tuple)) else [i]):
                box.log(op='del', id=int(k))
        return f

    def create_vol_geom(*a):
        a = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        return dict(rows=int(a[0]), cols=int(a[1] if len(a) > 1 else a[0]))

    def create_proj_geom(kind, width, n, angles):
        return dict(type=kind, width=float(width), n=int(n), angles=np.array(angles), off=0.)

    def create_projector(kind, pg, vg):
        box.step('projector')
        return new('projector', (kind, copy.deepcopy(pg), dict(vg)))

    def link(kind, geom, data):
        box.step('link')
        if not (isinstance(data, np.ndarray) and data.dtype == np.float32 and data.flags.c_contiguous and data.flags.aligned):
            raise ValueError('Data should be contiguous float32')
        shape = (geom['rows'], geom['cols']) if 'rows' in geom else (len(geom['angles']), geom['n'])
        if data.shape != shape:
            raise ValueError('The dimensions of the data do not match those specified in the geometry')
        return new(kind.strip('-'), (copy.deepcopy(geom), data))

    def create(cfg):
        box.step('algorithm')
        return new('algorithm', copy.deepcopy(cfg),
                   (cfg['ProjectorId'], cfg['ProjectionDataId'], cfg['ReconstructionDataId']))

    def run(i, iterations=1):
        with box.lock:
            cfg = objs[i][1]
            kind, pg, vg = objs[cfg['ProjectorId']][1]
            sg, sino = objs[cfg['ProjectionDataId']][1]
            wg, vol = objs[cfg['ReconstructionDataId']][1]
        box.step('run')
        opt = dict(cfg.get('option') or {})
        gpu = opt.pop('GPUindex', -1)
        offs = np.atleast_1d(pg.get('option', {}).get('ExtraDetectorOffset', pg['off']))
        off = eighths(float(offs[0])) if (offs == offs[0]).all() and offs.size in (1, len(pg['angles'])) else 10 ** 6
        v = np.unique(vol)
        init = int(round(float(v[0]))) if v.size == 1 else 1
        shape = cfg['type'] == want['method'] and kind == want['proj'] and pg['type'] == 'parallel' and pg['width'] == 1 \
            and np.array_equal(pg['angles'], want['theta'].astype('float64')) and opt == want['extra'] \
            and (vg['rows'], vg['cols']) == (wg['rows'], wg['cols']) == want['grid'] \
            and np.array_equal(sg['angles'], pg['angles']) and sg['n'] == pg['n']
        with box.lock:
            token = next(box.ids)
            box.ev.append(dict(op='run', id=int(i), niter=int(iterations), gpu=int(gpu), off8=off, init=init,
                               sino=ints(sino), shape=bool(shape), token=token))
        time.sleep(.0005 * (token % 3))
        vol[:] = token

    m.astra_dict = lambda name: {'type': name}
    m.create_vol_geom, m.create_proj_geom, m.create_projector = create_vol_geom, create_proj_geom, create_projector
    if post:
        m.geom_postalignment = lambda pg, f: dict(pg, off=pg['off'] - float(f))
    m.data2d = types.SimpleNamespace(link=link, delete=delete('data'))
    m.algorithm = types.SimpleNamespace(create=create, run=run, delete=delete('algorithm'))
    m.projector = types.SimpleNamespace(delete=delete('projector'))
    return {'astra': m}


# ------------------------------------------------------------------ lprec
def lprec_module(box, want):
    m, tr, me = types.ModuleType('lprec'), types.ModuleType('lprec.lpTransform'), types.ModuleType('lprec.lpmethods')

    class lpTransform(object):
        def __init__(self, N, Nproj, Nslices, filter_name, cor, interp_type):
            self.most = int(Nslices)
            self.ok = (N, Nproj, filter_name, cor, interp_type) == want['transform']
            with box.lock:
                self.id = next(box.ids)

        def precompute(self, fwd):
            self.ok = self.ok and bool(fwd) == (want['method'] != 'fbp')

        def initcmem(self, fwd, gpu):
            self.ok = self.ok and bool(fwd) == (want['method'] != 'fbp')
            box.log(op='ready', lp=self.id, gpu=int(gpu))

    def method(name):
        def f(lp, recon, tomo, num_iter, reg_par, gpu):
            tomo = np.asarray(tomo)
            slices = [int(t[0, 0]) // 1000 for t in tomo]
            ok = lp.ok and name == want['method'] and (num_iter, reg_par) == want['iter'] and \
                all(np.array_equal(t, want['data'][s - 1]) for t, s in zip(tomo, slices)) and \
                recon.shape == (len(tomo),) + want['grid'] and \
                all((r == (-s if want['init'] else np.float32(1e-6))).all() for r, s in zip(recon, slices))
            with box.lock:
                token = next(box.ids)
                box.ev.append(dict(op='begin', lp=lp.id, gpu=int(gpu), slices=slices, most=lp.most, shape=bool(ok), token=token))
            try:
                time.sleep(.001 * (1 + token % 3))
                box.step('task')
                return np.stack([np.full(want['grid'], 10 * token + j + 1, 'float32') for j in range(len(tomo))])
            finally:
                box.log(op='end', lp=lp.id, gpu=int(gpu))
        return f

    tr.lpTransform = lpTransform
    for k in ('fbp', 'grad', 'cg', 'tv', 'em', 'tve', 'tvl1'):
        setattr(me, k, method(k))
    m.lpTransform, m.lpmethods = tr, me
    return {'lprec': m, 'lprec.lpTransform': tr, 'lprec.lpmethods': me}


# ------------------------------------------------------------------ UFO
def ufo_modules(box, want):
    """a graph of tasks: the arrays given to the input come out of the output, in their order, as squares
    that hold a token, within a border of -1"""
    gi, rep, ufo, unp = [types.ModuleType(k) for k in ('gi', 'gi.repository', 'ufo', 'ufo.numpy')]

    class Buffer(object):
        def __init__(self, shape):
            self.shape, self.data = tuple(shape), None

        def set_host_array(self, pointer, free):
            if free:
                raise ValueError('the memory is not that of the buffer')
            self.data = np.array(np.ctypeslib.as_array(ctypes.cast(pointer, ctypes.POINTER(ctypes.c_float)), self.shape))

    class Task(object):
        def __init__(self, name):
            self.name, self.props = name, {}

        def set_properties(self, **kw):
            self.props.update(kw)

    class InputTask(Task):
        def __init__(self):
            Task.__init__(self, 'input')
            self.full, self.free = queue.Queue(), queue.Queue()

        def release_input_buffer(self, b):
            self.full.put(b)

        def get_input_buffer(self):
            return self.free.get(timeout=20)

        def stop(self):
            self.full.put(None)

    class OutputTask(Task):
        def __init__(self):
            Task.__init__(self, 'output')
            self.full, self.free = queue.Queue(), queue.Queue()

        def get_output_buffer(self):
            return self.full.get(timeout=20)

        def release_output_buffer(self, b):
            self.free.put(b)

    class TaskGraph(object):
        def __init__(self):
            self.edges = {}
            self.tasks = []

        def connect_nodes(self, a, b):
            self.edges[a] = b
            self.tasks += [a, b]

    class PluginManager(object):
        def get_task(self, name):
            return Task(name)

    class Scheduler(object):
        props = types.SimpleNamespace(time=0.)

        def run(self, g):
            t = next(x for x in g.tasks if isinstance(x, InputTask))
            chain, props, first = [t.name], {}, t
            while t in g.edges:
                t = g.edges[t]
                chain.append(t.name)
                for k, v in t.props.items():
                    props[t.name + '.' + k] = v
            axis = props.get('backproject.axis_pos', props.get('zeropad.center_of_rotation', -1))
            step = props.get('backproject.angle_step', props.get('dfi-sinc.angle_step', -1))
            ok = abs(float(step) - want['step']) < 1e-6 and \
                abs(float(props.get('backproject.angle_offset', np.pi)) - np.pi) < 1e-6 and \
                props.get('ifft.crop_width', want['width']) == want['width']
            while True:
                b = first.full.get(timeout=20)
                if b is None:
                    return
                with box.lock:
                    token = next(box.ids)
                    box.ev.append(dict(op='graph', id=id(g) % 10 ** 9, chain=chain, off8=eighths(float(axis)), sino=ints(b.data), shape=bool(ok), token=token))
                first.free.put(b)
                w = want['width'] + 2 * want['border']
                o = Buffer((w, w))
                o.data = np.full((w, w), -1, 'float32')
                m = want['border']
                o.data[m:w - m, m:w - m] = token
                t.full.put(o)
                t.free.get(timeout=20)

    def asarray(b):
        return b.data
    gi.require_version = lambda name, version: None
    rep.Ufo = types.SimpleNamespace(TaskGraph=TaskGraph, PluginManager=PluginManager, Scheduler=Scheduler,
                                    InputTask=InputTask, OutputTask=OutputTask)
    unp.empty_like, unp.asarray = lambda a: Buffer(a.shape), asarray
    gi.repository, ufo.numpy = rep, unp
    return {'gi': gi, 'gi.repository': rep, 'ufo': ufo, 'ufo.numpy': unp}


# ------------------------------------------------------------------ recon_accelerated
def other(c):
    r = vt.rng('toolbox', repr(sorted(c.items())))
    tomo, theta = np.ones((2, 3, 4), 'float32'), np.arange(2.)
    token, calls = np.full((3, 4, 4), 7, 'float32'), []
    names = ['center', 'emission', 'algorithm', 'hardware', 'acc_option', 'init_recon']
    values = dict(center=np.array([2.]), emission=False, algorithm=r.choice(['sirt', 'mlem']), hardware=r.choice(['gpu', 'cpu']),
                  acc_option=dict(gpus=[0, 1]), init_recon=np.zeros((3, 4, 4), 'float32'))
    extra = {'num_iter': 7, 'reg_par': [.5, 1.]} if 'more' in c['given'] else {}
    kw = {k: values[k] for k in names if k in c['given']}
    default = dict(center=None, emission=True, algorithm=None, hardware=None, acc_option=None, init_recon=None)
    want = dict(default, **kw)
    mine = [tomo, theta] + [values[k] for k in names] + [extra[k] for k in sorted(extra)]

    def mark(v):
        k = [i for i, x in enumerate(mine) if x is v]
        return 'my %d' % k[0] if k and not isinstance(v, (bool, str)) else repr(v)

    def implementation(tomo, theta, center, emission, algorithm, hardware, acc_option, init_recon, **kwargs):
        calls.append([mark(v) for v in (tomo, theta, center, emission, algorithm, hardware, acc_option, init_recon)] +
                     [k + ' ' + mark(v) for k, v in sorted(kwargs.items())])
        if c['fail'] == 'peri':
            raise Told('told to fail')
        return token

    class Implementation(object):
        def __call__(self, *args, **kw):
            return implementation(*args, **kw)
    wanted = [mark(v) for v in [tomo, theta] + [want[k] for k in names]] + [k + ' ' + mark(v) for k, v in sorted(extra.items())]
    impl = dict(unset=None, tomoperi='tomoperi', callable=implementation, object=Implementation(), unknown=r.choice(['peri', 'astra', '']), number=3)[c['impl']]
    args = [tomo, theta]
    if c['by'] == 'place':
        while names and names[0] in kw and len(args) < 6:
            args.append(kw.pop(names.pop(0)))
    if c['impl'] != 'unset' or r.random() < .5:
        kw['implementation'] = impl
    kw.update(extra)
    mods = {}
    if c['present']:
        for n in ('tomopy_peri', 'tomopy_peri.algorithm'):
            mods[n] = types.ModuleType(n)
            mods[n].__spec__ = importlib.machinery.ModuleSpec(n, None, is_package='.' not in n)
        mods['tomopy_peri'].__path__ = []
        mods['tomopy_peri'].algorithm = mods['tomopy_peri.algorithm']
        mods['tomopy_peri.algorithm'].recon_accelerated = implementation
    sys.modules.update(mods)
    v = None
    try:
        v = tomopy.recon_accelerated(*args, **kw)
        end = 'returned'
    except Told:
        end = 'told'
    except ValueError:
        end = 'refused'
    except Exception as e:
        end = 'raised ' + type(e).__name__
    finally:
        for k in mods:
            sys.modules.pop(k, None)
    return dict(c, end=end, calls=calls, wanted=wanted, same=v is token)


# ------------------------------------------------------------------ the calls
def case(c):
    if c['kind'] == 'other':
        return other(c)
    r = vt.rng('toolbox', repr(sorted(c.items())))
    box = Box(c)
    n, astra, ufo = c['n'], c['kind'] == 'astra', c['kind'] == 'ufo'
    ndet = r.randrange(3, 10) if astra or ufo else c['ndet']
    nang = r.randrange(1, 4) if astra else r.randrange(2, 5) if ufo else 1 + (ndet < 100)
    grid = (ndet, ndet) if ufo else (r.randrange(2, 6), r.randrange(2, 6))
    s, a, d = np.indices((n, nang, ndet))
    data = (1000 * (s + 1) + 20 * a + d + 1 if astra or ufo else 1000 * (s + 1) + (20 * a + d) % 1000).astype('float32')
    theta = np.linspace(0, 2.5, nang).astype('float32')
    init = r.random() < .5
    kw = dict(num_gridx=grid[0], num_gridy=grid[1], ncore=c['ncore'])
    if c['nchunk'] != -1:
        kw['nchunk'] = c['nchunk']
    if init:
        kw['init_recon'] = np.stack([np.full(grid, -(k + 1), 'float32') for k in range(n)])
    given = data
    if r.random() < .5:
        kw['sinogram_order'] = True
    else:
        given, kw['sinogram_order'] = np.ascontiguousarray(data.swapaxes(0, 1)), False
    niter = r.choice([1, 3, 20])
    extra = r.choice([{}, {'MinConstraint': 0}, {'FilterType': 'hann', 'nested': {'a': [1, 2]}}]) if astra else {}
    want = dict(theta=theta, grid=grid, extra=extra, data=data, init=init)
    if astra:
        cen8 = [r.randrange(0, 8 * ndet + 1) if r.random() < .8 else 4 * ndet for _ in range(n)]
        center = np.array(cen8, 'float32') / 8
        opts = dict(method=r.choice(['SART', 'FBP_CUDA']), proj_type=c['proj'])
        want.update(method=opts['method'], proj=c['proj'])
        if c['fail'] == 'method':
            del opts['method']
        if c['proj'] == 'linear' and r.random() < .5:
            del opts['proj_type']
        if c['gpus'] or r.random() < .5:
            opts['gpu_list'] = list(c['gpus']) or None
        if niter > 1 or r.random() < .5:
            opts['num_iter'] = niter
        if extra or r.random() < .3:
            opts['extra_options'] = copy.deepcopy(extra)
        kw['options'] = opts
        before = copy.deepcopy(opts)
        mods, fn = astra_module(box, want, c['post']), tomopy.astra
    elif c['kind'] == 'ufo':
        cen = r.randrange(1, 8 * ndet)
        cen8, center = [cen] * n, np.full(n, cen / 8, 'float32') if r.random() < .5 else cen / 8
        theta = (theta[0] + np.arange(nang) * np.float32(r.choice([.25, .125]))).astype('float32')
        opts = before = {}
        want.update(width=ndet, border=c['border'], step=float(theta[1] - theta[0]))
        mods, fn = ufo_modules(box, want), getattr(tomopy, c['fn'])
    else:
        cen = r.randrange(1, ndet)
        cen8, center = [], np.full(n, cen, 'float32') if r.random() < .5 else cen
        method = r.choice(['fbp', 'grad', 'cg', 'tv', 'em', 'tve', 'tvl1'])
        flt, interp, reg = r.choice(['None', 'shepp']), r.choice(['cubic', 'linear']), r.choice([1, .5])
        want.update(method=method, transform=(ndet, nang, flt, cen, interp), iter=(niter, reg))
        given_by_default = dict(lpmethod='fbp', interp_type='cubic', filter_name='None', num_iter=1, reg_par=1)
        mine = dict(lpmethod=method, interp_type=interp, filter_name=flt, num_iter=niter, reg_par=reg, gpu_list=list(c['gpus']))
        mine = {k: v for k, v in mine.items() if given_by_default.get(k) != v or r.random() < .5}
        if c['gpus'] == [0] and r.random() < .5:
            del mine['gpu_list']
        kw.update(mine)
        opts = {k: v for k, v in mine.items()}
        before = copy.deepcopy(opts)
        mods, fn = lprec_module(box, want), tomopy.lprec
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    res = []
    try:
        rec = tomopy.recon(given, theta, center=center, algorithm=fn, **kw)
        end = 'returned'
        for k in range(n):
            u = np.unique(rec[k]) if rec.shape == (n,) + grid else np.zeros(2)
            res.append(int(u[0]) if u.size == 1 and u[0] == int(u[0]) else 0)
    except Told:
        end = 'told'
    except Exception as e:
        end = 'told' if c['fail'] == 'method' and isinstance(e, ValueError) else 'raised ' + type(e).__name__
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return dict(c, ndet=ndet, nang=nang, cen=cen8, init=init, niter=niter, ev=box.ev, end=end, res=res,
                kept=opts == before and np.array_equal(given, data if kw['sinogram_order'] else data.swapaxes(0, 1)),
                given=str(sorted(before.items())))


def main():
    r = vt.rng('pick')
    cs = vt.cases()
    if not vt.THOROUGH:
        r.shuffle(cs)
        cs = [c for c in cs if c['kind'] == 'astra'][:900] + [c for c in cs if c['kind'] == 'lprec'][:450] + \
            [c for c in cs if c['kind'] == 'ufo'][:150] + [c for c in cs if c['kind'] == 'other'][:400]

    def fail(c, how):
        return dict(c, ev=[], end=how, res=[], cen=[], init=False, niter=1, ndet=3, nang=1, kept=True, given='', calls=[], wanted=[], same=False)

    vt.write_trace(vt.run_cases(cs, case, timeout=30, on_fail=fail))


main()
