"""Replays the calls enumerated by GenJobs into the job distributor and the reconstruction
driver and records what their workers did.   JOBS_KIND = distribute | defers | faults | recon | reconfaults"""
import json, os, signal, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import multiprocessing as mp
import tomopy
from tomopy.util import mproc
from tomopy.util import dtype as tdtype

KIND = os.environ.get('JOBS_KIND', 'distribute')
CPU = mp.cpu_count()
DEFER = getattr(mproc, 'RunOnHostException', None)


def logger(path):
    def log(*ev):
        fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(ev) + '\n').encode())
        os.close(fd)
    return log


def call(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except BaseException as e:
        return 'raise', '%s: %s' % (type(e).__name__, e)


class TwoArguments(Exception):
    """cannot be restored from its pickle"""

    def __init__(self, a, b):
        super().__init__('%s %s' % (a, b))


class Unpicklable(Exception):
    def __init__(self, text):
        super().__init__(text)
        self.f = lambda: text


class Base(BaseException):
    pass


def blow(h, host):
    """the exceptions a function may raise; those that end the process only outside of the host"""
    h = h % 9
    if h == 0:
        raise TwoArguments('told', 'to fail')
    if h == 1:
        raise Unpicklable('told to fail')
    if h == 2:
        raise StopIteration('told to fail')
    if h == 3:
        raise np.linalg.LinAlgError('told to fail')
    if h == 4 and not host:
        raise Base('told to fail')
    if h == 5 and not host:
        raise SystemExit(0)
    if h == 6:
        raise KeyError('told to fail')
    raise ValueError('told to fail')


class Work(object):
    """The slice-wise function: knows the whole input, logs what it is given."""

    def __init__(self, arrs, axis, path, kinds, hostpid, how):
        self.arrs, self.axis, self.path = arrs, axis, path
        self.kinds, self.host, self.how, self.how2 = kinds, hostpid, how % 4, how // 4

    def who(self):
        return 'host' if os.getpid() == self.host else os.getpid()

    def __call__(self, *args, **kw):
        log = logger(self.path)
        ch = args[:len(self.arrs)]
        axis = self.axis
        full = self.arrs[0]
        first = np.asarray(ch[0])
        collapsed = first.ndim == full.ndim - 1
        tag = first.flat[0] // 1000
        lo = int(tag)
        hi = lo + (1 if collapsed else first.shape[axis])
        who = self.who()
        good = True
        for a, c in zip(self.arrs, ch):
            sl = tuple((lo if collapsed else slice(lo, hi)) if k == axis else slice(None)
                       for k in range(a.ndim))
            good = good and np.array_equal(a[sl], c) and a.dtype == c.dtype
        good = good and args[len(self.arrs):] == (7,) and kw == {'b': 2}
        log('S' if good else 'X', who, lo, hi)
        k = self.kinds.get(lo, 'ok')
        if k == 'raise' or (k == 'die' and who == 'host') or (k == 'defer' and DEFER is None):
            log('F', who, lo, hi)
            blow(self.how2 + lo, who == 'host')
        if k == 'defer' and who != 'host':
            log('D', who, lo, hi)
            raise DEFER()
        if k == 'die':
            log('F', who, lo, hi)
            h = self.how % 4
            if h == 0:
                os._exit(0)
            elif h == 1:
                os._exit(3)
            elif h == 2:
                os.kill(os.getpid(), signal.SIGKILL)
            else:
                os.kill(os.getpid(), signal.SIGTERM)
            time.sleep(60)
        res = np.asarray(ch[-1]) * 2 + 1
        log('E', who, lo, hi)
        return res


def number(evs):
    ids = {}
    out = []
    for e in evs:
        w = 0 if e[1] == 'host' else ids.setdefault(e[1], len(ids) + 1)
        out.append([e[0], w, e[2], e[3]])
    return out, len(ids)


def mkarr(shape, axis, dt, k):
    idx = np.indices(shape)
    a = idx[axis] * 1000 + k
    m = 1
    for d in range(len(shape)):
        if d != axis:
            a = a + idx[d] * m
            m *= shape[d]
    return a.astype(dt)


def distribute(c):
    r = vt.rng('job', json.dumps(c))
    n = c['n']
    nd = r.choice([1, 2, 3, 3, 4])
    axis = r.randrange(nd)
    if c['nchunk'] == 0 and nd == 1:
        nd, axis = 2, r.randrange(2)
    shape = [r.choice([1, 2, 3]) for _ in range(nd)]
    shape[axis] = n
    narr = r.choice([1, 1, 2, 3])
    dts = [r.choice(['float32', 'float64', 'int32', 'float32']) for _ in range(narr)]
    arrs = [mkarr(shape, axis, d, k) for k, d in enumerate(dts)]
    src = [a.copy() for a in arrs]
    share = r.random() < 0.3
    if share:
        src = [tdtype.as_sharedmem(a, copy=True) if a.dtype == np.float32 else a for a in src]
    omode = r.choice(['none', 'none', 'new', 'shared', 'same'])
    out = None
    if omode == 'new':
        out = np.full(shape, -5, dts[-1])
    elif omode == 'shared':
        out = tdtype.empty_shared_array(shape)
        out[:] = -5
    elif omode == 'same':
        out = src[-1]
    debug = r.random() < 0.15
    path = os.path.join(vt.TMP, 'ev-%d-%s' % (os.getpid(), time.time()))
    kinds = dict(zip(c.get('los', []), c.get('kinds', [])))
    fn = Work(arrs, axis, path, kinds, os.getpid(), r.randrange(36))
    if kinds:
        debug = False
    arg = src[0] if narr == 1 else (tuple(src) if r.random() < .5 else list(src))
    mproc.set_debug(debug)
    got, val = call(mproc.distribute_jobs, arg, fn, axis, args=(7,), kwargs={'b': 2},
                       ncore=None if c['ncore'] == -1 else c['ncore'],
                       nchunk=None if c['nchunk'] == -1 else c['nchunk'], out=out)
    mproc.set_debug(False)
    evs = [json.loads(x) for x in open(path)] if os.path.exists(path) else []
    if os.path.exists(path):
        os.unlink(path)
    ev, W = number(evs)
    want = arrs[-1] * 2 + 1
    good = []
    if got == 'ok':
        same = isinstance(val, np.ndarray) and val.shape == want.shape and (out is None or val is out)
        # arrays that the call was not told to write to stay as they were, shared memory or not
        same = same and all(np.array_equal(a, b) for a, b in zip(src, arrs) if a is not out)
        for s in range(n):
            good.append(1 if same and np.array_equal(np.take(val, s, axis), np.take(want, s, axis)) else 0)
    return rec(c, dict(opts='axis=%d shape=%s arrays=%s shared=%s out=%s debug=%s' % (
        axis, shape, dts, share, omode, debug)), ev, W, 'returned' if got == 'ok' else 'raised', good,
        '' if got == 'ok' else val)


def rec(c, more, ev, W, end, good, err=''):
    nc = c['ncore']
    cores = CPU if nc <= 0 else (min(nc, CPU) if 'distribute' in c.get('op', 'distribute') else nc)
    d = dict(op=c.get('op', 'distribute'), n=c['n'], ncore=nc, nchunk=c['nchunk'], cores=cores, W=W, ev=ev,
             end=end, good=good, kinds=c.get('kinds', []), error=err[:200])
    d.update(more)
    return d


# ---------------------------------------------------------------- reconstruction
class Algorithm(object):
    """an algorithm that logs what it is given; it may be sent to other processes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def who(self):
        if os.getpid() != self.hostpid:
            return os.getpid()
        return 'host' if threading.get_ident() == self.host else threading.get_ident()

    def __call__(self, tomo, center, out, ang, **kw):
        log, who = logger(self.path), self.who()
        lo = int(tomo[0, 0, 0] // 1000)
        hi = lo + tomo.shape[0]
        gx, gy = self.grid
        ok = np.array_equal(tomo, self.data[lo:hi]) and np.array_equal(center, self.cen[lo:hi]) and \
            out.shape == (hi - lo, gx, gy) and np.array_equal(ang, self.theta) and kw.get('num_gridx') == gx \
            and kw.get('num_gridy') == gy
        log('S' if ok else 'X', who, lo, hi)
        time.sleep(self.wait * ((lo * 7) % 3))
        k = self.kinds.get(lo, 'ok')
        if k == 'die' and os.getpid() != self.hostpid:
            log('F', who, lo, hi)
            os._exit(0)
        if k in ('raise', 'die', 'defer'):
            log('F', who, lo, hi)
            blow(self.how2 + lo, False)
        out[:] = np.arange(lo, hi, dtype='float32')[:, None, None]
        log('E', who, lo, hi)


def recon(c):
    r = vt.rng('rec', json.dumps(c))
    n = c['n']
    nang, ndet = r.choice([1, 2, 3]), r.choice([2, 3, 4])
    sino = r.random() < 0.5
    data = mkarr([n, nang, ndet], 0, 'float32', 0)
    inp = data if sino else np.ascontiguousarray(np.swapaxes(data, 0, 1))
    kinds = dict(zip(c.get('los', []), c.get('kinds', [])))
    cen = [10.0 + s for s in range(n)]
    gx, gy = r.choice([2, 3]), r.choice([2, 5])
    theta = np.arange(nang, dtype='float32')

    # algorithms that are called in processes instead of in threads
    acc = r.random() < (.15 if c.get('los') is None else .3) and c['ncore'] in (1, 2, 3, 4)
    path = os.path.join(vt.TMP, 'ev-%d-%s' % (os.getpid(), time.time()))
    alg = Algorithm(data=data, cen=cen, grid=(gx, gy), theta=theta, kinds=kinds, path=path, hostpid=os.getpid(),
                    host=threading.get_ident(), how2=r.randrange(9), wait=r.choice([0, 0, 0.002]))
    kw = dict(accelerated=True) if acc else {}
    got, val = call(tomopy.recon, inp, theta, center=np.array(cen), sinogram_order=sino, algorithm=alg,
                       ncore=None if c['ncore'] == -1 else c['ncore'],
                       nchunk=None if c['nchunk'] == -1 else c['nchunk'], num_gridx=gx, num_gridy=gy, **kw)
    ev = [json.loads(x) for x in open(path)] if os.path.exists(path) else []
    if os.path.exists(path):
        os.unlink(path)
    evs, W = number(ev)
    good = []
    if got == 'ok':
        same = isinstance(val, np.ndarray) and val.shape == (n, gx, gy)
        good = [1 if same and (val[s] == s).all() else 0 for s in range(n)]
    c = dict(c, op='recon')
    return rec(c, dict(opts='sino=%s accelerated=%s' % (sino, acc)), evs, W, 'returned' if got == 'ok' else 'raised', good,
               '' if got == 'ok' else val)


def main():
    cs = vt.cases()
    r = vt.rng('pick', KIND)
    if KIND in ('distribute', 'recon'):
        if KIND == 'recon':
            cs = [c for c in cs if c['nchunk'] != 0]
        if KIND == 'distribute' and not vt.THOROUGH:
            r.shuffle(cs)
            # every size with and without a chunk size, then a sample of the rest
            cs = cs[:220]
        elif KIND == 'distribute':
            cs = cs * 3
            cs = [dict(c, rep=i) for i, c in enumerate(cs)]
        for i in range(200 if vt.THOROUGH else 40):
            n = r.choice([r.randrange(5, 40), r.randrange(5, 40), 64, 129])
            cs.append(dict(n=n, ncore=r.choice([-1, 2, 3, 5, CPU, CPU + 3]),
                           nchunk=r.choice([-1, 1, 2, 3, 7, n - 1, n, n + 1])))
        if KIND == 'recon':
            cs = cs + [dict(c, ncore=0) for c in cs[::9]]
    else:
        if KIND == 'defers':
            cs = [c for c in cs if 'defer' in c['kinds'] and set(c['kinds']) <= {'ok', 'defer'}]
        if KIND == 'reconfaults':
            cs = [c for c in cs if c['nchunk'] != 0 and 'defer' not in c['kinds']]
        elif not vt.THOROUGH:
            dying = [c for c in cs if 'die' in c['kinds'] and c['ncore'] > 1]
            rest = [c for c in cs if not ('die' in c['kinds'] and c['ncore'] > 1)]
            r.shuffle(dying)
            r.shuffle(rest)
            cs = dying[:110] + rest[:150]
    fn = recon if KIND.startswith('recon') else distribute

    def fail(c, how):
        return rec(dict(c, op=KIND), dict(opts=''), [], 0, how, [])

    recs = vt.run_cases(cs, fn, timeout=30, on_fail=fail)
    # multiprocessing.Pool itself can, very rarely, deadlock in terminate() when a worker dies at
    # that moment: one such case is run again by itself, and stays a hang if it hangs again
    hung = [i for i, x in enumerate(recs) if x['end'] == 'hang']
    if len(hung) == 1:
        again = [c for c in cs if all(recs[hung[0]].get(k) == v for k, v in c.items())][:1] * 2
        more = vt.run_cases(again, fn, procs=1, timeout=30, on_fail=fail)
        if len(more) == 2:
            recs[hung[0]] = next((x for x in more if x['end'] == 'hang'), more[0])
    vt.write_trace(recs)


main()
