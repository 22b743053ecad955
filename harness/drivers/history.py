"""Calls after other calls, and at the same time as other calls, as enumerated by GenHistory: the result
against that of the same call in a process that made no other, and what the calls left changed."""
import ctypes, hashlib, inspect, json, locale, logging, os, pickle, signal, sys, threading, time, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy
from tomopy.util import mproc
import catalogue
import multiprocessing as mp
import numexpr as ne

LIBC = ctypes.CDLL(None)
VARIANTS = 5 if vt.THOROUGH else 2
CORE = ('none',)


def perturb(v):
    """fill the memory that malloc returns"""
    LIBC.mallopt(-6, v)


# ------------------------------------------------------------------ the calls
def other(fn, r, rs):
    w = r.choice([16, 20, 24])
    a = (rs.rand(6, w, w) * 3 + 1).astype('float32')
    sino = tomopy.project(tomopy.shepp2d(size=32)[:, :, :], tomopy.angles(18), center=22.7, ncore=1) if fn.startswith('find_center') else None
    if fn in ('add_gaussian', 'add_poisson', 'add_salt_pepper', 'add_zingers', 'add_rings'):
        return lambda A: getattr(tomopy, fn)(A['a']), dict(a=a)
    if fn in ('add_jitter', 'add_noise'):
        f = lambda a: getattr(tomopy.prep.alignment, fn)(a)
        return lambda A: np.concatenate([np.ravel(np.asarray(x, float)) for x in (lambda o: o if isinstance(o, tuple) else (o,))(f(A['a']))]), dict(a=a)
    if fn in ('align_seq', 'align_joint'):
        prj = tomopy.project(tomopy.shepp3d(size=16), tomopy.angles(6), ncore=1)
        def f(A):
            o = getattr(tomopy.prep.alignment, fn)(A['a'], tomopy.angles(6), iters=2, algorithm='sirt', debug=False, blur=False)
            return np.concatenate([np.ravel(np.asarray(x, float)) for x in o])
        return f, dict(a=prj)
    if fn == 'find_center':
        return lambda A: tomopy.find_center(A['a'], tomopy.angles(18), ind=0, init=22, tol=.5), dict(a=sino)
    if fn == 'find_center_sino':
        return lambda A: tomopy.find_center(A['a'], tomopy.angles(18), ind=0, init=22, tol=.5, sinogram_order=True), dict(
            a=np.ascontiguousarray(np.swapaxes(sino, 0, 1)))
    if fn == 'find_center_pc':
        return lambda A: tomopy.find_center_pc(A['a'], A['b']), dict(a=a[0], b=np.ascontiguousarray(a[0][:, ::-1]))
    if fn == 'find_center_vo':
        return lambda A: tomopy.find_center_vo(A['a'], smin=-5, smax=5, ncore=1), dict(a=np.repeat(sino, 3, 1))
    if fn == 'write_center':
        def f(A):
            d = os.path.join(vt.TMP, 'wc-%d-%d' % (os.getpid(), threading.get_ident()))
            tomopy.write_center(A['a'], tomopy.angles(18), dpath=d, cen_range=[21, 24, 1], ind=0)
            names = sorted(os.listdir(d))
            h = [int(hashlib.md5(open(os.path.join(d, x), 'rb').read()).hexdigest()[:6], 16) for x in names]
            for x in names:
                os.unlink(os.path.join(d, x))
            os.rmdir(d)
            return np.array(h)
        return f, dict(a=tomopy.project(tomopy.shepp2d(size=32), tomopy.angles(18), center=22.7, ncore=1))
    if fn == 'mask_empty_slice':
        return lambda A: tomopy.mask_empty_slice(A['a']), dict(a=a)
    if fn == 'add_drift':
        return lambda A: tomopy.add_drift(A['a']), dict(a=a)
    if fn == 'angles':
        return lambda A: tomopy.angles(int(A['a'][0])), dict(a=rs.randint(1, 50, 1))
    if fn == 'shepp3d':
        return lambda A: tomopy.shepp3d(size=int(A['a'][0])), dict(a=rs.randint(4, 12, 1))
    if fn == 'checkerboard':
        return lambda A: tomopy.checkerboard(size=int(A['a'][0])), dict(a=rs.randint(4, 12, 1) * 8)
    if fn == 'trim_sinogram':
        return lambda A: tomopy.trim_sinogram(A['a'], 8, 2, 3, 6)[0], dict(a=a)
    if fn == 'discrete_cdf':
        return lambda A: np.stack(tomopy.util.misc.discrete_cdf(A['a'], 10)) if hasattr(tomopy.util.misc, 'discrete_cdf') else \
            np.stack(tomopy.misc.npmath.discrete_cdf(A['a'], 10)), dict(a=rs.rand(50))
    if fn == 'calc_affine_transform':
        return lambda A: tomopy.misc.npmath.calc_affine_transform(A['a'], A['b']), dict(a=rs.rand(6, 2), b=rs.rand(6, 2))
    if fn in ('remove_slits', 'slits'):
        img = (rs.rand(2, 40, 44) * .05 + .1).astype('float32')
        img[:, 8:31, 9:35] += 1
        al = tomopy.prep.alignment
        if fn == 'slits':
            return lambda A: al.find_slits_corners_aps_1id(A['a'][0], method='simple'), dict(a=img)
        cor = np.array([[8, 9], [31, 9], [31, 35], [8, 35]], float)
        return lambda A: al.remove_slits_aps_1id(A['a'], cor), dict(a=img)
    if fn == 'shared':
        from tomopy.util import dtype
        return lambda A: dtype.as_sharedmem(A['a'], copy=True), dict(a=a)
    return None


def make(fn, k, n=3):
    """-> (function of the arrays, arrays)"""
    key = ('hist', fn, k)
    r, rs = vt.rng('mk', *key), vt.nprng('mk', *key)
    o = other(fn, r, rs)
    if o is not None:
        return o
    c = catalogue.make(fn, r, rs, n)
    return (lambda A: c(A, **({'ncore': 1} if CORE[0] == 'one' and fn in PAR else {}))), c.arrays


def value(f, arrays, seed):
    """(outcome, value)"""
    if seed is not None:
        np.random.seed(seed)
    A = {x: np.array(a, order='C') for x, a in arrays.items()}
    g, v = vt.call(f, A)
    if g == 'ok':
        v = np.array(v)
    return g, v


PAR = set()


# ------------------------------------------------------------------ cells
def fds():
    out = []
    for x in os.listdir('/proc/self/fd'):
        try:
            out.append((x, os.readlink('/proc/self/fd/' + x)))
        except OSError:
            pass
    return sorted(x for x in out if not x[1].startswith(('/proc', '/dev/urandom', '/dev/shm/pym-', '/tmp/pym-')) and not x[1].endswith(vt.TMP))


def kids():
    mp.active_children()
    try:
        return sorted(open('/proc/self/task/%d/children' % os.getpid()).read().split())
    except OSError:
        return []


def snapshot():
    s = {}
    s['environment'] = dict(os.environ)
    s['directory'] = (os.getcwd(), tuple(sorted(os.listdir('.'))))
    st = np.random.get_state()
    s['random'] = (st[0], hashlib.md5(st[1].tobytes()).hexdigest()) + tuple(st[2:])
    n = ne.set_num_threads(1)
    ne.set_num_threads(n)
    s['numexpr'] = n
    s['errors'] = tuple(sorted(np.geterr().items()))
    s['printing'] = repr(np.get_printoptions())
    s['warnings'] = [(f[0], str(f[1]), str(f[2]), str(f[3])) for f in warnings.filters]
    s['signals'] = [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGUSR1, signal.SIGSEGV)]
    s['descriptors'] = [x[1].split(':')[0] for x in fds() if 'pym-' not in x[1]]
    s['children'] = len(kids())
    s['threads'] = threading.active_count()
    s['path'] = list(sys.path)
    s['logging'] = (logging.root.level, len(logging.root.handlers), logging.getLogger('tomopy').level,
                    len(logging.getLogger('tomopy').handlers), logging.root.manager.disable)
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['rounding'] = LIBC.fegetround() if hasattr(LIBC, 'fegetround') else 0
    s['debug'] = bool(mproc.DEBUG)
    s['modules'] = (os.umask(0o22), os.umask(0o22))
    return s


def changed(a):
    """the cells that are not as in a; what ends on its own is given time"""
    for k in range(40):
        b = snapshot()
        d = [x for x in a if a[x] != b[x]]
        if not [x for x in d if x in ('descriptors', 'children', 'threads')]:
            break
        import gc
        gc.collect()
        time.sleep(.05)
    return d


# ------------------------------------------------------------------ fresh processes
def store(fn, k, core):
    return os.path.join(vt.TMP, 'fresh-%s-%d-%s' % (fn, k, core))


def fresh(c):
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            CORE_set(c['core'])
            f, arrays = make(c['fn'], c['k'])
            g, v = value(f, arrays, 100 + c['k'])
            with open(store(c['fn'], c['k'], c['core']), 'wb') as h:
                pickle.dump((g, v if g == 'ok' else str(v)[:200]), h)
        except BaseException:
            import traceback
            with open(store(c['fn'], c['k'], c['core']) + '.err', 'w') as h:
                h.write(traceback.format_exc())
            code = 1
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return dict(c, status=st)


def CORE_set(x):
    global CORE
    CORE = (x,)


def load(fn, k, core):
    with open(store(fn, k, core), 'rb') as h:
        return pickle.load(h)


# ------------------------------------------------------------------ histories
BAD = ('none', 'rank', 'empty', 'text', 'nested')


def spoil(arrays, r):
    A = dict(arrays)
    k = r.choice(sorted(A))
    a = A[k]
    how = r.choice(BAD)
    A[k] = {'none': None, 'rank': np.array(a).ravel(), 'empty': a[:0], 'text': np.full(a.shape, 'x'),
            'nested': [[1.0, 2.0], [3.0]]}[how]
    return A


def wander(r):
    perturb(r.choice([0, 1, 85, 170, 255]))


def after(c):
    key = str(sorted(c.items()))
    r = vt.rng('after', key)
    CORE_set('none')
    np.random.seed(r.randrange(1000))
    k0, k1 = r.randrange(VARIANTS), r.randrange(VARIANTS)
    env = r.choice([None, None, '2', '3'])
    os.environ.pop('TOMOPY_PYTHON_THREADS', None)
    if env:
        os.environ['TOMOPY_PYTHON_THREADS'] = env
    rec = dict(c, first=[], changed=[], dev=0, fresh='', k=k1)
    f0, a0 = make(c['before'], k0)
    f1, a1 = make(c['fn'], k1)
    want = load(c['fn'], k1, 'none')
    wander(r)
    s = snapshot()
    if c['how'] == 'raise':
        got, v = vt.call(f0, spoil({x: np.array(a) for x, a in a0.items()}, r))
    else:
        got, v = vt.call(f0, {x: np.array(a) for x, a in a0.items()})
    v = None
    rec['first'] = changed(s)
    rec['got'] = got
    wander(r)
    np.random.seed(100 + k1)
    s = snapshot()
    g, v = value(f1, a1, 100 + k1)
    if 'random' in s:
        # the generator is compared with its state right after seeding
        pass
    rec['changed'] = changed(s)
    rec['outcome'], rec['fresh'] = g, want[0]
    if g == 'ok' and want[0] == 'ok':
        rec['dev'] = vt.dev(v, want[1]) if v.dtype == want[1].dtype else vt.BIG
    elif g != 'ok':
        rec['err'] = str(v)[:200]
    return rec


def at_once(c):
    key = str(sorted(c.items()))
    r = vt.rng('once', key)
    CORE_set('one')
    rec = dict(c, first=[], changed=[], dev=0, fresh='ok', outcome='ok', k=0)
    work = [(fn, k) + make(fn, k) for fn, k in ((c['before'], r.randrange(VARIANTS)), (c['fn'], r.randrange(VARIANTS)))]
    wants = [load(w[0], w[1], 'one') for w in work]
    reps = 4
    ready = threading.Barrier(2)
    got = [[], []]
    s = snapshot()

    def thread(i):
        fn, k, f, a = work[i]
        ready.wait()
        got[i] = [value(f, a, None) for _ in range(reps)]
    ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in (0, 1)]
    for t in ts:
        t.start()
    end = time.time() + 25
    for t in ts:
        t.join(max(0, end - time.time()))
    if any(t.is_alive() for t in ts):
        return stuck(rec, ts)
    rec['changed'] = changed(s)
    for i in (0, 1):
        for g, v in got[i] or [('none', 'the thread ended')]:
            if g != wants[i][0]:
                d = vt.BIG
            elif g == 'ok':
                d = vt.dev(v, wants[i][1]) if v.dtype == wants[i][1].dtype else vt.BIG
            else:
                d = 0
            if d:
                rec['dev'] = max(rec['dev'], d)
                rec['err'] = '%s %s %s' % (work[i][0], g, str(v)[:200] if g != 'ok' else '')
    return rec


def stuck(rec, ts):
    """where the calls are"""
    import traceback
    fr = sys._current_frames()
    rec['err'] = ' | '.join(' '.join('%s:%d' % (f.name, f.lineno) for f in traceback.extract_stack(fr[t.ident])[-8:])
                            for t in ts if t.is_alive() and t.ident in fr)
    rec['outcome'] = 'the calls do not end'
    if os.environ.get('VT_GDB'):
        import subprocess
        with open('/tmp/x/gdb-%d' % os.getpid(), 'w') as h:
            subprocess.call(['gdb', '-p', str(os.getpid()), '-batch', '-ex', 'thread apply all bt'], stdout=h, stderr=h, timeout=60)
    return rec


def big(fn, k):
    rs = vt.nprng('big', fn, k)
    a = (rs.rand(24, 60, 64) + .5).astype('float32')
    f, d = (rs.rand(4, 60, 64) + 2).astype('float32'), (rs.rand(2, 60, 64) * .1).astype('float32')
    b = a - np.float32(1)
    b[rs.rand(*b.shape) < .1] = np.nan
    m = tomopy
    return {'minus_log': lambda n: m.minus_log(a, ncore=n), 'normalize': lambda n: m.normalize(a, f, d, cutoff=.6, ncore=n),
            'normalize_nf': lambda n: m.normalize_nf(a, f, d, [0, 23], ncore=n), 'remove_nan': lambda n: m.remove_nan(b.copy(), 3, ncore=n),
            'remove_neg': lambda n: m.remove_neg(a - 1, 2, ncore=n), 'remove_outlier': lambda n: m.remove_outlier(a, .3, 3, ncore=n),
            'remove_outlier1d': lambda n: m.remove_outlier1d(a, .3, 3, ncore=n), 'circ_mask': lambda n: m.circ_mask(a.copy(), 0, .8, ncore=n),
            'pad': lambda n: m.pad(a, 2, 9, ncore=n), 'enhance_projs_aps_1id': lambda n: m.enhance_projs_aps_1id(a[:6], ncore=n)}[fn]


def busy(c):
    """four threads, each with one of the two functions and changing numbers of cores"""
    rec = dict(c, first=[], changed=[], dev=0, fresh='ok', outcome='ok', k=0)
    work = [(c['before'], 0), (c['fn'], 1), (c['before'], 2), (c['fn'], 3)]
    fs = [big(fn, k) for fn, k in work]
    wants = [f(1) for f in fs]
    got = [[] for _ in fs]
    s = snapshot()
    ready = threading.Barrier(len(fs))

    def thread(i):
        ready.wait()
        end = time.time() + (3 if vt.THOROUGH else .7)
        j = 0
        while time.time() < end or j < 8:
            g, v = vt.call(fs[i], 1 + (i + j) % 5)
            got[i].append(vt.dev(v, wants[i]) if g == 'ok' and v.dtype == wants[i].dtype else vt.BIG)
            j += 1
    ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(len(fs))]
    for t in ts:
        t.start()
    end = time.time() + 25
    for t in ts:
        t.join(max(0, end - time.time()))
    if any(t.is_alive() for t in ts):
        return stuck(rec, ts)
    rec['changed'] = changed(s)
    rec['dev'] = max(max(x or [vt.BIG]) for x in got)
    return rec


# ------------------------------------------------------------------ calls that differ in one thing
class Stop(Exception):
    pass


def recorded(fn, k, n=3):
    """the public function that the call uses, and its arguments; the call is not made"""
    f, arrays = make(fn, k, n)
    mods = [tomopy, tomopy.prep.alignment, tomopy.util.misc, tomopy.misc.npmath]
    got, saved = [], []

    def wrap(g):
        def w(*args, **kw):
            got.append((g, args, kw))
            raise Stop()
        return w
    for m in mods:
        for x, g in list(vars(m).items()):
            if inspect.isfunction(g) and g.__module__.startswith('tomopy'):
                saved.append((m, x, g))
                setattr(m, x, wrap(g))
    try:
        f({x: np.array(a, order='C') for x, a in arrays.items()})
    except Stop:
        pass
    finally:
        for m, x, g in saved:
            setattr(m, x, g)
    if not got:
        return None
    g, args, kw = got[0]
    try:
        b = inspect.signature(g).bind(*args, **kw)
    except TypeError:
        return None
    b.apply_defaults()
    a = dict(b.arguments)
    rest = [p.name for p in inspect.signature(g).parameters.values() if p.kind == p.VAR_KEYWORD]
    more = [p.name for p in inspect.signature(g).parameters.values() if p.kind == p.VAR_POSITIONAL]
    if more:
        return None
    for x in rest:
        a.update(a.pop(x))
    if 'ncore' in inspect.signature(g).parameters:
        a['ncore'] = 1
    return g, a


FIXED = {'ncore', 'nchunk', 'out', 'accelerated', 'dpath', 'debug', 'seed', 'sinogram_order', 'algorithm', 'rin', 'rout'}
WORDS = [('none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth'), ('mean', 'median'),
         ('edge', 'constant'), ('left', 'right'), ('WRAP', 'REFLECT'), ('db5', 'haar', 'sym4'), ('horizontal', 'vertical')]
GIVEN = dict(cutoff=.9, center=None)


def differ(x, v, which):
    """another value of the argument; None if there is none"""
    if x in FIXED:
        return None
    if isinstance(v, np.ndarray):
        if v.ndim and v.size > 1:
            w = np.ascontiguousarray(v.ravel()[::-1].reshape(v.shape))
            if not np.array_equal(v, w, equal_nan=v.dtype.kind == 'f'):
                return w
        return (v * 1.25).astype(v.dtype) if v.dtype.kind == 'f' else None
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return (v + 1) % 3 if x == 'axis' else v + 1
    if isinstance(v, float):
        return v * 1.25 if v else .5
    if isinstance(v, str):
        for w in WORDS:
            if v in w:
                w = [y for y in w if y != v]
                return w[which % len(w)]
        return None
    if isinstance(v, (list, tuple)) and v and isinstance(v[0], (int, float)) and not isinstance(v[0], bool):
        w = list(v)
        w[-1] = w[-1] + 1 if isinstance(w[-1], int) else w[-1] * 1.25
        return type(v)(w)
    if v is None:
        return GIVEN.get(x)
    return None


def siblings(fn, k):
    """[(aspect, function, arguments)], the first is the call itself"""
    got = recorded(fn, k)
    if got is None:
        return []
    g, a = got
    out = [('', g, a)]
    for x in sorted(a):
        for which in range(3 if isinstance(a[x], str) else 1):
            w = differ(x, a[x], which)
            if w is not None:
                out.append((x, g, dict(a, **{x: w})))
    out += [('(slices)',) + recorded(fn, k, n) for n in (2, 4)]
    out.append(('(all)',) + recorded(fn, (k + 1) % VARIANTS))
    return out


def flat(v):
    if isinstance(v, (tuple, list)) and any(isinstance(x, (np.ndarray, tuple, list)) for x in v):
        return np.concatenate([flat(x).astype(float).ravel() for x in v] or [np.zeros(0)])
    return np.array(v)


def direct(g, a, k):
    np.random.seed(100 + k)
    o, v = vt.call(lambda: g(**{x: v.copy() if isinstance(v, np.ndarray) else v for x, v in a.items()}))
    return o, flat(v) if o == 'ok' else str(v)[:200]


def fresh_siblings(c):
    fn, k = c['fn'], c['k']
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(50)
            for j, (x, g, a) in enumerate(siblings(fn, k)):
                p = os.fork()
                if p == 0:
                    try:
                        signal.alarm(15)
                        v = direct(g, a, k)
                        with open(store(fn, k, 'sib%d' % j) + '~', 'wb') as h:
                            pickle.dump(v, h)
                        os.rename(store(fn, k, 'sib%d' % j) + '~', store(fn, k, 'sib%d' % j))
                    finally:
                        os._exit(0)
                os.waitpid(p, 0)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    return dict(c, status=0)


def one_thing(c):
    fn, k = c['fn'], c.get('k', 0)
    rec = dict(c, first=[], changed=[], dev=0, fresh='ok', outcome='ok', k=k, aspects=[])
    todo = [(j, s) for j, s in enumerate(siblings(fn, k)) if os.path.exists(store(fn, k, 'sib%d' % j))]
    if not todo or todo[0][0] != 0:
        return rec
    want = {j: load(fn, k, 'sib%d' % j) for j, _ in todo}
    order = []
    for t in todo[1:]:
        order += [todo[0], t]
    order.append(todo[0])
    if vt.THOROUGH:
        r = vt.rng('one thing', fn, k)
        for _ in range(3):
            r.shuffle(todo)
            order += todo
    np.random.seed(100 + k)
    s = snapshot()
    for j, (x, g, a) in order:
        o, v = direct(g, a, k)
        if o != want[j][0]:
            d = vt.BIG
        elif o == 'ok':
            d = vt.dev(v, want[j][1]) if v.dtype == want[j][1].dtype else vt.BIG
        else:
            d = 0
        if d:
            rec['dev'] = max(rec['dev'], d)
            rec.setdefault('err', 'argument %s: %s' % (x or '(after others)', o))
        if x not in rec['aspects']:
            rec['aspects'].append(x)
    rec['changed'] = changed(s)
    return rec


def one(c):
    d = os.path.join(os.path.abspath(vt.TMP), 'cwd-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    if c['kind'] == 'busy':
        return busy(c)
    if c['kind'] == 'sibling':
        return one_thing(c)
    return after(c) if c['kind'] == 'after' else at_once(c)


def main():
    todo = vt.cases()
    fns = sorted({c['fn'] for c in todo} | {c['before'] for c in todo})
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../spec/Contract.tla')):
        l = l.strip()
        if l.startswith('F("') and ('"core"' in l or '"both"' in l):
            PAR.add(l.split('"')[1])
    pre = [dict(fn=f, k=k, core=x) for f in fns for k in range(VARIANTS) for x in ('none', 'one')]
    done = vt.run_cases(pre, fresh, timeout=60)
    if os.environ.get('VT_DEBUG'):
        for c in done:
            g, v = load(c['fn'], c['k'], c['core'])
            sys.stderr.write('%s %d %s %s\n' % (c['fn'], c['k'], g, v if g != 'ok' else (v.dtype, v.shape)))
    for c in done:
        if c.get('status', 1) != 0:
            e = store(c['fn'], c['k'], c['core']) + '.err'
            sys.stderr.write('%s\n%s\n' % (c, open(e).read() if os.path.exists(e) else ''))
            raise SystemExit(9)
    e = [dict(c, k=k) for c in todo if c['kind'] == 'sibling' for k in range(VARIANTS)]
    vt.run_cases([dict(fn=c['fn'], k=c['k']) for c in e], fresh_siblings, timeout=90)
    r = vt.rng('history')
    r.shuffle(todo)
    a = [c for c in todo if c['kind'] == 'after'][:None if vt.THOROUGH else 2200]
    b = [c for c in todo if c['kind'] == 'at once'][:None if vt.THOROUGH else 500]
    d = [c for c in todo if c['kind'] == 'busy'][:None if vt.THOROUGH else 60]
    out = vt.run_cases(e + d + a + b, one, timeout=60, on_fail=lambda c, how: dict(c, outcome='the calls do not end' if how == 'hang' else how))
    # processes are created by fork here, while other threads may hold locks of the C library or of BLAS:
    # a single call that did not end is tried again
    again = [i for i, c in enumerate(out) if c['outcome'] == 'the calls do not end']
    if 0 < len(again) < 3:
        keys = ('kind', 'before', 'how', 'fn')
        for i in again:
            sys.stderr.write('again: %s\n' % json.dumps(vt.clean(out[i])))
            o = vt.run_cases([dict({x: out[i][x] for x in keys}, k=out[i].get('k', 0)) for _ in range(4)], one, procs=2, timeout=60,
                             on_fail=lambda c, how: dict(c, outcome='the calls do not end' if how == 'hang' else how))
            bad = [c for c in o if c['outcome'] == 'the calls do not end']
            out[i] = (bad or o)[0]
    vt.write_trace(out)


main()
