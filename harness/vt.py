"""Common code of the drivers: they run under the repository's Python."""
import json, os, random, select, signal, sys, tempfile, time, traceback
import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
TMP = os.environ.get('VT_TMP') or tempfile.gettempdir()
MKL = bool(os.environ.get('VT_MKL'))        # the other implementation of the transforms
if MKL:
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standin'))
    SEED = '%s-mkl' % SEED
FEW = float(os.environ.get('VT_FEW') or 1)  # share of the cases


def rng(*key):
    return random.Random('%s/%s' % (SEED, '/'.join(map(str, key))))


def nprng(*key):
    return np.random.RandomState(rng(*key).randrange(2 ** 31))


def cases():
    return [json.loads(x) for x in open(os.environ['CASES'])]


def write_trace(recs):
    with open(os.environ['TRACE'], 'w') as f:
        for r in recs:
            f.write(json.dumps(clean(r)) + '\n')


def clean(x):
    """JSON that TLC reads: integers, strings, booleans, lists, records."""
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return clean(x.tolist())
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        assert -2 ** 31 <= x < 2 ** 31, x
        return int(x)
    if isinstance(x, str):
        return x
    raise TypeError(repr(x))


# ------------------------------------------------------------------ running
def _serve(fn, rd, wr, todo):
    os.setsid()
    f = os.fdopen(wr, 'w')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    for i, c in todo:
        f.write('S %d\n' % i)
        f.flush()
        try:
            r = fn(c)
        except BaseException as e:    # the driver itself failed: never a verdict
            r = {'_driver_error': traceback.format_exc()}
        f.write('R %d %s\n' % (i, json.dumps(clean(r))))
        f.flush()
    f.write('E\n')
    f.flush()
    os._exit(0)


def run_cases(todo, fn, procs=None, timeout=60, on_fail=None, budget=None, retry=True):
    """fn(case) -> record, in forked workers.  A case that kills its process or does not end
    is recorded by on_fail(case, 'crash'|'hang').  After a number of those, or when the time
    is up, the cases that have not been run are left out."""
    todo = list(todo)
    procs = procs or min(8, os.cpu_count() or 1)
    if on_fail is None:
        def on_fail(c, how):
            return dict(c, outcome=how)
    results = {}
    failed = 0
    deadline = time.time() + (budget or float(os.environ.get('VT_BUDGET', 300 if not THOROUGH else 4500)))
    queue = list(enumerate(todo))
    batches = [queue[k::procs] for k in range(procs)]
    live = {}

    def start(batch):
        if not batch:
            return
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                _serve(fn, rd, wr, batch)
            finally:
                os._exit(77)
        os.close(wr)
        live[rd] = dict(pid=pid, batch=batch, cur=None, t=time.time(), buf='', done=False)

    for b in batches:
        start(b)
    while live:
        stop = failed >= 12 or time.time() > deadline
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for rd in list(live):
            w = live[rd]
            eof = False
            if rd in ready:
                data = os.read(rd, 1 << 20).decode()
                if not data:
                    eof = True
                w['buf'] += data
                while '\n' in w['buf']:
                    line, w['buf'] = w['buf'].split('\n', 1)
                    if line[0] == 'S':
                        w['cur'] = int(line[2:])
                        w['t'] = time.time()
                    elif line[0] == 'R':
                        _, i, js = line.split(' ', 2)
                        results[int(i)] = json.loads(js)
                        w['cur'] = None
                        w['t'] = time.time()
                    elif line[0] == 'E':
                        w['done'] = True
            hang = not eof and w['cur'] is not None and time.time() - w['t'] > timeout
            dead = False
            if not eof and not hang and not w['done']:
                # a killed process may leave children that keep the pipe open
                if w.get('reaped'):
                    # its output was complete before this round's select
                    dead = rd not in ready
                else:
                    p, _ = os.waitpid(w['pid'], os.WNOHANG)
                    w['reaped'] = bool(p)
            if w['done'] or eof or hang or dead or stop:
                try:
                    os.killpg(w['pid'], signal.SIGKILL)
                except Exception:
                    pass
                if not w.get('reaped'):
                    try:
                        os.kill(w['pid'], signal.SIGKILL)
                    except Exception:
                        pass
                    os.waitpid(w['pid'], 0)
                os.close(rd)
                del live[rd]
                if not w['done']:
                    rest = [(i, c) for i, c in w['batch'] if i not in results]
                    if stop and not (eof or hang or dead):
                        rest = []
                    elif w['cur'] is not None:
                        failed += 1
                        i = w['cur']
                        results[i] = on_fail(todo[i], 'hang' if hang else 'crash')
                        rest = [(j, c) for j, c in rest if j != i]
                    elif rest:
                        failed += 1
                        i = rest[0][0]
                        results[i] = on_fail(todo[i], 'crash')
                        rest = rest[1:]
                    if not stop:
                        start(rest)
    bad = [i for i in results if '_driver_error' in results[i]]
    for i in bad:
        # the driver itself failed: its process may have been damaged by an earlier case
        if retry:
            r = run_cases([todo[i]], fn, 1, timeout, on_fail, budget, False)
            results[i] = r[0] if r else on_fail(todo[i], 'crash')
        else:
            sys.stderr.write(results[i]['_driver_error'])
            raise SystemExit(9)
    out = [results[i] for i in range(len(todo)) if i in results]
    if len(out) < len(todo):
        sys.stderr.write('%d of %d cases were not run\n' % (len(todo) - len(out), len(todo)))
    return out


# ------------------------------------------------------------------ values
def bits(a):
    """float32 array -> its bit patterns as int32"""
    return np.ascontiguousarray(a, dtype=np.float32).view(np.int32)


BIG = 2 ** 30


def dev(a, ref):
    """largest |a-ref| in units of 1e-7 of the largest |ref|; BIG if not comparable"""
    a = np.asarray(a)
    ref = np.asarray(ref)
    if a.shape != ref.shape:
        return BIG
    if a.size == 0:
        return 0
    if a.dtype == bool or ref.dtype == bool:
        return 0 if np.array_equal(a, ref) else BIG
    na, nr = ~np.isfinite(a), ~np.isfinite(ref)
    if (na != nr).any() or not np.array_equal(a[na], ref[nr], equal_nan=True):
        return BIG
    x = np.where(na, 0, a).astype(np.float64)
    y = np.where(nr, 0, ref).astype(np.float64)
    d = np.abs(x - y).max()
    if d == 0:
        return 0
    s = max(np.abs(y).max(), np.abs(x).max(), 1e-30)
    return int(min(BIG, np.ceil(d / s * 1e7)))


def devs(a, ref, axis):
    """dev per slice along axis"""
    a, ref = np.asarray(a), np.asarray(ref)
    if a.shape != ref.shape:
        return [BIG]
    s = max(1e-30, np.nanmax(np.abs(np.where(np.isfinite(ref), ref, 0)))) if ref.size else 1
    out = []
    for i in range(a.shape[axis]):
        x, y = np.take(a, i, axis), np.take(ref, i, axis)
        out.append(dev(x, y))
    return out


def call(f, *a, **k):
    """(outcome, value or exception text)"""
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'raise', '%s: %s' % (type(e).__name__, e)


# ------------------------------------------------------------------ arrays
LAYOUTS = ['C', 'C', 'F', 'T', 'S', 'N', 'O', 'H', 'G', 'P']


def dress(a, r, dtypes=('float32',), layouts=None):
    """the same values in another dtype / memory layout -> (array, description)"""
    dt = r.choice(list(dtypes))
    a = np.ascontiguousarray(a)
    if a.dtype.kind in 'iu' and dt != 'bool' and not np.array_equal(a.astype(dt), a):     # a type that holds them
        dt = next((d for d in dtypes if np.array_equal(a.astype(d), a)), dt)
    a = a.astype(dt)
    lay = r.choice(layouts or LAYOUTS)
    return layout(a, lay), '%s/%s' % (dt, lay)


def layout(a, lay):
    if lay == 'C':
        return np.array(a, order='C')
    if lay == 'R':      # read-only
        b = np.array(a, order='C')
        b.setflags(write=False)
        return b
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'T':      # transposed view
        return np.ascontiguousarray(a.transpose(tuple(range(a.ndim))[::-1])).transpose(
            tuple(range(a.ndim))[::-1])
    if lay == 'S':      # strided view
        b = np.full([2 * s + 1 for s in a.shape], 77, a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if lay == 'N':      # negative strides
        b = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    if lay == 'O':      # view into a larger array
        b = np.full([s + 3 for s in a.shape], 55, a.dtype)
        v = b[tuple(slice(1, 1 + s) for s in a.shape)]
        v[...] = a
        return v
    if lay == 'H':      # shared memory
        from tomopy.util import dtype as td
        if a.dtype != np.float32:
            return np.array(a, order='C')
        return td.as_sharedmem(a, copy=True)
    if lay in ('G', 'P'):      # transposed shared memory; a part of shared memory
        from tomopy.util import dtype as td
        if a.dtype != np.float32:
            return layout(a, 'T' if lay == 'G' else 'O')
        if lay == 'G':
            v = td.empty_shared_array(a.shape[::-1]).transpose()
        else:
            v = td.empty_shared_array((a.shape[0] + 2,) + a.shape[1:])
            v[:] = 33
            v = v[1:-1]
        v[...] = a
        return v
    raise ValueError(lay)


def arr3(a):
    """trace form of an array of integers (any number of dimensions up to 3)"""
    a = np.asarray(a)
    sh = list(a.shape)
    if a.dtype == bool:
        a = a.astype(int)
    if a.dtype.kind == 'f':
        bad = ~np.isfinite(a)
        b = np.where(bad, 0, a)
        enc = np.rint(b)
        # a value that is not an integer cannot be a right answer: give it a code of its own
        enc = np.where((enc != b) | (np.abs(b) > 10 ** 8), 1000009, enc)
        enc = np.where(np.isnan(a), 1000001, enc)
        enc = np.where(bad & ~np.isnan(a) & (a > 0), 1000002, enc)
        enc = np.where(bad & ~np.isnan(a) & (a < 0), 1000003, enc)
        a = enc
    return {'sh': sh, 'v': [int(x) for x in a.ravel().tolist()]}


NONE = {'sh': [0, 0, 0], 'v': []}
INTDT = ('float32', 'float32', 'float32', 'float64', 'int16', 'uint16', 'int32', 'uint8', 'int64')


def pick_axis(r, nd=3):
    ax = r.randrange(nd)
    return ax - nd if r.random() < 0.2 else ax


def ncores(r):
    return r.choice([None, None, 1, 2, 3, 5])


# ------------------------------------------------------------------ real numbers
def dbl(a):
    """an array of floats as nested lists of <<high, low>> halves of the binary64 patterns"""
    a = np.asarray(a, dtype=np.float64)
    v = np.ascontiguousarray(a).reshape(-1).view(np.int64)
    hi = (v >> 32).astype(np.int64)
    lo = (v & 0xffffffff).astype(np.uint32).view(np.int32)
    pairs = np.stack([hi, lo.astype(np.int64)], -1)
    return pairs.reshape(a.shape + (2,)).tolist()
