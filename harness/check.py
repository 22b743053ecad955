#!/usr/bin/env python3
"""Decide one property:  check.py <ID> <quick|thorough>

1. build the C libraries of the current /repo working tree into a scratch folder
2. TLC checks the property's state machine(s) exhaustively within small constants
3. TLC (or a seeded driver) produces cases; the driver runs the real code on them
   and records a trace of observable events
4. TLC validates the trace against the specification; every rejected record is
   reported with the clause that failed
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Any other exit: the machinery itself failed.
"""
import atexit, importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VT_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
import registry                                                   # noqa: E402

T0 = time.time()
TMP = tempfile.mkdtemp(prefix='vt-')
CHILDREN = []


def cleanup():
    for p in CHILDREN:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(cleanup)
for _s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
    signal.signal(_s, lambda *_: sys.exit(3))


def die(msg):
    print('MACHINERY ERROR: ' + msg, flush=True)
    sys.exit(2)


def log(msg):
    print('[%6.1fs] %s' % (time.time() - T0, msg), flush=True)


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True, **kw)
    CHILDREN.append(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = -999
    try:
        os.killpg(p.pid, signal.SIGKILL)   # stragglers
    except Exception:
        pass
    return rc, out


# ---------------------------------------------------------------- build
def build():
    lib = os.environ.get('VT_LIBDIR')
    if lib:
        return lib
    lib = os.path.join(TMP, 'lib')
    os.mkdir(lib)
    env = {'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'CC': '/usr/bin/gcc', 'CXX': '/usr/bin/g++', 'HOME': TMP,
           'MKL_THREADING_LAYER': 'SEQUENTIAL', 'PYTHONDONTWRITEBYTECODE': '1'}
    rc, out = run(['cmake', '-S', REPO, '-B', lib, '-GNinja', '-DCMAKE_BUILD_TYPE=Release',
                   '-DTOMOPY_USE_MKL=OFF', '-DTOMOPY_USE_CUDA=OFF', '-DTOMOPY_USE_OPENCV=OFF',
                   '-DPYTHON_EXECUTABLE=' + PY], 300, env=env)
    if rc == 0:
        rc, out = run(['cmake', '--build', lib], 600, env=env)
    if rc != 0:
        print(out[-4000:])
        die('the C libraries do not build')
    return lib


# ---------------------------------------------------------------- TLC
class TlcResult(object):
    pass


OVERRIDES = os.path.join(ROOT, 'build', 'classes')


def ensure_overrides():
    """Compile the Java implementations of the arithmetic modules if setup has not."""
    src = os.path.join(SPEC, 'java')
    if not os.path.isdir(src):
        return None
    out = OVERRIDES
    srcs = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith('.java'))
    stamp = max(os.path.getmtime(s) for s in srcs)
    done = os.path.join(out, '.done')
    if not (os.path.exists(done) and os.path.getmtime(done) >= stamp):
        out = os.path.join(TMP, 'classes')
        os.makedirs(out, exist_ok=True)
        rc, o = run(['javac', '-nowarn', '-cp', TLA, '-d', out] + srcs, 120)
        if rc != 0:
            print(o)
            die('javac failed')
    return out


def tlc(module, cfg, workers=8, timeout=600, env=None, extra=(), heap='4g'):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=TMP)
    cp = TLA
    ov = ensure_overrides()
    if ov:
        cp = ov + ':' + cp
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC,
           '-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + '.tla')]
    t = time.time()
    rc, out = run(cmd, timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out, r.wall = rc, out, time.time() - t
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
    m = re.findall(r'([\d]+) states generated\s+([\d]+) distinct states found',
                   out.replace(',', ''))
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r'number of states generated: (\d+)', out.replace(',', ''))
    if m and not r.generated:
        r.generated = r.distinct = int(m[-1])
    r.ok = rc == 0 and ('No error has been found' in out or 'Progress' in out and rc == 0)
    r.violated = rc in (10, 11, 12, 13)
    return r


# ---------------------------------------------------------------- main
def findings(pid):
    out = []
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = registry.PROPS[pid]
    pool = ThreadPoolExecutor(max_workers=4)
    fbuild = pool.submit(build)

    states = trans = 0
    models = []
    # -- 2. the design: exhaustive model checking of the state machines
    for mod, cfg, kw in () if os.environ.get('VT_NOMODELS') else P.get('models', {}).get(tier, P.get('models', {}).get('quick', [])):
        kw = dict(kw)
        want = kw.pop('min_states', 2)
        r = tlc(mod, cfg, **kw)
        if not r.ok or r.distinct < want:
            print(r.out[-6000:])
            die('model %s/%s did not check (rc=%s, %s states)' % (mod, cfg, r.rc, r.distinct))
        log('model %s (%s): %d states, %d transitions, no error' % (mod, cfg, r.distinct, r.generated))
        states += r.distinct
        trans += r.generated
        models.append({'module': mod, 'cfg': cfg, 'distinct_states': r.distinct,
                       'states_generated': r.generated, 'wall_s': round(r.wall, 1)})

    lib = fbuild.result()
    log('libraries built from ' + REPO)
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=lib, MKL_THREADING_LAYER='SEQUENTIAL', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.path.join(REPO, 'source'), VT_TMP=TMP, PYTHONHASHSEED='0',
               VERIF_TIER=tier, VERIF_SEED=str(seed), TMPDIR=TMP, HOME=TMP)
    for k in ('TOMOPY_PYTHON_THREADS', 'OMP_NUM_THREADS'):
        env.pop(k, None)

    # -- 3./4. conformance
    rejects, nrec, samples, covers = [], 0, [], {}
    validated = 0
    for stage in P['stages']:
        stage = dict(stage)
        name = stage.get('name', stage['driver'])
        trace = os.path.join(TMP, name + '.trace.ndjson')
        cases = os.path.join(TMP, name + '.cases.ndjson')
        senv = dict(env)
        senv.update(TRACE=trace, CASES=cases)
        senv.update(stage.get('env', {}))
        if 'gen' in stage:
            gmod, gcfg, kw = stage['gen'][tier] if tier in stage['gen'] else stage['gen']['quick']
            r = tlc(gmod, gcfg, env=dict(stage.get('env', {}), CASES=cases), **kw)
            if not r.ok or not os.path.exists(cases):
                print(r.out[-4000:])
                die('case generator %s failed' % gmod)
            states += r.distinct
            trans += r.generated
            log('generator %s: %d states, %d cases' % (gmod, r.distinct, sum(1 for _ in open(cases))))
        drv = os.path.join(HERE, 'drivers', stage['driver'] + '.py')
        limit = stage.get('timeout', {}).get(tier, 400 if tier == 'quick' else 6000)
        rc, out = run([PY, '-W', 'ignore', drv], limit, env=senv, cwd=TMP)
        if rc != 0 or not os.path.exists(trace):
            print(out[-6000:])
            die('driver %s failed (rc=%s)' % (name, rc))
        recs = [json.loads(x) for x in open(trace)]
        if not recs:
            die('driver %s recorded nothing' % name)
        log('driver %s: %d records' % (name, len(recs)))
        for mod, cfg in stage['conform']:
            r = tlc(mod, cfg, env={'TRACE': trace}, timeout=limit, heap='8g')
            # TLC breaks long values into lines
            m = [(p, re.sub(r'\s+', ' ', c)) for p, c in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)\s*>>', r.out, re.S)]
            if not m and '"REJECT"' in r.out:
                print(r.out[-6000:])
                die('trace validation %s: a rejected record could not be read' % mod)
            if stage.get('stateful'):
                acc = re.findall(r'<<\s*"ACCEPT",\s*(\d+)', r.out)
                judged = len(set(acc) | set(p for p, _ in m))
            else:
                judged = r.distinct
            bad = None
            if not r.ok and 'Error: Evaluating invariant' in r.out and re.search(
                    'Overflow when computing|Attempted to|In evaluation', r.out):
                # a result so far from what is specified that the equations do not
                # even have a value for it (all records of the original tree have one)
                bad = re.findall(r'^(?:/\\ )?pos = (\d+)', r.out[r.out.index('Error:'):], re.M)
            if bad:
                m.append((bad[-1], '{"far out of the specified range"}'))
            elif not r.ok or judged != len(recs):
                print(r.out[-6000:])
                die('trace validation %s: rc=%s, %d of %d records judged' % (mod, r.rc, judged, len(recs)))
            states += r.distinct
            trans += r.generated
            log('trace %s checked by %s: %d states, %d rejected records' % (name, mod, r.distinct, len(m)))
            seen = set()
            for pos, clause in m:
                if (pos, clause) not in seen:
                    seen.add((pos, clause))
                    rejects.append((name, int(pos), clause, recs[int(pos) - 1], mod))
        nrec += len(recs)
        validated += len(recs)
        for rec in recs:
            k = name + ':' + str(rec.get('op', rec.get('kind', '?')))
            covers[k] = covers.get(k, 0) + 1
        for rec in recs[:2] + recs[len(recs) // 2:len(recs) // 2 + 1]:
            s = json.dumps(rec)
            samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + '...')

    # -- verdict
    known = findings(pid)
    fresh, matched = [], set()
    for name, pos, clause, rec, mod in rejects:
        # every clause that failed must be one that is listed for this record
        hits = []
        for c in re.findall(r'"([^"]*)"', clause) or [clause]:
            hits.append(next((i for i, k in enumerate(known) if k['clause'] == c and
                              all(rec.get(a) == b for a, b in k['match'].items())), None))
        if None in hits:
            fresh.append((name, pos, clause, rec, mod))
        else:
            matched.update(hits)
    for i in sorted(matched):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[i]['what']))
    wall = time.time() - T0
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans,
                       'traces_validated_against_impl': validated,
                       'records_by_operation': covers, 'models': models, 'samples': samples[:6]},
          'assumptions': P.get('assumptions', []), 'wall_s': round(wall, 1),
          'violations': len(fresh)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        rdir = os.path.join(ROOT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (pid, tier))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed,
                       'rerun': 'VERIF_SEED=%d python3 harness/check.py %s %s' % (seed, pid, tier),
                       'rejected': [{'stage': a, 'record_number': b, 'failed': c, 'spec': m, 'record': d}
                                    for a, b, c, d, m in fresh[:20]]}, f, indent=1)
        for a, b, c, d, m in fresh[:8]:
            s = json.dumps(d)
            print('rejected by %s: record %d of %s, clause %s: %s' % (m, b, a, c, s[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    log('property %s held: %d records of real executions accepted' % (pid, nrec))
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:     # noqa
        import traceback
        traceback.print_exc()
        print('MACHINERY ERROR: %r' % (e,))
        sys.exit(2)
