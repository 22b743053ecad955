#!/usr/bin/env python3
"""seed.py confirm|catch|both ID...   planted bugs, in a scratch copy of /repo under /tmp.
confirm: the patch applies, builds, the stable tests pass, demo.sh passes without and fails with it.
catch:   the check of the bug's property (or CHECKS=C01,C02) reports it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def one(mode, sid):
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed-')
    msgs = []
    try:
        for which in ('clean', 'bug'):
            if which == 'clean' and mode == 'catch':
                continue
            repo, lib = tmp + '/' + which, tmp + '/lib-' + which
            sh('git clone -q /repo %s' % repo)
            if which == 'bug':
                rc, o = sh('git apply %s/patch.diff' % d, cwd=repo)
                if rc:
                    return sid, ['PATCH DOES NOT APPLY ' + o]
            rc, o = sh('cmake -S %s -B %s -GNinja -DCMAKE_BUILD_TYPE=Release -DTOMOPY_USE_MKL=OFF -DTOMOPY_USE_CUDA=OFF '
                       '-DTOMOPY_USE_OPENCV=OFF -DPYTHON_EXECUTABLE=%s && cmake --build %s' % (repo, lib, PY, lib),
                       env=dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], CC='/usr/bin/gcc', CXX='/usr/bin/g++'))
            if rc:
                return sid, ['BUILD FAILS ' + o[-500:]]
            env = dict(os.environ, PYTHONPATH=repo + '/source', LD_LIBRARY_PATH=lib, SEED_LIB=lib, MKL_THREADING_LAYER='SEQUENTIAL',
                       PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            if mode in ('confirm', 'both'):
                rc, o = sh(['timeout', '300', 'bash', d + '/demo.sh'], cwd=repo, env=env)
                msgs.append('demo %s: %d%s' % (which, rc, '' if (rc == 0) == (which == 'clean') else '  <<<<< WRONG ' + o[-600:]))
                if which == 'bug':
                    rc, o = sh('%s -m pytest -q -p no:cacheprovider -o junit_family=xunit2 --randomly-seed=0 '
                               '--randomly-dont-reorganize --timeout=120 --junitxml=%s/r.xml test' % (PY, tmp), cwd=repo, env=env)
                    sh('%s /opt/vp/results.py %s/o.json junit:%s/r.xml' % (PY, tmp, tmp), cwd=repo)
                    got = set(json.load(open(tmp + '/o.json'))['passed'])
                    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                    miss = want - got
                    msgs.append('tests ok' if not miss else 'TESTS BROKEN <<<<< %s' % sorted(miss)[:4])
            if which == 'bug' and mode in ('catch', 'both'):
                for pid in os.environ.get('CHECKS', meta['property']).split(','):
                    e = dict(os.environ, VT_REPO=repo, VT_LIBDIR=lib, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
                    rc, o = sh(['python3', ROOT + '/harness/check.py', pid, 'quick'], cwd=ROOT, env=e)
                    last = [x for x in o.splitlines() if x.startswith(('VIOLATION', 'rejected', 'MACH'))]
                    msgs.append('%s: %s %s' % (pid, {0: 'MISSED <<<<<', 1: 'caught'}.get(rc, 'ERROR <<<<< %d %s' % (rc, o[-800:])),
                                               last[0][:160] if last else ''))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return sid, msgs


mode, ids = sys.argv[1], sys.argv[2:]
if not ids:
    ids = sorted(os.listdir(ROOT + '/seeded'))
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for sid, msgs in ex.map(lambda s: one(mode, s), ids):
        print(sid + ': ' + ' | '.join(msgs), flush=True)
