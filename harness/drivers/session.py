"""Replays the schedules of GenSession into the real code: the threads stop whenever the function they
distribute is called, and go on in the order of the schedule.  Records what the functions were given."""
import os, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import numpy as np
import tomopy
from tomopy.util import mproc

VAR = 'TOMOPY_PYTHON_THREADS'


class Told(Exception):
    pass


class Run(object):
    def __init__(self, prog):
        self.prog = prog
        k = len(prog)
        self.go = [threading.Semaphore(0) for _ in range(k)]
        self.stop = threading.Semaphore(0)
        self.at = [[] for _ in range(k)]
        self.how = ['none'] * k
        self.good = [False] * k
        self.over = False

    # the data of chunk i of the call of depth d of thread t: every value tells where it is from
    @staticmethod
    def data(t, d, n):
        return np.stack([np.full((3, 4), 100 * (t + 1) + 10 * d + i + 1, 'float32') for i in range(n)])

    def called(self, t, d, c, state, given):
        """the function of the call c (depth d of thread t) was called"""
        state['i'] += 1
        v = np.asarray(given)
        tags = np.unique(v)
        tag = int(tags[0]) if tags.size == 1 and tags[0] == int(tags[0]) else 0
        self.at[t] = [tag // 100, tag // 10 % 10, tag % 10]
        self.park(t)
        i = state['i']
        if c['fail'] == i:
            raise Told('told to fail')
        if c['nest'] == i:
            inner = dict(kind=c['inner'], n=1, fail=0, nest=0, inner='dist')
            state['inner'] = self.call(t, d + 1, inner)

    def park(self, t):
        self.stop.release()
        self.go[t].acquire()
        if self.over:
            raise SystemExit

    def call(self, t, d, c):
        """makes the call and tells whether its result is right"""
        a = self.data(t, d, c['n'])
        state = dict(i=0, inner=True)
        if c['kind'] == 'dist':
            def f(x, add):
                self.called(t, d, c, state, x)
                return x * 2 + add
            r = mproc.distribute_jobs(a, f, axis=0, args=(7,), ncore=1, nchunk=1)
            want = a * 2 + 7
        else:
            def algorithm(tomo, center, recon, theta, **kw):
                self.called(t, d, c, state, tomo)
                recon[:] = tomo[:, 0, 0][:, None, None] * 2 + center[:, None, None]
            tomo = a        # sinogram order
            cen = np.arange(1, c['n'] + 1).astype('float32')
            r = tomopy.recon(tomo, np.zeros(3, 'float32'), center=cen, sinogram_order=True, algorithm=algorithm,
                             ncore=1, nchunk=1)
            want = (a[:, 0, 0] * 2 + cen)[:, None, None] * np.ones((1, 4, 4), 'float32')
        return state['inner'] and np.shape(r) == want.shape and np.array_equal(r, want)

    def thread(self, t):
        self.go[t].acquire()
        if self.over:
            return
        c = self.prog[t]
        try:
            self.good[t] = self.call(t, 1, c)
            self.how[t] = 'returned'
        except Told:
            self.how[t] = 'raised'
            self.good[t] = True
        except BaseException as e:
            self.how[t] = 'raised'
            self.err = '%s: %s' % (type(e).__name__, e)
        self.at[t] = []
        self.stop.release()


def one(c):
    prog = c['prog']
    r = vt.rng('session', str(c))
    env = r.choice([0, 0, 1, 5])
    os.environ.pop(VAR, None)
    if env:
        os.environ[VAR] = str(env)
    run = Run(prog)
    ts = [threading.Thread(target=run.thread, args=(t,), daemon=True) for t in range(len(prog))]
    for t in ts:
        t.start()
    seen, out = [], 'ok'
    for t in c['sched']:
        if run.how[t - 1] != 'none':      # it ended before
            seen.append([])
            continue
        run.go[t - 1].release()
        if not run.stop.acquire(timeout=20):
            out = 'a call waits for a call in another thread'
            break
        seen.append(run.at[t - 1])
    run.over = True
    for g in run.go:
        g.release()
    for t in ts:
        t.join(5)
    v = os.environ.pop(VAR, '0')
    return dict(c, outcome=out, seen=seen, how=run.how, good=run.good, env=env, err=getattr(run, 'err', ''),
                after=int(v) if v.isdigit() else -1)


def main():
    r = vt.rng('session')
    todo = vt.cases()
    r.shuffle(todo)
    todo = todo[:len(todo) if vt.THOROUGH else 1600]
    vt.write_trace(vt.run_cases(todo, one, timeout=60, on_fail=lambda c, how: dict(c, outcome=how)))


main()
