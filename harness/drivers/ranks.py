"""The shares of the processes of an MPI job; a stand-in tells the rank and the number of processes."""
import os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vt
import multiprocessing as mp
from tomopy.util import mproc

JOB = dict(rank=0, size=1, waits=0)


class World(object):
    def Get_rank(self):
        return JOB['rank']

    def Get_size(self):
        return JOB['size']

    rank, size = property(Get_rank), property(Get_size)

    def Barrier(self):
        JOB['waits'] += 1

    barrier = Barrier


mpi = types.ModuleType('mpi4py')
mpi.MPI = types.ModuleType('mpi4py.MPI')
mpi.MPI.COMM_WORLD = World()
sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = mpi, mpi.MPI


def ends(s, n):
    if isinstance(s, slice):
        lo, hi, step = s.indices(n)
        assert step == 1
        return [int(lo), int(hi)]
    return [int(s), int(s) + 1]


def one(c):
    rec = dict(c, cpu=mp.cpu_count(), shares=[], cores=[], waits=[])
    none = lambda v: None if v == -1 else v
    for JOB['rank'] in range(c['size']):
        JOB.update(size=c['size'], waits=0)
        got, v = vt.call(mproc.get_worker_ncore_slices, c['n'], none(c['ncore']), none(c['nchunk']))
        rec['outcome'] = got
        if got != 'ok':
            return dict(rec, error=v)
        rec['cores'].append(int(v[0]))
        rec['shares'].append([ends(s, c['n']) for s in v[1]])
        rec['waits'].append(JOB['waits'])
    return rec


r = vt.rng('ranks')
todo = [dict(n=n, ncore=nc, nchunk=ck, size=s) for n in (1, 2, 3, 5, 8, 11) for nc in (-1, 1, 3, 4) for ck in (-1, 0, 1, 2, 3, 7, 12) for s in (1, 2, 3, 5)]
todo += [dict(n=r.randint(1, 300), ncore=r.choice([-1, 0, 1, 2, 7, 20]), nchunk=r.choice([-1, 0, 1, 4, 13, 64]), size=r.randint(1, 24))
         for _ in range(4000 if vt.THOROUGH else 200)]
vt.write_trace(vt.run_cases(todo, one, on_fail=lambda c, how: dict(c, outcome=how)))
