"""
A simulated message passing world: N interpreter processes with a stand-in ``mpi4py`` connected to a hub, which runs one of them at
a time. Every communication call is a scheduling point, so a run is a function of the job and the schedule seed. The hub matches
collectives and messages the way MPI does (per communicator, in order) and reports mismatched collectives and deadlocks.
"""
import os, pickle, random, socket, subprocess, sys, traceback
from multiprocessing.connection import Connection

HARNESS = os.path.dirname(os.path.abspath(__file__))


class World(object):
    """Hub side."""

    def __init__(self, size, path, timeout=120):
        self.size, self.timeout = size, timeout
        self.conns, self.procs = [], []
        env = dict(os.environ, OCGIS_USE_NETCDF4_MPI='false', PYTHONPATH=os.pathsep.join(path))
        for r in range(size):
            a, b = socket.socketpair()
            p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HARNESS, 'simmpi.py'), str(b.fileno()), str(r), str(size)],
                                 pass_fds=[b.fileno()], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            b.close()
            self.conns.append(Connection(a.detach()))
            self.procs.append(p)
        self.broken = False

    def close(self):
        for p in self.procs:
            p.kill()
            p.wait()
        for c in self.conns:
            c.close()

    def get(self, rank):
        if not self.conns[rank].poll(self.timeout):
            raise Failed('rank {} does not finish'.format(rank), {})
        try:
            return pickle.loads(self.conns[rank].recv_bytes())
        except EOFError:
            raise Failed('rank {} ended with status {}'.format(rank, self.procs[rank].wait(10)), {})

    def run(self, module, func, args, seed):
        """Results of the ranks or Failed."""
        try:
            return self._run(module, func, args, seed)
        except BaseException:
            self.broken = True
            raise

    def _run(self, module, func, args, seed):
        rng = random.Random(seed)
        comms = {0: list(range(self.size))}
        ready = {r: ('job', module, func, args) for r in range(self.size)}
        pending, waiting, mail, results, errors, trace = {}, {}, {}, {}, {}, 0
        while True:
            if not ready:
                if len(results) == self.size:
                    return [results[r] for r in range(self.size)]
                if errors:
                    raise Failed('error on ranks {}'.format(sorted(errors)), errors)
                stuck = {r: describe(pending.get(r) or waiting.get(r)) if r not in results else 'finished' for r in range(self.size)}
                raise Failed('deadlock: ' + str(stuck), {})
            rank = rng.choice(sorted(ready))
            self.conns[rank].send_bytes(pickle.dumps(ready.pop(rank)))
            m = self.get(rank)
            kind = m[0]
            trace += 1
            if kind == 'result':
                results[rank] = m[1]
            elif kind == 'error':
                errors[rank] = m[1]
                if m[2]:
                    raise Failed('abort on rank {}'.format(rank), errors)
            elif kind == 'send':
                _, comm, me, dest, tag, payload = m
                mail.setdefault((comm, me, dest, tag), []).append(payload)
                ready[rank] = ('value', None)
            elif kind in ('recv', 'test'):
                _, comm, me, source, tag = m
                q = mail.get((comm, source, me, tag))
                if q:
                    ready[rank] = ('value', (True, q.pop(0)))
                elif kind == 'test':
                    ready[rank] = ('value', (False, None))
                else:
                    waiting[rank] = m
            elif kind == 'coll':
                pending[rank] = m
                _, comm, op, root, payload = m
                members = comms[comm]
                if all(pending.get(r, (0, None))[1] == comm for r in members):
                    ops = {pending[r][2:4] for r in members}
                    if len(ops) > 1:
                        raise Failed('mismatched collectives ' + str({r: describe(pending[r]) for r in members}), {})
                    ps = [pending.pop(r)[4] for r in members]
                    for r, v in zip(members, self.collective(op, root, ps, comms, members)):
                        ready[r] = ('value', v)
            # Messages for ranks blocked in a receive.
            for r, (k, comm, me, source, tag) in list(waiting.items()):
                q = mail.get((comm, source, me, tag))
                if q:
                    ready[r] = ('value', (True, q.pop(0)))
                    del waiting[r]

    @staticmethod
    def collective(op, root, ps, comms, members):
        n = len(ps)
        if op == 'barrier':
            return [None] * n
        if op == 'bcast':
            return [ps[root]] * n
        if op == 'gather':
            return [ps if i == root else None for i in range(n)]
        if op == 'scatter':
            v = ps[root]
            if len(v) != n:
                raise Failed('scatter of {} values to {} ranks'.format(len(v), n), {})
            return list(v)
        if op.startswith('reduce'):
            return [ps if i == root else None for i in range(n)]
        if op == 'create':
            if len(set(ps)) > 1:
                raise Failed('communicator created with different groups {}'.format(ps), {})
            k = max(comms) + 1
            comms[k] = list(ps[0])
            return [(k, ps[0]) for _ in range(n)]
        raise Failed('unsupported collective {}'.format(op), {})


def describe(m):
    if m is None:
        return None
    return '{} {}'.format(m[0] if m[0] != 'coll' else m[2], m[1:4] if m[0] != 'coll' else 'on communicator {}'.format(m[1]))


class Failed(Exception):
    def __init__(self, msg, errors):
        super(Failed, self).__init__(msg)
        self.errors = errors


# Rank side --------------------------------------------------------------------------------------------------------------------------

class Abort(BaseException):
    pass


class Null(object):
    def __getattr__(self, n):
        raise RuntimeError('invalid communicator')


class Group(object):
    def __init__(self, ranks):
        self.world = list(ranks)

    def Incl(self, ranks):
        return Group([self.world[r] for r in ranks])

    def Free(self):
        pass


class Request(object):
    def __init__(self, comm=None, source=None, tag=None, buf=None, inverse=False):
        self.comm, self.source, self.tag, self.buf = comm, source, tag, buf
        self.done = comm is None

    def finish(self, kind):
        if not self.done:
            ok, v = self.comm.link((kind, self.comm.key, self.comm.Get_rank(), self.source, self.tag))
            if not ok:
                return False, None
            self.done, self.value = True, pickle.loads(v)
            if self.buf is not None:
                self.buf[:] = self.value
        return True, getattr(self, 'value', None)

    def wait(self):
        return self.finish('recv')[1]

    Wait = wait

    def Test(self):
        return self.finish('test')[0]

    def test(self):
        return self.finish('test')

    def Cancel(self):
        self.done = True

    def Free(self):
        pass


class Comm(object):
    def __init__(self, link, key, members, world_rank):
        self.link, self.key, self.members, self.me = link, key, list(members), world_rank

    def Get_rank(self):
        return self.members.index(self.me)

    def Get_size(self):
        return len(self.members)

    def Get_group(self):
        return Group(self.members)

    def coll(self, op, root, payload):
        return self.link(('coll', self.key, op, root, payload))

    def Barrier(self):
        self.coll('barrier', 0, None)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        mine = self.Get_rank() == root
        v = self.coll('bcast', root, pickle.dumps(obj) if mine else None)
        return obj if mine else pickle.loads(v)

    def gather(self, obj, root=0):
        v = self.coll('gather', root, pickle.dumps(obj))
        return None if v is None else [pickle.loads(q) for q in v]

    def allgather(self, obj):
        return self.bcast(self.gather(obj))

    def scatter(self, obj=None, root=0):
        return pickle.loads(self.coll('scatter', root, [pickle.dumps(q) for q in obj] if self.Get_rank() == root else None))

    def reduce(self, obj, op='SUM', root=0):
        v = self.coll('reduce ' + op, root, pickle.dumps(obj))
        if v is None:
            return None
        v = [pickle.loads(q) for q in v]
        return {'SUM': sum, 'MIN': min, 'MAX': max}[op](v)

    def allreduce(self, obj, op='SUM'):
        return self.bcast(self.reduce(obj, op))

    def Create(self, group):
        key, members = self.coll('create', 0, tuple(group.world))
        return Comm(self.link, key, members, self.me) if self.me in members else COMM_NULL

    def Free(self):
        pass

    def send(self, obj, dest, tag=0):
        self.link(('send', self.key, self.Get_rank(), dest, tag, pickle.dumps(obj)))

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request()

    def Isend(self, buf, dest, tag=0):
        buf = buf[0] if isinstance(buf, (list, tuple)) else buf
        return self.isend(buf, dest, tag)

    def recv(self, source, tag=0):
        return self.irecv(source, tag).wait()

    def irecv(self, source, tag=0):
        return Request(self, source, tag)

    def Irecv(self, buf, source, tag=0):
        buf = buf[0] if isinstance(buf, (list, tuple)) else buf
        return Request(self, source, tag, buf)

    def Abort(self, errorcode=0):
        raise Abort(errorcode)


COMM_NULL = Null()


def main(fd, rank, size):
    import types, importlib
    conn = Connection(fd)

    def link(m):
        conn.send_bytes(pickle.dumps(m))
        return pickle.loads(conn.recv_bytes())[1]

    mpi = types.ModuleType('mpi4py.MPI')
    mpi.COMM_WORLD = Comm(link, 0, range(size), rank)
    mpi.COMM_NULL = COMM_NULL
    mpi.SUM, mpi.MIN, mpi.MAX = 'SUM', 'MIN', 'MAX'
    mpi.INT, mpi.LONG_LONG = 'INT', 'LONG_LONG'
    mpi.Comm, mpi.Request = Comm, Request
    pkg = types.ModuleType('mpi4py')
    pkg.MPI, pkg.__path__ = mpi, []
    sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = pkg, mpi
    import numpy as np
    np.seterr(all='ignore')
    import ocgis
    from ocgis import vm
    while True:
        try:
            _, module, func, args = pickle.loads(conn.recv_bytes())
        except EOFError:
            return
        try:
            r = ('result', getattr(importlib.import_module(module), func)(**args))
            pickle.dumps(r)
        except Abort:
            r = ('error', traceback.format_exc(), True)
        except Exception as e:
            r = ('error', traceback.format_exc(), False)
        ocgis.env.reset()
        conn.send_bytes(pickle.dumps(r))


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]))
