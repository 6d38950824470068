"""MPI on one process: assumed contract used in place of mpi4py by the proofs"""
from .core import raw, add, and_, eq, le, ge, wrap, Unsupported
from .farr import FArr


class Sub:
    def __init__(self, sizes, subsizes, starts):
        self.sizes, self.sub, self.st = [raw(x) for x in sizes], [raw(x) for x in subsizes], [raw(x) for x in starts]

    def Commit(self):
        return self

    def inside(self, c):
        for a, b, s in zip(self.sizes, self.sub, self.st):
            c.prove('transferred block inside the array', and_(ge(s, 0), ge(b, 0), le(add(s, b), a)))


class Double:
    def Create_subarray(self, sizes, subsizes, starts, order=None):
        return Sub(sizes, subsizes, starts)


class MPIStub:
    """assumed contract of MPI on one process: a message sent to rank r with tag t is received by the posted
    receive from r with tag t when the process is its own neighbour; messages with PROC_NULL do nothing;
    sends read the buffer, receives write it, at completion"""
    PROC_NULL = -2

    def __init__(self, c):
        self.c = c
        self.DOUBLE = Double()
        self.COMM_WORLD = self
        self.Request = self
        self.posted = []

    def Irecv(self, buf, source=None, tag=None):
        self.posted.append(('r', buf, source, tag))
        return self.posted[-1]

    def Isend(self, buf, dest=None, tag=None):
        self.posted.append(('s', buf, dest, tag))
        return self.posted[-1]

    def Waitall(self, req):
        c = self.c
        for r in req:
            r[1][1].inside(c)
        sends = [[r, r[1][0].reader()] for r in req if r[0] == 's' and r[2] != self.PROC_NULL]
        for r in req:
            if r[0] != 'r' or r[2] == self.PROC_NULL:
                continue
            m = [s for s in sends if s[0][3] == r[3] and s[0][2] == r[2]]
            if not m:
                c.prove('every receive has a matching send', False)
                continue
            s = m[0]
            sends.remove(s)
            arr, R = r[1]
            S = s[0][1][1]
            c.prove('same sizes on both ends', and_(*[eq(a, b) for a, b in zip(R.sub, S.sub)]))
            key = tuple(slice(wrap(a), wrap(add(a, b))) for a, b in zip(R.st, R.sub))
            rd, st = s[1], S.st
            arr[key] = FArr.make(tuple(R.sub), lambda idx, rd=rd, st=st: rd(tuple(add(i, a) for i, a in zip(idx, st))), 'R')
        c.prove('every send has a matching receive', not sends)
        self.posted = []

    def __getattr__(self, n):
        raise Unsupported('mpi.%s' % n)
