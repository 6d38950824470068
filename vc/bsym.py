"""the boundary conditions on symbolic lists of links (C16, C17, C18)"""
import shutil
import tempfile
from .dom import STENCILS as DSTENCILS, dico

# velocities of two cells in every direction
STENCILS = dict(DSTENCILS, **{'d3 wide': (3, [[0, 3, 4, 5, 6, 27, 28, 38, 39, 53, 56]])})

# symmetric stencils
SYM = [n for n in STENCILS if n not in ('d1 one sided',)]


def is_symmetric(name):
    from .schemes import vectors
    dim, vels = STENCILS[name]
    for l in vels:
        V = {tuple(v) for v in vectors(dim, l)}
        if any(tuple(-a for a in v) not in V for v in V):
            return False
    return True


def names():
    return [n for n in STENCILS if is_symmetric(n)]


class Wrapped:
    """the real stencil; its integer tables are given as functional arrays, indexable by symbolic integers"""

    def __init__(self, st):
        self._st = st

    def __getattr__(self, n):
        return getattr(self._st, n)

    def get_symmetric(self, *a, **k):
        from .farr import FArr
        return FArr.from_nd(self._st.get_symmetric(*a, **k))

    def get_all_velocities(self):
        from .farr import FArr
        return FArr.from_nd(self._st.get_all_velocities())


def stencil(name):
    import pylbm
    dim, vels = STENCILS[name]
    return pylbm.Stencil(dict(dim=dim, schemes=[dict(velocities=list(v)) for v in vels]), need_validation=False)


class Links:
    """n links of a stencil on a grid of shape[d] = size[d] + 2 h[d] points: velocity number K, outside point, distance.
    Precondition (contract C16): the inside point is an interior point, the entry (K, outside point) is stored once."""

    def __init__(self, c, name, inside_along=None):
        from .core import CTX, raw, add, and_, ge, lt, le, eq, implies, not_, z, ite, SInt, gt
        from .farr import FArr, key_of
        import z3
        self.c, self.st = c, stencil(name)
        self.dim = dim = self.st.dim
        self.ns = int(self.st.nv_ptr[-1])
        self.v = [[int(a) for a in r] for r in self.st.get_all_velocities()]
        self.sym = [int(a) for a in self.st.get_symmetric()]
        self.h = [max(abs(v[d]) for v in self.v) for d in range(dim)]
        self.size = [c.int('size%d' % d, lo=max(1, self.h[d])) for d in range(dim)]
        self.shape = [add(raw(s), 2 * h) for s, h in zip(self.size, self.h)]
        self.n = raw(c.int('nlinks', lo=0))
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.fK = z3.Function('K', I, I)
        self.fo = [z3.Function('out%d' % d, I, I) for d in range(dim)]
        self.fd = z3.Function('dist', I, R)
        self.back = z3.Function('position', *([I] * (dim + 2)))
        self.isin = z3.Function('fluid', *([I] * dim + [B]))
        self.done = set()
        self.fixed = {}
        self.along = inside_along

    def fix(self, k):
        """a generic link, of velocity number k"""
        from .core import CTX, raw, ge, lt
        j = raw(self.c.int('j', lo=0))
        self.c.assume(j < self.n)
        self.fixed[j.get_id()] = j, k
        self.c.assume(self.fK(j) == k)
        return j

    def vel(self, K, d):
        from .core import ite, eq
        if isinstance(K, int):
            return self.v[K][d]
        r = 0
        for k in range(self.ns):
            if self.v[k][d]:
                r = ite(eq(K, k), self.v[k][d], r)
        return r

    def row(self, j):
        from .core import CTX, add, and_, ge, lt, le, eq, implies, not_, z, gt, or_, ne
        from .farr import key_of
        K = self.fixed[j.get_id()][1] if not isinstance(j, int) and j.get_id() in self.fixed else self.fK(z(j))
        o = tuple(f(z(j)) for f in self.fo)
        if key_of(j) not in self.done:
            self.done.add(key_of(j))
            self.done_keep = getattr(self, 'done_keep', []) + [j]
            x = [add(a, self.vel(K, d)) for d, a in enumerate(o)]
            d = self.fd(z(j))
            L = [ge(K, 0), lt(K, self.ns)]
            if not isinstance(K, int):
                L += [ne(K, k) for k in range(self.ns) if not any(self.v[k])]
            L += [and_(ge(a, h), lt(a, add(h, s))) for a, h, s in zip(x, self.h, [s.t for s in self.size])]
            L += [gt(d, 0), le(d, 1), self.isin(*[z(a) for a in x]), z(not_(self.isin(*o)))]
            L += [eq(self.back(z(K), *o), j)]
            if self.along is not None:
                a = self.along
                y = [add(b, self.vel(K, e)) if e == a else b for e, b in enumerate(o)]
                L += [self.isin(*[z(b) for b in y])]
            CTX.add(implies(and_(ge(j, 0), lt(j, self.n)), and_(*L)))
        return (K,) + o

    def inner(self, j):
        from .core import add
        r = self.row(j)
        return [add(a, self.vel(r[0], d)) for d, a in enumerate(r[1:])]

    def dist(self, j):
        from .core import z
        self.row(j)
        return self.fd(z(j))

    def istore(self):
        from .farr import FArr
        from .core import ite, eq

        def get(idx):
            a, j = idx
            r = self.row(j)
            if isinstance(a, int):
                return r[a]
            v = r[-1]
            for k in range(len(r) - 2, -1, -1):
                v = ite(eq(a, k), r[k], v)
            return v
        return FArr.make((self.dim + 1, self.n), get, 'I')

    def distance(self):
        from .farr import FArr
        return FArr.make((self.n,), lambda idx: self.dist(idx[0]), 'R')

    def constant(self, v, sort='I'):
        from .farr import FArr
        a = FArr.const((self.n,), v, sort)
        a.values = [v]
        return a


_TEXT = {}


def routine(m, backend, sorder, key):
    """(text, parsed module) generated by the method m (its generate) on the real code writer"""
    from . import kern
    from pylbm.generator import Generator
    k = key + (backend, tuple(sorder))
    if k not in _TEXT:
        d = tempfile.mkdtemp()
        try:
            gen = Generator(backend.upper(), d)
            old = m.generator
            m.generator = gen
            m.generate(list(sorder))
            m.generator = old
            _TEXT[k] = kern.emit(gen, backend, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return kern.Module(_TEXT[k], backend)


class Generated:
    """stand-in for the compiled module: its routines run on functional arrays"""

    def __init__(self, backend, mod):
        from types import SimpleNamespace
        self.backend = backend.upper()
        self.module = SimpleNamespace()
        for n in mod.fn:
            def f(_n=n, **kw):
                kw.pop('queue', None)
                mod.call(_n, **kw)
            f.__name__ = n
            f.arg_dict = {a: None for a in mod.args(n)}
            setattr(self.module, n, f)

    def add_routine(self, *a, **k):
        pass
