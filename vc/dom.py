"""Domain constructor on symbolic boxes, shared by C11, C12 and C15"""
import itertools
from fractions import Fraction as Fr

# velocity numbers of the enumerated stencils: (dim, lists of velocities per scheme)
STENCILS = {
    'd1q2': (1, [[1, 2]]), 'd1q3': (1, [[0, 1, 2]]), 'd1q5': (1, [[0, 1, 2, 3, 4]]), 'd1 coupled': (1, [[1, 2], [0, 1, 2, 5, 6]]),
    'd1 one sided': (1, [[0, 1, 3]]),
    'd2q4': (2, [[1, 2, 3, 4]]), 'd2q5': (2, [list(range(5))]), 'd2q9': (2, [list(range(9))]), 'd2q13': (2, [list(range(13))]),
    'd2 coupled': (2, [[1, 2, 3, 4], list(range(9))]), 'd2 knight': (2, [[0] + list(range(17, 25))]),
    'd2 x only': (2, [[0, 1, 3]]), 'd2 y only': (2, [[2, 4]]), 'd2 anisotropic': (2, [[0, 2, 4, 9, 11, 25]]),
    'd3q6': (3, [list(range(1, 7))]), 'd3q7': (3, [list(range(7))]), 'd3q19': (3, [list(range(19))]), 'd3 flat': (3, [[0, 1, 2, 5, 6]]),
}
AXES = 'xyz'


def dico(dim, vels, bounds, dx, label=None, elements=None):
    d = dict(box={}, space_step=dx, schemes=[dict(velocities=list(v)) for v in vels])
    for k in range(dim):
        d['box'][AXES[k]] = bounds[k]
    if label is not None:
        d['box']['label'] = label
    if elements is not None:
        d['elements'] = elements
    return d


def velocities(dim, vels):
    """unique velocities, in the order of their numbers"""
    from vc.schemes import vectors
    return [tuple(v) for v in vectors(dim, sorted({x for l in vels for x in l}))]


class Topo:
    """stand-in for MpiTopology: get_region returns the given regions (contract C09)"""

    def __init__(self, region):
        self.region = region
        self.asked = None

    def get_region(self, *n):
        self.asked = n
        return [list(r) for r in self.region]


def build(d, topo):
    """the real Domain constructor, with the MPI topology replaced by its contract and the printed form dropped"""
    import pylbm.domain as D
    old = D.MpiTopology, D.Domain.__str__
    D.MpiTopology = lambda dim, period, comm=None: topo
    D.Domain.__str__ = lambda self: ''
    try:
        return D.Domain(d, need_validation=False)
    finally:
        D.MpiTopology, D.Domain.__str__ = old


class SymDomain:
    """symbolic box of n[d] cells of size dx from min[d]; process owning the cells [r0, r1[ in each direction"""

    def __init__(self, c, name, sides=None, labels=True):
        from vc.core import raw, add, mul, wrap, real
        self.dim, self.vels = STENCILS[name]
        dim = self.dim
        self.V = velocities(dim, self.vels)
        self.h = [max(abs(v[d]) for v in self.V) for d in range(dim)]
        self.dx = c.real('dx')
        c.assume(self.dx > 0)
        self.min = [c.real('min%d' % d) for d in range(dim)]
        self.n = [c.int('n%d' % d, lo=1) for d in range(dim)]
        self.max = [wrap(add(raw(a), mul(real(raw(n)), raw(self.dx)))) for a, n in zip(self.min, self.n)]
        self.r0, self.r1 = [], []
        # sides: per direction, is the low (high) side of the process a side of the box
        self.sides = sides or [(True, True)] * dim
        for d, (lo, hi) in enumerate(self.sides):
            a = 0 if lo else c.int('r%d0' % d, lo=1)
            b = self.n[d] if hi else c.int('r%d1' % d, lo=1)
            if not hi:
                c.assume(b < self.n[d])
            c.assume(b - a >= max(self.h[d], 1))
            self.r0.append(a)
            self.r1.append(b)
        self.size = [wrap(raw(b - a)) for a, b in zip(self.r0, self.r1)]
        self.label = [c.int('label%d' % i, lo=-1) for i in range(2 * dim)] if labels else None
        c.div_hints = self.n + [self.dx]

    def build(self, elements=None):
        topo = Topo([[a, b] for a, b in zip(self.r0, self.r1)])
        d = dico(self.dim, self.vels, [[a, b] for a, b in zip(self.min, self.max)], self.dx, list(self.label) if self.label else None, elements)
        r = build(d, topo)
        self.topo = topo
        return r

    def case(self, c, extra=None):
        """harness case of a counterexample: a box of the same number of cells"""
        def f(v):
            n = [min(int(v['n%d' % d]), 9) for d in range(self.dim)]
            dx = Fr(v['dx'])
            return dict(dim=self.dim, vels=self.vels, n=n, dx=str(dx.limit_denominator(64) or Fr(1, 4)), min=[str(Fr(v['min%d' % d]).limit_denominator(16)) for d in range(self.dim)],
                        label=[min(int(v['label%d' % i]), 50) for i in range(2 * self.dim)] if self.label else None, **(extra(v) if extra else {}))
        c.case(f)
