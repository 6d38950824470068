"""Elements: concrete oracles (C13, C14) and symbolic elements for the proofs"""
from fractions import Fraction as Fr
import math


# ------------------------------------------------------------------ concrete oracles, in floats
def make(case):
    import pylbm
    e = case['elem']
    a = [[float(Fr(y)) for y in x] if isinstance(x, list) else float(Fr(x)) for x in case['args']]
    k = {}
    if case.get('label') is not None:
        k['label'] = case['label']
    if case.get('fluid'):
        k['isfluid'] = True
    return getattr(pylbm, e)(*a, **k)


def frame(case):
    """center c, matrix of columns A (the axes of the element), kind of the shape in the frame"""
    import numpy as np
    e = case['elem']
    a = [np.array([float(Fr(y)) for y in x]) if isinstance(x, list) else float(Fr(x)) for x in case['args']]
    if e in ('Circle', 'Sphere'):
        d = 2 if e == 'Circle' else 3
        return a[0], a[1] * np.eye(d), 'ball'
    if e in ('Ellipse', 'Ellipsoid'):
        return a[0], np.array(a[1:]).T, 'ball'
    if e in ('Triangle', 'Parallelogram'):
        return a[0], np.array(a[1:]).T, e
    if e == 'Parallelepiped':
        return a[0], np.array(a[1:]).T, 'cube'
    return a[0], np.array(a[1:]).T, e      # cylinders: -1 <= z <= 1


def inside(kind, q):
    """signed membership of the points q (last axis) of the frame: positive inside, negative outside"""
    import numpy as np
    if kind == 'ball':
        return 1 - (q**2).sum(-1)
    x, y = q[..., 0], q[..., 1]
    if kind == 'Triangle':
        return np.minimum(np.minimum(x, y), 1 - x - y)
    if kind == 'Parallelogram':
        return np.minimum(np.minimum(x, y), np.minimum(1 - x, 1 - y))
    z = q[..., 2]
    if kind == 'cube':
        return np.minimum(np.minimum(np.minimum(x, y), np.minimum(1 - x, 1 - y)), np.minimum(z, 1 - z))
    cap = 1 - abs(z)
    if kind in ('CylinderCircle', 'CylinderEllipse'):
        return np.minimum(1 - x * x - y * y, cap)
    return np.minimum(np.minimum(np.minimum(x, y), 1 - x - y), cap)


def pieces(kind):
    """surfaces in the frame: (label index, [coefficients of the polynomial in t] from q and w, covector of the surface at q)"""
    import numpy as np

    def quad(n):
        def f(q, w):
            q, w = q[:n], w[:n]
            return [float(w @ w), 2 * float(q @ w), float(q @ q) - 1]

        def g(q):
            r = q.copy()
            r[n:] = 0
            return r
        return f, g

    def lin(nrm, c):
        nrm = np.array(nrm, float)
        return (lambda q, w: [0., float(nrm @ w), float(nrm @ q) - c]), (lambda q: nrm)
    if kind == 'ball':
        return [(0,) + quad(3)]
    e = lambda *v: list(v)
    if kind == 'Triangle':
        return [(0,) + lin([0, 1], 0), (1,) + lin([1, 0], 0), (2,) + lin([1, 1], 1)]
    if kind == 'Parallelogram':
        return [(0,) + lin([0, 1], 0), (1,) + lin([1, 0], 0), (2,) + lin([0, 1], 1), (3,) + lin([1, 0], 1)]
    if kind == 'cube':
        return [(0,) + lin([0, 1, 0], 0), (1,) + lin([1, 0, 0], 0), (2,) + lin([1, 0, 0], 1), (3,) + lin([0, 1, 0], 1), (4,) + lin([0, 0, 1], 0), (5,) + lin([0, 0, 1], 1)]
    if kind in ('CylinderCircle', 'CylinderEllipse'):
        return [(0,) + quad(2), (1,) + lin([0, 0, 1], -1), (2,) + lin([0, 0, 1], 1)]
    return [(0,) + lin([0, 1, 0], 0), (1,) + lin([1, 0, 0], 0), (2,) + lin([1, 1, 0], 1), (3,) + lin([0, 0, 1], -1), (4,) + lin([0, 0, 1], 1)]


# ------------------------------------------------------------------ random elements
def q(rng, lo, hi, d=(1, 2, 4, 3, 5)):
    k = rng.choice(d)
    return str(Fr(rng.randint(int(lo * k), int(hi * k)), k))


def orth3(rng):
    B = rng.choice([[(1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1, 2, 2), (2, 1, -2), (2, -2, 1)], [(1, 1, 0), (1, -1, 0), (0, 0, 1)], [(3, 0, 4), (0, 1, 0), (4, 0, -3)]])
    B = list(B)
    rng.shuffle(B)
    return B


def sc(v, s):
    return [str(Fr(x) * Fr(s)) for x in v]


def random_elem(rng, dim=None):
    E = dict(Circle=2, Ellipse=2, Triangle=2, Parallelogram=2, Sphere=3, Ellipsoid=3, Parallelepiped=3, CylinderCircle=3, CylinderEllipse=3, CylinderTriangle=3)
    while True:
        e = rng.choice([x for x in E if dim is None or E[x] == dim])
        d = E[e]
        c = [q(rng, -2, 2) for _ in range(d)]
        size = lambda: str(Fr(rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 4])))
        vec = lambda: [q(rng, -2, 2, (1, 2, 4)) for _ in range(d)]
        if e in ('Circle', 'Sphere'):
            a = [c, size()]
        elif e == 'Ellipse':
            x, y = rng.randint(-3, 3), rng.randint(-3, 3)
            if not (x or y):
                continue
            a = [c, sc((x, y), size()), sc((-y, x), size())]
        elif e == 'Ellipsoid':
            a = [c] + [sc(b, size()) for b in orth3(rng)]
        elif e == 'CylinderCircle':
            B = orth3(rng)
            s = size()
            n = [sum(x * x for x in b) for b in B]
            if n[0] != n[1]:
                continue
            a = [c, sc(B[0], s), sc(B[1], s), vec() if rng.random() < .4 else sc(B[2], size())]
        elif e == 'CylinderEllipse':
            B = orth3(rng)
            a = [c, sc(B[0], size()), sc(B[1], size()), vec() if rng.random() < .4 else sc(B[2], size())]
        else:
            a = [c] + [vec() for _ in range(d)]
        A = [[Fr(y) for y in x] for x in a[1:]] if isinstance(a[1], list) else None
        if A:
            if d == 2:
                det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
            else:
                det = sum(A[0][i] * (A[1][(i + 1) % 3] * A[2][(i + 2) % 3] - A[1][(i + 2) % 3] * A[2][(i + 1) % 3]) for i in range(3))
            if abs(det) < Fr(1, 20):
                continue
        return dict(elem=e, args=a, label=rng.choice([None, 3, 'list']), fluid=rng.random() < .3)


LABELS = dict(Circle=1, Ellipse=1, Sphere=1, Ellipsoid=1, Triangle=3, Parallelogram=4, CylinderCircle=3, CylinderEllipse=3, CylinderTriangle=5, Parallelepiped=6)


def finish(case):
    n = LABELS[case['elem']]
    if case.get('label') == 'list':
        case['label'] = [7, 4, 9, 2, 5, 8][:n]
    return case


def label_list(case):
    l = case.get('label')
    n = LABELS[case['elem']]
    return l if isinstance(l, list) else [0 if l is None else l] * n


# ------------------------------------------------------------------ symbolic elements
class SymElem:
    """element of symbolic parameters, grid of symbolic size holding a generic point P of the plane or space"""

    def __init__(self, c, name, fluid=False, point='frame'):
        from vc.core import raw, add, sub, mul, wrap, eq, ne, gt, ite, and_, z, real
        from vc.farr import FArr
        c.object_arrays = True
        self.c, self.name = c, name
        self.dim = d = 2 if name in ('Circle', 'Ellipse', 'Triangle', 'Parallelogram') else 3
        self.nax = 1 if name in ('Circle', 'Sphere') else d
        self.C = [c.real('c%d' % k) for k in range(d)]
        self.lab = [c.int('l%d' % k) for k in range(LABELS[name])]
        self.fluid = fluid
        if self.nax == 1:
            self.r = c.real('r', pos=True)
            self.A = None
            self.axes = [[raw(self.r) if i == k else 0 for i in range(d)] for k in range(d)]
        else:
            self.A = [[c.real('a%d%d' % (k, i)) for i in range(d)] for k in range(d)]
            self.axes = [[raw(x) for x in v] for v in self.A]
        dot = lambda u, v: add(add(mul(u[0], v[0]), mul(u[1], v[1])), mul(u[2], v[2]) if len(u) == 3 else 0)
        self.dot = dot
        X = self.axes
        self.det = det(X)
        if self.nax > 1:
            c.assume(ne(self.det, 0))
            perp = dict(Ellipse=[(0, 1)], Ellipsoid=[(0, 1), (1, 2), (2, 0)], CylinderCircle=[(0, 1)], CylinderEllipse=[(0, 1)]).get(name, [])
            for i, j in perp:
                c.assume(eq(dot(X[i], X[j]), 0))
            if name == 'CylinderCircle':
                c.assume(eq(dot(X[0], X[0]), dot(X[1], X[1])))
        # P = origin + sum q_k a_k: by its coordinates in the frame ('frame'), or free ('free')
        self.origin = [raw(x) for x in self.C]
        if point == 'frame':
            self.q = [raw(c.real('q%d' % k)) for k in range(d)]
            self.P = []
            for i in range(d):
                t = self.origin[i]
                for k in range(d):
                    t = add(t, mul(self.q[k], X[k][i]))
                self.P.append(t)
        else:
            self.P = [raw(c.real('p%d' % k)) for k in range(d)]
            self.q = self.coords([sub(a, b) for a, b in zip(self.P, self.origin)])
        # the grid
        self.n = [c.int('n%d' % k, lo=1) for k in range(d)]
        self.i = [c.int('i%d' % k, lo=0) for k in range(d)]
        for a, b in zip(self.i, self.n):
            c.assume(a < b)
        self.grid = []
        for k in range(d):
            f = (lambda k: lambda idx: ite(eq(idx[k], raw(self.i[k])), self.P[k], c.ufun('g%d' % k, idx[k])))(k)
            self.grid.append(FArr.make(tuple(raw(self.n[k]) if j == k else 1 for j in range(d)), f, 'R'))
        self.idx = tuple(raw(x) for x in self.i)
        self.shape = tuple(raw(x) for x in self.n)

    def coords(self, w):
        """coordinates of the vector w in the axes (Cramer)"""
        from vc.core import div, raw
        X = self.axes
        if self.nax == 1:
            return [div(x, raw(self.r)) for x in w]
        return [div(det([w if j == k else X[j] for j in range(self.dim)]), self.det) for k in range(self.dim)]

    def build(self):
        import pylbm
        args = [list(self.C)] + ([self.r] if self.nax == 1 else [list(v) for v in self.A])
        return getattr(pylbm, self.name)(*args, label=list(self.lab), isfluid=self.fluid)

    def inside(self):
        """membership of the frame point q"""
        return shape_of_frame(self.name, self.q)

    def case(self, extra):
        """concrete case of a model"""
        def f(v):
            fr = lambda x: str(Fr(x).limit_denominator(1000))
            args = [[fr(v['c%d' % k]) for k in range(self.dim)]]
            args += [fr(v['r'])] if self.nax == 1 else [[fr(v['a%d%d' % (k, i)]) for i in range(self.dim)] for k in range(self.dim)]
            A = [[Fr(v['r']) if i == k else Fr(0) for i in range(self.dim)] for k in range(self.dim)] if self.nax == 1 else [[Fr(v['a%d%d' % (k, i)]) for i in range(self.dim)] for k in range(self.dim)]
            P = [Fr(v['p%d' % i]) for i in range(self.dim)] if 'p0' in v else [Fr(v['c%d' % i]) + sum(Fr(v['q%d' % k]) * A[k][i] for k in range(self.dim)) for i in range(self.dim)]
            c = dict(elem=self.name, args=args, label=[3, 4, 5, 6, 7, 8][:LABELS[self.name]], fluid=self.fluid, grid=[[str(p)] for p in P])
            c.update(extra(v))
            return c
        self.c.case(f)


class SymBase(SymElem):
    """base of a cylinder in its own frame; arrays of coordinates of the three dimensional grid"""
    def __init__(self, c, name):
        from vc.core import raw, eq, ite
        from vc.farr import FArr
        c.object_arrays = True
        self.c, self.name, self.dim, self.nax, self.fluid = c, name, 2, 2, False
        self.axes, self.det, self.origin = [[1, 0], [0, 1]], 1, [0, 0]
        self.q = self.P = [raw(c.real('q%d' % k)) for k in range(2)]
        n = dict(BaseTriangle=3, BaseParallelogram=4).get(name, 1)
        self.lab = [c.int('l%d' % k) for k in range(n)]
        self.n = [c.int('n%d' % k, lo=1) for k in range(3)]
        self.i = [c.int('i%d' % k, lo=0) for k in range(3)]
        for a, b in zip(self.i, self.n):
            c.assume(a < b)
        self.idx = tuple(raw(x) for x in self.i)
        self.shape = tuple(raw(x) for x in self.n)
        self.grid = []
        for k in range(2):
            def f(idx, k=k):
                same = True
                for a, b in zip(idx, self.idx):
                    same = same and K_and(same, eq(a, b))
                return ite(same, self.q[k], c.ufun('g%d' % k, *idx))
            self.grid.append(FArr.make(self.shape, f, 'R'))

    def build(self):
        import pylbm.elements.base as B
        cls, lab = getattr(B, self.name), list(self.lab)

        class E:
            @staticmethod
            def distance(grid, v, dmax, normal):
                return cls.distance(tuple(grid), v, dmax, lab, normal)
        return E

    def case(self, extra):
        """the replay is a cylinder on the unit base, with the direction in the plane of the base"""
        e = dict(BaseCircle='CylinderCircle', BaseEllipse='CylinderEllipse', BaseTriangle='CylinderTriangle', BaseParallelogram='Parallelepiped')[self.name]

        def f(v):
            c = extra(v)
            a = [['0', '0', '0'], ['1', '0', '0'], ['0', '1', '0'], ['0', '0', '1']]
            c.update(elem=e, args=a, label=[3, 4, 5, 6, 7, 8][:LABELS[e]], fluid=False, grid=[[str(Fr(v['q0']))], [str(Fr(v['q1']))], ['1/2']], v=c['v'] + ['0'])
            return c
        self.c.case(f)


def K_and(a, b):
    from vc.core import and_
    return and_(a, b)


def det(X):
    from vc.core import add, sub, mul
    if len(X) == 2:
        return sub(mul(X[0][0], X[1][1]), mul(X[0][1], X[1][0]))
    r = 0
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        r = add(r, mul(X[0][i], sub(mul(X[1][j], X[2][k]), mul(X[1][k], X[2][j]))))
    return r


def shape_of_frame(name, q):
    from vc.core import and_, ge, le, add, mul
    if name in ('Circle', 'Ellipse', 'Sphere', 'Ellipsoid'):
        s = 0
        for x in q:
            s = add(s, mul(x, x))
        return le(s, 1)
    x, y = q[:2]
    base = dict(Triangle=and_(ge(x, 0), ge(y, 0), le(add(x, y), 1)), Parallelogram=and_(ge(x, 0), ge(y, 0), le(x, 1), le(y, 1)),
                Circle=le(add(mul(x, x), mul(y, y)), 1))
    if name in ('Triangle', 'Parallelogram'):
        return base[name]
    z = q[2]
    if name == 'Parallelepiped':
        return and_(base['Parallelogram'], ge(z, 0), le(z, 1))
    return and_(base['Triangle' if name == 'CylinderTriangle' else 'Circle'], ge(z, -1), le(z, 1))
