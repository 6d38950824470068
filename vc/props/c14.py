"""C14 membership and bounds of the elements"""
from fractions import Fraction as Fr
import itertools


def check_case(case):
    import numpy as np
    from vc.geo import make, frame, inside
    elem = make(case)
    c, A, kind = frame(case)
    d = len(c)
    iA = np.linalg.inv(A)
    if 'grid' in case:
        grid = [np.array([float(Fr(x)) for x in g]) for g in case['grid']]
        mesh = np.meshgrid(*grid, sparse=True, indexing='ij')
        got = elem.point_inside(mesh)
        shape = tuple(len(g) for g in grid)
        if got.shape != shape:
            return ('shape', '%s.point_inside on a grid %s: shape %s' % (case['elem'], shape, got.shape))
        full = np.stack(np.broadcast_arrays(*mesh), -1)
        s = inside(kind, (full - c) @ iA.T)
        bad = (abs(s) > 1e-9) & (got != (s > 0))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return ('inside', '%s%s: the point %s is reported %s' % (case['elem'], tuple(case['args']), list(full[i]), 'inside' if got[i] else 'outside'))
    # points of the closed shape
    u = np.array(case['points'], dtype=float)
    if kind == 'ball':
        n = np.linalg.norm(u, axis=1, keepdims=True)
        u = u / np.maximum(n, 1e-12)
        u = np.concatenate([u, [(lambda z: z / np.linalg.norm(z))(A.T @ e) * s for e in np.eye(d) for s in (-1, 1)]])
    else:
        corners = np.array(list(itertools.product((-1, 0, 1), repeat=d)), float)
        u = np.concatenate([u, corners])
        if kind in ('CylinderCircle', 'CylinderEllipse'):
            r = np.linalg.norm(u[:, :2], axis=1, keepdims=True)
            u[:, :2] /= np.maximum(r, 1)
        u = u[inside(kind, u) >= -1e-12]
    x = u @ A.T + c
    lo, hi = elem.get_bounds()
    tol = 1e-9 * (1 + abs(x).max(initial=0))
    bad = ((x < lo - tol) | (x > hi + tol)).any(axis=1)
    if bad.any():
        return ('bounds', '%s%s: the point %s of the shape is outside of the bounds %s, %s' % (case['elem'], tuple(case['args']), list(x[np.argmax(bad)]), list(lo), list(hi)))
    return None


def cases(tier, rng):
    from vc.geo import random_elem, finish, q
    while True:
        c = finish(random_elem(rng))
        d = len(c['args'][0])
        n = [rng.choice([1, 3, 5, 6]) for _ in range(d)]
        c['grid'] = [[q(rng, -4, 4, (3, 7, 8)) for _ in range(m)] for m in n]
        c['points'] = [[rng.uniform(-1, 1) for _ in range(d)] for _ in range(6)]
        yield c


def proofs(tier):
    from vc.core import raw, add, sub, mul, div, neg, mx, mn, eq, ne, ge, gt, lt, le, and_, or_, not_, implies, real, abs_, wrap, z
    from vc.geo import SymElem, LABELS, shape_of_frame, det
    from vc.poly import Cut, prove_equal

    def member(name):
        def f(c):
            S = SymElem(c, name, point='free')
            S.case(lambda v: dict(points=[]))
            e = S.build()
            r = e.point_inside(S.grid)
            c.prove('shape of the result', len(r.shape) == S.dim and and_(*[eq(raw(a), b) for a, b in zip(r.shape, S.shape)]))
            got = r.at(S.idx)
            # the coordinates in the frame, and the polynomials of the membership, are generalised
            cut = Cut(c)
            q = [cut.var('q', x) for x in S.q]
            facts = []
            if name.endswith('Triangle'):
                facts = [eq(cut.var('q01', add(S.q[0], S.q[1])), add(q[0], q[1]))]
            if name in ('Circle', 'Ellipse', 'Sphere', 'Ellipsoid'):
                # the code multiplies by the square of the determinant
                D2 = mul(S.det, S.det) if S.nax > 1 else mul(raw(S.r), raw(S.r))
                dcut = Cut(c)
                x = dcut.var('x', S.det if S.nax > 1 else raw(S.r))
                c.prove('the square of the determinant is positive', gt(D2, 0), cut=dcut)
                k = cut.var('k', mul(D2, sub(shape_sum(S.q), 1)))
                d2 = cut.var('d', D2)
                facts = [gt(d2, 0), eq(k, mul(d2, sub(shape_sum(q), 1)))]
            c.prove('inside exactly in the closed shape', eq(got, shape_of_frame(name, q)), facts=facts, cut=cut)
        return f

    def shape_sum(q):
        s = 0
        for x in q:
            s = add(s, mul(x, x))
        return s

    def tsum(t):
        s = 0
        for x in t:
            s = add(s, x)
        return s

    def dotl(u, v):
        s = 0
        for a, b in zip(u, v):
            s = add(s, mul(a, b))
        return s

    def bounds(name):
        def f(c):
            S = SymElem(c, name)
            S.case(lambda v: dict(points=[[float(v['q%d' % k]) for k in range(S.dim)]]))
            e = S.build()
            lo, hi = e.get_bounds()
            c.assume(S.inside())
            X = S.axes
            P = S.P
            cut, facts = None, ()
            if name in ('Ellipsoid', 'CylinderCircle', 'CylinderEllipse'):
                # s = sum of q_k a_k over the orthogonal axes of the round part
                m = 3 if name == 'Ellipsoid' else 2
                sv = [raw(c.real('s%d' % i)) for i in range(3)]
                q = S.q
                spec, P = [], []
                for i in range(3):
                    t = 0
                    for k in range(m):
                        t = add(t, mul(q[k], X[k][i]))
                    spec.append(t)
                    P.append(add(add(S.origin[i], sv[i]), 0 if m == 3 else mul(q[2], X[2][i])))
                N = [S.dot(X[k], X[k]) for k in range(m)]
                lhs, rhs, cross = 0, 0, 0
                for i in range(3):
                    lhs = add(lhs, mul(spec[i], spec[i]))
                for k in range(m):
                    rhs = add(rhs, mul(mul(q[k], q[k]), N[k]))
                    for j in range(k):
                        cross = add(cross, mul(mul(2, mul(q[j], q[k])), S.dot(X[j], X[k])))
                prove_equal(c, 'square of the norm of the sum', lhs, add(rhs, cross))
                # generalisation: norms of the axes, scalar products (0), q_k
                cut = Cut(c)
                Nv = [cut.var('N', x) for x in N]
                Dv = {(j, k): cut.var('D', S.dot(X[j], X[k])) for k in range(m) for j in range(k)}
                rk = [c.fresh('r', 'R') for _ in range(m)]
                R = c.fresh('R', 'R')
                defs = [and_(ge(r, 0), eq(mul(r, r), n)) for r, n in zip(rk, Nv)]
                defs += [ge(R, r) for r in rk] + [or_(*[eq(R, r) for r in rk])]
                s2 = 0
                for x in sv:
                    s2 = add(s2, mul(x, x))
                w = 0
                for k in range(m):
                    w = add(w, mul(mul(q[k], q[k]), Nv[k]))
                    for j in range(k):
                        w = add(w, mul(mul(2, mul(q[j], q[k])), Dv[j, k]))
                zero = [eq(x, 0) for x in Dv.values()]
                for k in range(m):
                    c.prove('orthogonal axes', and_(*[eq(S.dot(X[j], X[k]), 0) for j in range(k)]), cut=cut)
                ball = le(shape_sum(q[:m]), 1)
                t = [c.fresh('t', 'R') for _ in range(m)]
                M = c.fresh('M', 'R')
                # steps: t_k = q_k^2, M = R^2
                c.prove('each axis is at most the radius', implies(and_(*defs), and_(ge(R, 0), *[le(n, mul(R, R)) for n in Nv])), cut=cut)
                c.prove('convex combination', implies(and_(ge(M, 0), *[and_(ge(a, 0), le(n, M)) for a, n in zip(t, Nv)], le(tsum(t), 1)), le(dotl(t, Nv), M)), cut=cut)
                for i in range(3):
                    # with the two steps above
                    hyp = and_(ge(R, 0), eq(s2, dotl(t, Nv)), le(dotl(t, Nv), mul(R, R)))
                    c.prove('component of a vector', implies(hyp, and_(le(sv[i], R), ge(sv[i], neg(R)))), cut=cut)
                facts = defs + [and_(le(x, R), ge(x, neg(R))) for x in sv] + ([and_(ge(q[2], -1), le(q[2], 1))] if m == 2 else [])
            if name in ('CylinderTriangle', 'Parallelepiped'):
                # P = center + e + f: e in the base, f along the axis of half length |h|
                q, P, facts = S.q, [], []
                for i in range(3):
                    x, y, w = X[0][i], X[1][i], X[2][i]
                    h, z2 = (w, q[2]) if name == 'CylinderTriangle' else (div(w, 2), sub(mul(2, q[2]), 1))
                    e, f = c.fresh('e', 'R'), c.fresh('f', 'R')
                    big, small = mx(mx(0, x), mx(y, add(x, y))), mn(mn(0, x), mn(y, add(x, y)))
                    u = add(mul(q[0], x), mul(q[1], y))
                    base = and_(ge(q[0], 0), ge(q[1], 0), le(add(q[0], q[1]), 1)) if name == 'CylinderTriangle' else and_(ge(q[0], 0), ge(q[1], 0), le(q[0], 1), le(q[1], 1))
                    own = Cut(c)    # keeps the relevant assumptions only
                    c.prove('a point of the base is in the hull of its corners', implies(base, and_(le(u, big), ge(u, small))), cut=own)
                    c.prove('a point of the axis', implies(and_(ge(z2, -1), le(z2, 1)), and_(le(mul(z2, h), abs_(h)), ge(mul(z2, h), neg(abs_(h))))), cut=own)
                    prove_equal(c, 'point of the shape', S.P[i], add(add(add(S.origin[i], 0 if name == 'CylinderTriangle' else h), u), mul(z2, h)))
                    facts += [le(e, big), ge(e, small), le(f, abs_(h)), ge(f, neg(abs_(h)))]
                    P.append(add(add(add(S.origin[i], 0 if name == 'CylinderTriangle' else h), e), f))
                cut = Cut(c)
            for i in range(S.dim):
                c.prove('the bounds contain the shape, lower, %d' % i, le(raw(lo[i]), P[i]), cut=cut, facts=facts)
                c.prove('the bounds contain the shape, upper, %d' % i, ge(raw(hi[i]), P[i]), cut=cut, facts=facts)
        return f
    out = []
    for name in LABELS:
        E = 'pylbm.elements.%s.%s.' % (dict(CylinderCircle='cylinder', CylinderEllipse='cylinder', CylinderTriangle='cylinder', Parallelepiped='cylinder').get(name, name.lower()), name)
        out.append(('membership %s' % name, member(name), dict(functions=[E + 'point_inside'], budget=120, timeout=20)))
        out.append(('bounds %s' % name, bounds(name), dict(functions=[E + 'get_bounds'], budget=120, timeout=20)))
    return out
