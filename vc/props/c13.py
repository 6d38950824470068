"""C13 distance between points and elements"""
from fractions import Fraction as Fr
import itertools


def check_case(case):
    import numpy as np
    from vc.geo import make, frame, inside, pieces, label_list
    elem = make(case)
    c, A, kind = frame(case)
    d = len(c)
    iA = np.linalg.inv(A)
    grid = [np.array([float(Fr(x)) for x in g]) for g in case['grid']]
    mesh = np.meshgrid(*grid, sparse=True, indexing='ij')
    v = np.array([float(Fr(x)) for x in case['v']])
    dmax = None if case['dmax'] is None else float(Fr(case['dmax']))
    args = (mesh, v) if case.get('default') else (mesh, v, dmax)
    alpha, border, normal = elem.distance(*args, normal=True)
    shape = tuple(len(g) for g in grid)
    if alpha.shape != shape or border.shape != shape or normal.shape != shape + (d,):
        return ('shape', '%s.distance on a grid %s: shapes %s, %s, %s' % (case['elem'], shape, alpha.shape, border.shape, normal.shape))
    P = pieces(kind)
    lab = label_list(case)
    w = iA @ v
    tol = 1e-6
    top = 1e6 if dmax is None else dmax
    for i in itertools.product(*[range(n) for n in shape]):
        x = np.array([g[j] for g, j in zip(grid, i)])
        q0 = iA @ (x - c)
        if abs(inside(kind, q0)) < 1e-5:
            continue       # on the surface
        al, where = alpha[i], '%s%s from %s along %s (dmax %s)' % (case['elem'], tuple(case['args']), list(x), list(v), dmax)
        sure = []
        for l, pol, g in P:
            a, b, cc = pol(q0, w)
            if a:
                D = b * b - 4 * a * cc
                if D <= tol * (1 + b * b):
                    continue
                ts = [(-b - D**.5) / 2 / a, (-b + D**.5) / 2 / a]
            elif abs(b) > 1e-9:
                ts = [-cc / b]
            else:
                continue
            for t in ts:
                if t < tol:
                    continue
                y = q0 + t * w
                # on the piece, away from its edges: the other constraints hold strictly
                eps = 1e-5
                n = g(y)
                if inside(kind, y - eps * n) > eps**2 or inside(kind, y + eps * n) > eps**2:
                    if abs(inside(kind, y)) < 1e-9 * (1 + t * t):
                        sure.append(t)
        first = min([t for t in sure if t < top * (1 - tol) - tol], default=None)
        if al > 0:
            y = q0 + al * w
            if al > top * (1 + 1e-9) or abs(inside(kind, y)) > tol * (1 + abs(y).max())**2:
                return ('surface', '%s: distance %s: the displaced point is not on the surface' % (where, al))
            if first is not None and first < al - tol * (1 + al):
                return ('first', '%s: distance %s but the surface is met before, at %s' % (where, al, first))
            near = [(l, g) for l, pol, g in P if abs((lambda p: p[2] + al * (p[1] + al * p[0]))(pol(q0, w))) < tol * (1 + abs(y).max())**2]
            ok = [(l, g) for l, g in near if lab[l] == border[i]]
            if not ok:
                return ('label', '%s: label %s instead of %s' % (where, border[i], sorted({lab[l] for l, _ in near})))
            n = normal[i]
            if abs(np.linalg.norm(n) - 1) > tol:
                return ('unit', '%s: normal %s of norm %s' % (where, list(n), np.linalg.norm(n)))
            if not any(abs(abs(m @ n) - 1) < 1e-4 for m in [(lambda z: z / np.linalg.norm(z))(iA.T @ g(y)) for _, g in near]):
                return ('normal', '%s: the normal %s is not orthogonal to the surface' % (where, list(n)))
            if n @ v > tol:
                return ('sense', '%s: the normal %s is not opposite to the direction' % (where, list(n)))
        else:
            if al != -1:
                return ('no hit', '%s: distance %s' % (where, al))
            if first is not None:
                return ('missed', '%s: no intersection found, but the surface is met at %s' % (where, first))
    return None


def cases(tier, rng):
    from vc.geo import random_elem, finish, q
    std = [('Circle', [['1/3', '1/2'], '1/2']), ('Ellipse', [['0', '0'], ['1', '1'], ['-1/2', '1/2']]), ('Triangle', [['0', '0'], ['1', '0'], ['0', '1']]),
           ('Parallelogram', [['0', '0'], ['1', '1/2'], ['1/4', '1']]), ('Sphere', [['0', '0', '1/7'], '1']), ('Ellipsoid', [['0', '0', '0'], ['1', '0', '0'], ['0', '2', '0'], ['0', '0', '1/2']]),
           ('Parallelepiped', [['0', '0', '0'], ['1', '0', '0'], ['0', '1', '0'], ['0', '0', '1']]), ('CylinderCircle', [['0', '0', '0'], ['1', '0', '0'], ['0', '1', '0'], ['0', '0', '1']]),
           ('CylinderEllipse', [['0', '0', '0'], ['2', '0', '0'], ['0', '1', '0'], ['0', '0', '1']]), ('CylinderTriangle', [['0', '0', '0'], ['1', '0', '0'], ['0', '1', '0'], ['0', '0', '1']])]
    first = True
    while True:
        for e in std if first else [None]:
            c = dict(elem=e[0], args=e[1], label='list', fluid=False) if e else random_elem(rng)
            c = finish(c)
            d = len(c['args'][0])
            for _ in range(6 if e else 1):
                n = [rng.choice([1, 2, 3, 4]) for _ in range(d)]
                c2 = dict(c, grid=[[q(rng, -3, 3, (3, 7, 8)) for _ in range(m)] for m in n])
                v = [rng.choice([-1, 0, 1]) for _ in range(d)] if rng.random() < .7 else [rng.randint(-4, 4) for _ in range(d)]
                if not any(v):
                    v[rng.randrange(d)] = 1
                s = rng.choice(['1', '1/3', '1/10', '2', '5'])
                c2['v'] = [str(x * Fr(s)) for x in v]
                c2['dmax'] = rng.choice(['1', '1', '2', '1/2', None, '10'])
                if c2['dmax'] is None and rng.random() < .5:
                    c2['default'] = True
                yield c2
        first = False


def proofs(tier):
    import z3
    from vc.core import raw, add, sub, mul, div, neg, eq, ne, ge, gt, lt, le, and_, or_, not_, implies, real, wrap, z, ite, sqrt_
    from vc.geo import SymElem, SymBase, LABELS, det
    from vc.poly import Cut, prove_equal
    from vc import core as K

    def start(c, name, dmax):
        S = SymBase(c, name) if name.startswith('Base') else SymElem(c, name)
        S.V = [c.real('v%d' % k) for k in range(S.dim)]
        S.v = [raw(x) for x in S.V]
        c.assume(or_(*[ne(x, 0) for x in S.v]))
        S.dmax = c.real('dmax', pos=True) if dmax else None
        if dmax:
            c.assume(lt(raw(S.dmax), 10**16))
        c.let_reads = True
        S.case(lambda v: dict(v=[str(v['v%d' % k]) for k in range(S.dim)], dmax=str(v['dmax']) if dmax else None))
        # det times the coordinates of v in the axes
        X = S.axes
        if S.nax == 1:
            r = raw(S.r) if S.dim == 2 else mul(raw(S.r), raw(S.r))
            S.m, S.k = [mul(r, x) for x in S.v], mul(r, raw(S.r))
        else:
            S.m, S.k = [det([S.v if j == k else X[j] for j in range(S.dim)]) for k in range(S.dim)], S.det
        return S

    def call(c, S, normal):
        import numpy as np
        e = S.build()
        v = np.empty(S.dim, dtype=object)
        v[:] = S.V
        a, b, n = e.distance(S.grid, v, S.dmax, normal)
        shapes = [tuple(raw(x) for x in a.shape), tuple(raw(x) for x in b.shape)] + ([tuple(raw(x) for x in n.shape)[:-1]] if normal else [])
        for s in shapes:
            c.prove('shape', len(s) == len(S.shape) and and_(*[eq(x, y) for x, y in zip(s, S.shape)]))
        return a.at(S.idx), b.at(S.idx), [n.at(S.idx + (i,)) for i in range(2 if len(S.P) == 2 else 3)] if normal else None

    def tot(t):
        s = 0
        for x in t:
            s = add(s, x)
        return s

    def dot(u, v):
        return tot([mul(a, b) for a, b in zip(u, v)])

    def round_(name, dmax):
        def f(c):
            S = start(c, name, dmax)
            al, bo, n = call(c, S, True)
            d, k, m, q, X = S.dim, S.k, S.m, S.q, S.axes
            D2 = mul(k, k)
            # D2 (|q + t w|^2 - 1) = A t^2 + B t + C, with k w = m
            A, B, C = dot(m, m), mul(mul(2, k), dot(q, m)), mul(D2, sub(dot(q, q), 1))
            t = raw(c.fresh('t', 'R'))
            y = [add(mul(k, a), mul(t, b)) for a, b in zip(q, m)]
            prove_equal(c, 'equation of the surface along the link', sub(dot(y, y), D2), add(mul(A, mul(t, t)), add(mul(B, t), C)))
            for i in range(d):
                prove_equal(c, 'coordinates of the direction', mul(k, S.v[i]), tot([mul(m[j], X[j][i]) for j in range(d)]))
            cut = Cut(c)
            kv = cut.var('k', k)
            mv = [cut.var('m%d' % j, x) for j, x in enumerate(m)]
            xv = [[c.fresh('x', 'R') for j in range(d)] for i in range(d)]
            own = Cut(c)
            defs = [eq(mul(kv, S.v[i]), tot([mul(mv[j], xv[j][i]) for j in range(d)])) for i in range(d)]
            c.prove('the direction has coordinates', implies(and_(ne(kv, 0), or_(*[ne(x, 0) for x in S.v]), *defs), or_(*[ne(x, 0) for x in mv])), cut=own)
            c.prove('quadratic coefficient', implies(or_(*[ne(x, 0) for x in mv]), gt(dot(mv, mv), 0)), cut=own)
            cut = Cut(c)
            a, b, cc = cut.var('A', A), cut.var('B', B), cut.var('C', C)
            facts = [gt(a, 0), ne(cc, 0)]      # the point is not on the surface
            pol = lambda s: add(mul(a, mul(s, s)), add(mul(b, s), cc))
            cal = al
            if dmax:
                facts += [gt(raw(S.dmax), 0), lt(raw(S.dmax), 10**16)]
            top = raw(S.dmax) if dmax else 10**16
            c.prove('no hit value', or_(gt(al, 0), eq(al, -1)), facts=facts, cut=cut)
            if dmax:
                c.prove('the distance is at most dmax', le(al, top), facts=facts, cut=cut)
            c.prove('the displaced point is on the surface', implies(gt(al, 0), eq(pol(cal), 0)), facts=facts, cut=cut)
            s = raw(c.real('s'))
            hit = and_(gt(s, 0), le(s, top) if dmax else lt(s, top), eq(pol(s), 0))
            c.prove('the surface is not met before', implies(hit, and_(gt(al, 0), le(al, s))), facts=facts, cut=cut)
            c.prove('label', eq(bo, ite(gt(al, 0), raw(S.lab[0]), -1)), cut=cut, facts=facts)
            # normal vector: along the gradient G of the equation at the displaced point Y
            if S.nax == 1:
                cof = [[mul(r_, 1 if i == j else 0) for i in range(d)] for j in range(d)] if (r_ := (raw(S.r) if d == 2 else mul(raw(S.r), raw(S.r)))) is not None else None
            else:
                cof = [[det([[1 if l == i else 0 for l in range(d)] if j == h else X[j] for j in range(d)]) for i in range(d)] for h in range(d)]
            def at(al):
                Y = [add(sub(S.P[i], S.origin[i]), mul(al, S.v[i])) for i in range(d)]
                lin = [add(mul(k, q[j]), mul(al, m[j])) for j in range(d)]
                return Y, lin, [mul(2, tot([mul(lin[j], cof[j][i]) for j in range(d)])) for i in range(d)]
            Y, lin, G = at(t)     # for every t
            for j in range(d):
                prove_equal(c, 'the gradient is the one of the equation', dot(cof[j], Y), lin[j])
            lv, yl = [c.fresh('l', 'R') for j in range(d)], [c.fresh('y', 'R') for j in range(d)]
            cv = [[c.fresh('cof', 'R') for i in range(d)] for j in range(d)]
            prove_equal(c, 'scalar product of the gradient and the position', dot([mul(2, tot([mul(lv[j], cv[j][i]) for j in range(d)])) for i in range(d)], yl), mul(2, tot([mul(lv[j], dot(cv[j], yl)) for j in range(d)])))
            prove_equal(c, 'sum of squares at the displaced point', dot(lin, lin), add(add(mul(A, mul(t, t)), add(mul(B, t), C)), D2))
            Y, lin, G = at(al)
            cut.hide_below(al)
            g = [cut.var('g%d' % i, x) for i, x in enumerate(G)]
            yv = [cut.var('y%d' % i, x) for i, x in enumerate(Y)]
            gv = cut.var('gv', dot(G, S.v))
            d2 = cut.var('D2', D2)
            facts2 = [eq(gv, dot(g, S.v)), gt(d2, 0), eq(dot(g, yv), mul(2, add(pol(cal), d2))), implies(gt(al, 0), eq(pol(cal), 0))]
            pos = implies(gt(al, 0), gt(dot(g, g), 0))
            c.prove('the gradient is not null', pos, cut=cut, facts=facts2)
            for i in range(d):
                for j in range(i):
                    c.prove('the normal vector is orthogonal to the surface', implies(gt(al, 0), eq(mul(n[i], g[j]), mul(n[j], g[i]))), cut=cut, facts=[pos])
            c.prove('the normal vector is unit', implies(gt(al, 0), eq(dot(n, n), 1)), cut=cut, facts=[pos])
            c.prove('the normal vector is opposite to the direction', implies(gt(al, 0), le(dot(n, S.v), 0)), cut=cut, facts=facts2)
        return f
    # lines: equations l(q) = a.q + b of the edges and parameter along the edge, in the frame
    EDGES = dict(Triangle=[((0, 1), 0, (1, 0)), ((1, 0), 0, (0, 1)), ((1, 1), -1, (0, 1))],
                 Parallelogram=[((0, 1), 0, (1, 0)), ((1, 0), 0, (0, 1)), ((0, 1), -1, (1, 0)), ((1, 0), -1, (0, 1))])

    def lines(name, dmax):
        def f(c):
            S = start(c, name, dmax)
            al, bo, n = call(c, S, True)
            k, m, q, X = S.k, S.m, S.q, S.axes
            E = EDGES[name]
            base = name.startswith('Base')      # in the frame of a base the terms are small: no generalisation
            cut = None if base else Cut(c)
            var = (lambda n, t: t) if base else cut.var
            kv = var('k', k)
            mv = [var('m%d' % j, m[j]) for j in range(2)]
            w = [var('w%d' % j, div(m[j], k)) for j in range(2)]
            lin = lambda e, u: add(add(mul(e[0][0], u[0]), mul(e[0][1], u[1])), e[1])
            par = lambda e, u: add(mul(e[2][0], u[0]), mul(e[2][1], u[1]))
            at = lambda s: [add(q[j], mul(s, w[j])) for j in range(2)]
            facts, hits, f1, fl = [ne(kv, 0)], [], [], []
            for i in range(2):
                prove_equal(c, 'coordinates of the direction', mul(k, S.v[i]), tot([mul(m[j], X[j][i]) for j in range(2)]))
            own = Cut(c)
            xv = [[c.fresh('x', 'R') for j in range(2)] for i in range(2)]
            defs = [eq(mul(kv, S.v[i]), tot([mul(mv[j], xv[j][i]) for j in range(2)])) for i in range(2)]
            mz = or_(*[ne(x, 0) for x in mv])
            c.prove('the direction has coordinates', implies(and_(ne(kv, 0), or_(*[ne(x, 0) for x in S.v]), *defs), mz), cut=own)
            fl.append(mz)
            for i, e in enumerate(E):
                L = dot(e[0], m)
                Lv = var('L%d' % i, L)
                N = mul(k, lin(e, q))
                Nv = var('N%d' % i, N)
                facts += [eq(Lv, mul(kv, dot(e[0], w))), eq(Nv, mul(kv, lin(e, q)))]
                t = div(neg(N), L)
                tv = var('t%d' % i, t)
                iv = var('i%d' % i, div(1, L))
                f0 = [implies(ne(Lv, 0), and_(eq(mul(tv, Lv), neg(Nv)), eq(mul(iv, Lv), 1)))]
                sg = implies(ne(Lv, 0), and_(eq(gt(Lv, 0), gt(iv, 0)), ne(iv, 0), eq(gt(tv, 0), or_(and_(lt(Nv, 0), gt(iv, 0)), and_(gt(Nv, 0), lt(iv, 0))))))
                c.prove('sign of the distance to a line', sg, facts=f0, cut=cut)
                f1 += [sg]
                fl += [eq(Lv, dot(e[0], mv))]
                facts += f0
                u = add(par(e, q), mul(t, div(dot(e[2], m), k)))
                uv = var('u%d' % i, u)
                # intersection with the line, when the link is not parallel to it
                facts.append(implies(ne(Lv, 0), and_(eq(lin(e, at(tv)), 0), eq(uv, par(e, at(tv))))))
                hits.append((Lv, tv, uv))
            f1 += fl
            surf = lambda y: or_(*[and_(eq(lin(e, y), 0), ge(par(e, y), 0), le(par(e, y), 1)) for e in E])
            facts.append(not_(surf(q)))
            top = raw(S.dmax) if dmax else 10**16
            c.prove('no hit value', or_(gt(al, 0), eq(al, -1)), facts=f1, cut=cut)
            if dmax:
                c.prove('the distance is at most dmax', le(al, top), facts=f1 + [gt(top, 0)], cut=cut)
            dirs = [[sub(mul(e[0][1], X[0][i]), mul(e[0][0], X[1][i])) for i in range(2)] for e in E]
            dv = [[var('d%d%d' % (i, j), x) for j, x in enumerate(dd)] for i, dd in enumerate(dirs)]
            met = [and_(ne(Lv, 0), eq(al, tv), ge(uv, 0), le(uv, 1), eq(bo, raw(S.lab[i]))) for i, (Lv, tv, uv) in enumerate(hits)]
            c.prove('the line of an edge is met, with its label', implies(gt(al, 0), or_(*met)), facts=f1, cut=cut)
            for i, e in enumerate(E):
                Lv, tv, uv = hits[i]
                c.prove('the displaced point is on the edge', implies(and_(ne(Lv, 0), ge(uv, 0), le(uv, 1)), and_(eq(lin(e, at(tv)), 0), ge(par(e, at(tv)), 0), le(par(e, at(tv)), 1))), facts=facts, cut=cut)
                prove_equal(c, 'direction of the edge', dot(e[0], m), sub(mul(S.v[1], dirs[i][0]), mul(S.v[0], dirs[i][1])))
            s = raw(c.real('s'))
            for i, e in enumerate(E):
                hit = and_(gt(s, 0), le(s, top) if dmax else lt(s, top), eq(lin(e, at(s)), 0), ge(par(e, at(s)), 0), le(par(e, at(s)), 1))
                c.prove('the surface is not met before', implies(hit, and_(gt(al, 0), le(al, s))), facts=facts + (fl if base else []), cut=cut)
            # normal vector
            nz = [or_(ne(x[0], 0), ne(x[1], 0)) for x in dv]
            Lf = [eq(hits[i][0], sub(mul(S.v[1], x[0]), mul(S.v[0], x[1]))) for i, x in enumerate(dv)]
            c.prove('the normal vector is orthogonal to the edge', implies(gt(al, 0), or_(*[and_(x, eq(dot(n, dv[i]), 0)) for i, x in enumerate(met)])), facts=f1 + nz, cut=cut)
            c.prove('the normal vector is unit', implies(gt(al, 0), eq(dot(n, n), 1)), facts=nz, cut=cut)
            # unit normal vectors of the edges, and the sign of their product with v
            fe = list(fl)
            for i in range(len(E)):
                nv = sqrt_(dot(dirs[i], dirs[i]))
                ex, ey = var('ex%d' % i, div(dirs[i][1], nv)), var('ey%d' % i, div(neg(dirs[i][0]), nv))
                sv, Lv = add(mul(ex, S.v[0]), mul(ey, S.v[1])), hits[i][0]
                c.prove('the norm of an edge is positive', gt(nv, 0), facts=nz, cut=cut)
                # with ex nv = d1, ey nv = -d0 and L = v1 d0 - v0 d1
                x = and_(implies(gt(Lv, 0), lt(sv, 0)), implies(lt(Lv, 0), gt(sv, 0)))
                p = c.fresh('p', 'R')
                prove_equal(c, 'product of the normal vector of an edge and the direction', mul(sv, nv), add(mul(mul(ex, nv), S.v[0]), mul(mul(ey, nv), S.v[1])))
                c.prove('sign of a product', implies(and_(gt(nv, 0), eq(mul(p, nv), neg(Lv))), and_(implies(gt(Lv, 0), lt(p, 0)), implies(lt(Lv, 0), gt(p, 0)))), cut=Cut(c))
                fe.append(x)
            c.prove('the normal vector is opposite to the direction', implies(gt(al, 0), le(dot(n, S.v), 0)), facts=fe + f1, cut=cut)
        return f
    EDGES['BaseTriangle'] = EDGES['Triangle']
    EDGES['BaseParallelogram'] = [EDGES['Parallelogram'][i] for i in (0, 1, 3, 2)]

    def still(name, dmax):
        """a null direction meets nothing"""
        def f(c):
            S = SymBase(c, name)
            c.let_reads = True
            import numpy as np
            v = np.empty(2, dtype=object)
            v[:] = [c.real('v%d' % k) for k in range(2)]
            for x in v:
                c.assume(eq(raw(x), 0))
            S.dmax = c.real('dmax', pos=True) if dmax else None
            S.case(lambda w: dict(v=['0', '0'], dmax=None))
            c.case_fn = None
            al, bo, n = S.build().distance(S.grid, v, S.dmax, True)
            c.prove('no hit value', eq(al.at(S.idx), -1))
        return f
    def cylinder(nb, dmax):
        """Cylinder.distance against the contract of the distance of its base (nb labels), an abstract convex set"""
        def f(c):
            import numpy as np
            import types
            from pylbm.elements.cylinder import Cylinder
            from vc.farr import FArr
            c.object_arrays = True
            num = lambda k: z(real(raw(k)))
            B = z3.RealSort()
            disc, curve = z3.Function('disc', B, B, z3.BoolSort()), z3.Function('curve', B, B, z3.BoolSort())
            obj = lambda xs: np.array(xs, dtype=object)
            iA = np.empty((3, 3), dtype=object)
            for i in range(3):
                for j in range(3):
                    iA[i, j] = c.real('b%d%d' % (i, j))
            C, V, P = [c.real('c%d' % i) for i in range(3)], [c.real('v%d' % i) for i in range(3)], [raw(c.real('p%d' % i)) for i in range(3)]
            D = c.real('dmax', pos=True) if dmax else None
            R = [[raw(iA[i, j]) for j in range(3)] for i in range(3)]
            p = [dot(R[k], [sub(P[j], raw(C[j])) for j in range(3)]) for k in range(3)]
            w = [dot(R[k], [raw(x) for x in V]) for k in range(3)]
            n = [c.int('n%d' % k, lo=1) for k in range(3)]
            idx = [c.int('i%d' % k, lo=0) for k in range(3)]
            for a, b in zip(idx, n):
                c.assume(a < b)
            ix, shape = tuple(raw(x) for x in idx), tuple(raw(x) for x in n)
            grid = [FArr.make(tuple(shape[k] if j == k else 1 for j in range(3)), (lambda k: lambda i: ite(eq(i[k], ix[k]), P[k], c.ufun('g%d' % k, i[k])))(k), 'R') for k in range(3)]
            lab = [c.int('l%d' % k) for k in range(nb + 2)]
            c.let_reads = True
            c.case(lambda v: None)
            aB, n0, n1 = c.real('aB'), c.real('n0'), c.real('n1')
            bB = c.real('bB')
            here = lambda i: and_(*[eq(x, y) for x, y in zip(i, ix)])
            calls = []

            def base_distance(g, v, dm, labels, normal=False):
                x, y = g
                calls.append(1)
                for t, k in ((x, 0), (y, 1)):
                    s = t.shape
                    c.prove('base: shape of the coordinates', len(s) == 3 and and_(*[eq(raw(u), m) for u, m in zip(s, shape)]))
                    prove_equal(c, 'base: coordinates in the frame', t.at(ix), p[k])
                for k in range(2):
                    prove_equal(c, 'base: direction in the frame', raw(v[k]), w[k])
                c.prove('base: greatest distance', dm is None if D is None else eq(raw(dm), raw(D)))
                c.prove('base: labels', len(labels) == nb and and_(*[eq(raw(u), raw(m)) for u, m in zip(labels, lab)]))
                c.prove('base: with the normal', bool(normal))
                arr = lambda nm, val: FArr.make(shape, lambda i: ite(here(i), raw(val), c.ufun(nm, *i)), 'R')
                nv = FArr.make(shape + (2,), lambda i: ite(here(i[:3]), ite(eq(i[3], 0), raw(n0), raw(n1)), c.ufun('nB', *i)), 'R')
                return arr('al', aB), arr('bo', bB), nv

            def base_inside(g):
                x, y = g
                return FArr.make(tuple(raw(t) for t in x.shape), lambda i: disc(num(x.at(i)), num(y.at(i))), 'B')
            base = types.SimpleNamespace(distance=base_distance, point_inside=base_inside)
            self = types.SimpleNamespace(iA=iA, center=obj(C), base=base, label=lab)
            v = obj(V)
            al, bo, nv = Cylinder.distance(self, grid, v, D, True)
            al, bo, nn = al.at(ix), bo.at(ix), [nv.at(ix + (k,)) for k in range(3)]
            c.prove('the base is used once', len(calls) == 1)
            # --- contract
            cut = Cut(c)
            pv = [cut.var('p%d' % k, x) for k, x in enumerate(p)]
            wv = [cut.var('w%d' % k, x) for k, x in enumerate(w)]
            at = lambda t: [add(pv[k], mul(t, wv[k])) for k in range(3)]
            top = raw(D) if dmax else 10**16
            ab = raw(aB)
            small = lambda t: le(t, top) if dmax else lt(t, top)
            dsc = lambda t: disc(*[num(x) for x in at(t)[:2]])
            crv = lambda t: curve(*[num(x) for x in at(t)[:2]])
            surf = lambda t: (lambda h: or_(and_(crv(t), ge(h, -1), le(h, 1)), and_(dsc(t), or_(eq(h, -1), eq(h, 1)))))(at(t)[2])
            s = raw(c.real('s'))
            flat = c.entails(z(eq(w[2], 0)))
            decal = Fr(1, 10**16) if flat else 0
            tt = cut.var('tt', div(sub(1, p[2]), add(w[2], decal)))
            tb = cut.var('tb', div(sub(-1, p[2]), add(w[2], decal)))
            if flat:
                facts = [eq(wv[2], 0), eq(mul(tt, decal), sub(1, pv[2])), eq(mul(tb, decal), sub(-1, pv[2]))]
                # a point is not within 1e-6 of the plane of a cap (unless on it), dmax < 1e9, or the base is bounded
                far = lambda x: or_(eq(x, 0), gt(x, Fr(1, 10**6)), lt(x, Fr(-1, 10**6)))
                facts += [far(sub(1, pv[2])), far(add(1, pv[2]))]
                facts += [lt(top, 10**9)] if dmax else [implies(gt(t, 10**9), not_(dsc(t))) for t in (tt, tb)]
            else:
                facts = [ne(wv[2], 0), eq(mul(tt, wv[2]), sub(1, pv[2])), eq(mul(tb, wv[2]), sub(-1, pv[2]))]
            if dmax:
                facts += [gt(top, 0), lt(top, 10**16)]
            facts += [or_(eq(ab, -1), and_(gt(ab, 0), small(ab), crv(ab)))]
            facts += [implies(and_(gt(t, 0), small(t), crv(t)), and_(gt(ab, 0), le(ab, t))) for t in (s,)]
            # the curve is in the closed convex set, and separates it from its complement
            facts += [implies(crv(t), dsc(t)) for t in (ab, s, 0)]
            facts += [implies(and_(dsc(ab), dsc(s), ge(t, ab), le(t, s)), dsc(t)) for t in (tt, tb)]
            facts += [implies(and_(gt(s, 0), small(s), not_(dsc(0)), dsc(s)), and_(gt(ab, 0), le(ab, s)))]
            facts += [not_(surf(0))]
            h = lambda t: at(t)[2]
            pieces = [(and_(eq(al, ab), gt(ab, 0), crv(ab), ge(h(ab), -1), le(h(ab), 1)), raw(bB), [raw(n0), raw(n1), 0]),
                      (and_(eq(al, tb), dsc(al), eq(h(al), -1)), raw(lab[-2]), [0, 0, 1]), (and_(eq(al, tt), dsc(al), eq(h(al), 1)), raw(lab[-1]), [0, 0, 1])]
            c.prove('no hit value', or_(gt(al, 0), eq(al, -1)), facts=facts, cut=cut)
            if dmax:
                c.prove('the distance is at most dmax', le(al, top), facts=facts, cut=cut)
            c.prove('the displaced point is on the surface, label of the piece', implies(gt(al, 0), or_(*[and_(x, eq(bo, l)) for x, l, _ in pieces])), facts=facts, cut=cut)
            c.prove('the surface is not met before', implies(and_(gt(s, 0), small(s), surf(s)), and_(gt(al, 0), le(al, s))), facts=facts, cut=cut)
            # normal vector: n = iA^T M where the covector M of the frame is along the gradient of the piece
            facts += [implies(gt(ab, 0), and_(or_(ne(raw(n0), 0), ne(raw(n1), 0)), le(add(mul(raw(n0), wv[0]), mul(raw(n1), wv[1])), 0)))]
            one = [[(z(R[j][k]), z(real(1 if (j, k) == (m, 0) else 0))) for j in range(3) for k in range(3)] for m in range(3)]
            M = [K.norm(z3.simplify(z3.substitute(z(real(nn[0])), *one[j]))) for j in range(3)]
            for k in range(3):
                prove_equal(c, 'the normal vector is a covector of the frame', nn[k], tot([mul(R[j][k], M[j]) for j in range(3)]))
            prove_equal(c, 'product of the normal vector and the direction', dot(nn, [raw(x) for x in V]), dot(M, w))
            if K.is_z3(nn[0]) and nn[0].decl().kind() == z3.Z3_OP_DIV and z3.is_const(nn[0].children()[1]):
                # the normalization: only its sign matters for the direction
                den = nn[0].children()[1]
                own = Cut(c)
                for x in nn:
                    own.var('u', x.children()[0])
                c.prove('the normal vector is divided by a positive number', gt(den, 0), cut=own)
                cut.hide(den)
                facts.append(gt(den, 0))
            c.prove('the normal vector is opposite to the direction', implies(gt(al, 0), le(dot(M, wv), 0)), facts=facts, cut=cut)
            cross = lambda a, b: and_(*[eq(mul(a[i], b[j]), mul(a[j], b[i])) for i, j in ((0, 1), (0, 2), (1, 2))])
            c.prove('the normal vector is orthogonal to the surface', implies(gt(al, 0), or_(*[and_(x, eq(bo, l), cross(M, N)) for x, l, N in pieces])), facts=facts, cut=cut)
            some = lambda u: or_(*[ne(x, 0) for x in u])
            c.prove('the covector is not null', implies(gt(al, 0), some(M)), facts=facts, cut=cut)
            mv, uv, g = [raw(c.fresh('m', 'R')) for _ in range(3)], [raw(c.fresh('u', 'R')) for _ in range(3)], raw(c.fresh('det', 'R'))
            DT = det(R)
            col = [tot([mul(R[j][k], mv[j]) for j in range(3)]) for k in range(3)]
            cof = [[det([[1 if l == k else 0 for l in range(3)] if i == j else R[i] for i in range(3)]) for k in range(3)] for j in range(3)]
            for j in range(3):
                prove_equal(c, 'inverse of the change of frame', mul(DT, mv[j]), dot(cof[j], col))
            cv = [raw(c.fresh('cof', 'R')) for _ in range(3)]
            c.prove('a covector of null image is null', implies(and_(ne(g, 0), ne(mv[0], 0), eq(mul(g, mv[0]), dot(cv, uv))), some(uv)), cut=Cut(c))
            own = Cut(c)
            for x in nn:
                x = K.z(x) if K.is_z3(x) else None
                if x is not None and x.decl().kind() == z3.Z3_OP_DIV:
                    own.var('u', x.children()[0])
            c.prove('the normal vector is unit', implies(some(nn), eq(dot(nn, nn), 1)), cut=own)
        return f
    out = []
    E = 'pylbm.elements.utils.'
    for name in ('Circle', 'Ellipse', 'Sphere', 'Ellipsoid', 'BaseCircle', 'BaseEllipse'):
        for dmax in (True, False):
            if name.startswith('Base'):
                fn = ['pylbm.elements.base.%s.distance' % name]
                out.append(('distance %s%s' % (name, '' if dmax else ', no dmax'), round_(name, dmax), dict(functions=fn, budget=200, timeout=30)))
                continue
            fn = ['pylbm.elements.%s.%s.distance' % (name.lower(), name), E + ('distance_ellipse' if name in ('Circle', 'Ellipse') else 'distance_ellipsoid')]
            out.append(('distance %s%s' % (name, '' if dmax else ', no dmax'), round_(name, dmax), dict(functions=fn, budget=200, timeout=30)))
    for name in EDGES:
        for dmax in (True, False):
            out.append(('distance %s%s' % (name, '' if dmax else ', no dmax'), lines(name, dmax),
                        dict(functions=['pylbm.elements.%s.%s.distance' % ('base' if name.startswith('Base') else name.lower(), name), E + 'distance_lines', E + 'intersection_two_lines'], budget=300, timeout=30)))
    for name in ('BaseCircle', 'BaseEllipse', 'BaseTriangle', 'BaseParallelogram'):
        for dmax in (True, False):
            out.append(('null direction %s%s' % (name, '' if dmax else ', no dmax'), still(name, dmax), dict(functions=['pylbm.elements.base.%s.distance' % name], budget=60, timeout=20)))
    for nb in (1, 3, 4):
        for dmax in (True, False):
            out.append(('distance Cylinder, base of %d labels%s' % (nb, '' if dmax else ', no dmax'), cylinder(nb, dmax), dict(functions=['pylbm.elements.cylinder.Cylinder.distance'], budget=200, timeout=30)))
    return out
