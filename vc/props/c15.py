"""C15 solid and fluid elements on the domain"""
from fractions import Fraction as Fr
import itertools


def wall(v, x, n, label):
    """sides of the box met by the displacement v of the cell x: (distance, label, normal)"""
    out = []
    for d, s in enumerate(v):
        e = lambda sg: tuple(sg if i == d else 0 for i in range(len(v)))
        if s < 0 and x[d] + s < 0:
            out.append((float(Fr(2 * x[d] + 1, 2 * -s)), label[2 * d], e(-1)))
        if s > 0 and x[d] + s > n[d] - 1:
            out.append((float(Fr(2 * (n[d] - 1 - x[d]) + 1, 2 * s)), label[2 * d + 1], e(1)))
    return out


def check_case(case):
    import numpy as np
    import pylbm
    from vc.geo import make, frame, inside, pieces, label_list
    from vc.dom import velocities
    dim, n = case['dim'], case['n']
    dx, lo, label = float(Fr(case['dx'])), [float(Fr(x)) for x in case['lo']], case['label']
    V = velocities(dim, case['vels'])
    h = [max(abs(v[d]) for v in V) for d in range(dim)]
    box = {k: [a, a + m * dx] for k, a, m in zip('xyz', lo, n)}
    box['label'] = label
    dico = dict(box=box, space_step=dx, elements=[make(e) for e in case['elems']], schemes=[dict(velocities=list(w)) for w in case['vels']])
    dom = pylbm.Domain(dico)
    U = list(zip(*[np.asarray(getattr(dom.stencil, 'uv' + a)).tolist() for a in 'xyz'[:dim]]))
    E = []
    for e in case['elems']:
        c, A, kind = frame(e)
        E.append((c, A, np.linalg.inv(A), kind, e['fluid'], pieces(kind), label_list(e)))
    cells = list(itertools.product(*[range(m) for m in n]))
    pos = lambda x: np.array([l + dx * (i + .5) for l, i in zip(lo, x)])
    fluid, near = {}, set()
    for x in cells:
        f = True
        for c, A, iA, kind, fl, P, lab in E:
            s = inside(kind, iA @ (pos(x) - c))
            if abs(s) < 1e-6:
                near.add(x)
            if s >= 0:
                f = fl
        fluid[x] = f
    H = np.array(h)
    for x in cells:
        if x in near:
            continue
        if dom.in_or_out[tuple(H + x)] != (999 if fluid[x] else -1):
            return ('in_or_out', 'the point %s is %s, in_or_out is %s' % (list(pos(x)), 'fluid' if fluid[x] else 'solid', dom.in_or_out[tuple(H + x)]))
    inner = tuple(slice(a, a + m) for a, m in zip(h, n))
    mask = np.ones(dom.in_or_out.shape, bool)
    mask[inner] = False
    if np.any(dom.in_or_out[mask] != -1):
        return ('halo', 'a point out of the box is not marked as outside')
    for k, v in enumerate(U):
        if np.any(dom.distance[k][mask] != 999) or np.any(dom.flag[k][mask] != 999) or np.any(dom.normal[k][mask] != 0):
            return ('halo', 'a link is recorded from a point out of the box, velocity %s' % (v,))
        for x in cells:
            y = tuple(a + b for a, b in zip(x, v))
            if x in near or y in near:
                continue
            i = (k,) + tuple(H + x)
            al, fg, nv = dom.distance[i], dom.flag[i], dom.normal[i]
            leaves = fluid[x] and not fluid.get(y, False)
            where = 'link from %s (%s) along %s' % (list(pos(x)), 'fluid' if fluid[x] else 'solid', v)
            if not leaves:
                if al != 999 or fg != 999:
                    return ('recorded', '%s: distance %s, label %s although the link does not leave the fluid' % (where, al, fg))
                if np.any(nv != 0):
                    return ('stale normal', '%s: normal %s although the link does not leave the fluid' % (where, list(nv)))
                continue
            W = wall(v, x, n, label)
            W = [w for w in W if w[1] != -1] or W
            W = [w for w in W if w[0] == min(u[0] for u in W)]
            if al == 999:
                # no boundary: an element which grazes the point is out of the contract
                return ('missing', '%s: the link leaves the fluid and has no distance' % where) if not W else ('missing wall', '%s: the link leaves the box and has no distance' % where)
            if not 0 < al <= 1 + 1e-12:
                return ('range', '%s: distance %s' % (where, al))
            ok = [abs(w[0] - al) < 1e-9 and w[1] == fg and tuple(nv) == w[2] for w in W]
            tol = 1e-6
            for j, (c, A, iA, kind, fl, P, lab) in enumerate(E):
                # a boundary strictly inside a later element is covered, if the point is inside this element too
                if any(min(inside(e[3], e[2] @ (pos(x) + a * dx * np.array(v, float) - e[0])) for a in (0, al)) > 1e-5 for e in E[j + 1:]):
                    continue
                q, w = iA @ (pos(x) - c), iA @ (dx * np.array(v, float))
                z = q + al * w
                if abs(inside(kind, z)) > tol * (1 + abs(z).max())**2:
                    continue
                for l, pol, g in P:
                    p = pol(q, w)
                    if lab[l] == fg and abs(p[2] + al * (p[1] + al * p[0])) < tol * (1 + abs(z).max())**2:
                        m = iA.T @ g(z)
                        m = m / np.linalg.norm(m)
                        ok.append(abs(abs(m @ nv) - 1) < 1e-4 and m @ nv * (m @ np.array(v)) >= -1e-9)
            if not any(ok):
                return ('label', '%s: distance %s, label %s, normal %s: no boundary of this label is met there' % (where, al, fg, list(nv)))
    return None


def cases(tier, rng):
    from vc.dom import STENCILS, velocities
    from vc.geo import random_elem, finish, q
    names = list(STENCILS)
    by = {d: [s for s in names if STENCILS[s][0] == d] for d in (2, 3)}
    while True:
        e = random_elem(rng)
        d = len(e['args'][0])
        el = [e]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            for _ in range(50):
                e = random_elem(rng)
                if len(e['args'][0]) == d:
                    break
            else:
                continue
            el.append(e)
        dx = rng.choice(['1/2', '1/3', '1/4', '1/7'] if d == 2 else ['1/2', '2/3', '1'])
        n = [rng.randint(3, 12 if d == 2 else 6) for _ in range(d)]
        lo = [q(rng, -3, 1, (3, 7, 8)) for _ in range(d)]
        for i, e in enumerate(el):
            e['label'] = rng.choice(['list', 10 + i])
            e['fluid'] = rng.random() < (.5 if i else .2)
            if rng.random() < .1:
                # out of the box
                e['args'][0][rng.randrange(d)] = q(rng, -9, 9, (3, 7))
            finish(e)
        yield dict(dim=d, vels=STENCILS[rng.choice(by[d])][1], n=n, lo=lo, dx=dx, label=[rng.choice([-1, 0, 1, 2, 3]) for _ in range(2 * d)], elems=el)


def proofs(tier):
    import z3
    from vc.core import raw, add, sub, mul, div, eq, ne, ge, gt, lt, le, and_, or_, not_, implies, real, ite, wrap, z
    from vc import core as K
    from vc.dom import STENCILS, SymDomain, Topo, dico
    from vc.farr import FArr
    D = 'pylbm.domain.Domain.'
    FN = [D + '__init__', D + '_Domain__add_elem', D + 'clean', D + 'shape_in', D + 'shape_halo', D + 'get_bounds_halo']

    def step(name, fluid):
        """one element added on an arbitrary domain which satisfies the invariant"""
        def f(c):
            import numpy as np
            import pylbm.domain as DM
            c.object_arrays = True
            S = SymDomain(c, name, None, labels=False)
            dim, n, h, V = S.dim, [raw(x) for x in S.size], S.h, S.V
            c.int_hints = list(S.n)
            dx = raw(S.dx)
            X0 = [raw(c.real('o%d' % d)) for d in range(dim)]     # coordinates of the first point of the halo
            total = [add(a, 2 * b) for a, b in zip(n, h)]
            P = [add(raw(c.int('x%d' % d, lo=0)), h[d]) for d in range(dim)]     # generic interior point
            for d in range(dim):
                c.assume(lt(sub(P[d], h[d]), n[d]))
            c.case(lambda v: None)
            pos = lambda i: [add(X0[d], mul(dx, real(i[d]))) for d in range(dim)]
            interior = lambda i: and_(*[and_(ge(a, b), lt(a, add(b, m))) for a, b, m in zip(i, h, n)])
            nv = len(V)
            uf = {}

            def arbitrary(nm, sort='R'):
                """state of the arrays before the element: in_or_out, distance, flag, normal"""
                # a point of the halo is never changed: outside, without link
                io = FArr.make(tuple(total), lambda i: ite(interior(i), ite(c.ufun(nm + 'fluid', *i, sort='B'), 999, -1), -1), 'R')
                arr = lambda a, df, so, k=0: (lambda i: ite(interior(i[1:dim + 1]), c.ufun(nm + a, *i, sort=so), df))
                dist = FArr.make((nv,) + tuple(total), arr('dist', 999, 'R'), 'R')
                flag = FArr.make((nv,) + tuple(total), arr('flag', 999, 'I'), 'I')
                norm = FArr.make((nv,) + tuple(total) + (dim,), arr('norm', 0, 'R'), 'R')
                return io, dist, flag, norm

            def shift(k):
                return [add(a, b) for a, b in zip(P, V[k])]

            # ---- the element
            lo, hi = [raw(c.real('l%d' % d)) for d in range(dim)], [raw(c.real('u%d' % d)) for d in range(dim)]
            num = lambda t: z(real(raw(t)))
            R_ = z3.RealSort()
            ins = z3.Function('ins', *[R_] * dim, z3.BoolSort())
            fun = {(a, k): z3.Function('%s%d' % (a, k), *[R_] * dim, z3.IntSort() if a == 'border' else R_) for a in ('alpha', 'border') + tuple('normal%d_' % e for e in range(dim)) for k in range(nv)}
            calls, snap, state = [], [], {}

            class Elem:
                isfluid = fluid
                label = [0]

                def get_bounds(self):
                    if not calls:
                        calls.append('bounds')
                        dom = state['dom']
                        dom.in_or_out, dom.distance, dom.flag, dom.normal = arbitrary('p')
                    lo_, hi_ = np.empty(dim, dtype=object), np.empty(dim, dtype=object)
                    lo_[:], hi_[:] = [wrap(x) for x in lo], [wrap(x) for x in hi]
                    return lo_, hi_

                def shape(self, grid):
                    sh = []
                    for d in range(dim):
                        s = tuple(raw(t) for t in grid[d].shape)
                        if len(s) != dim:
                            raise K.Unsupported('grid')
                        sh.append(s[d])
                    return tuple(sh)

                def at(self, grid, i):
                    return [grid[d].at(tuple(i[e] if e == d else 0 for e in range(dim))) for d in range(dim)]

                def point_inside(self, grid):
                    return FArr.make(self.shape(grid), lambda i: ins(*[num(x) for x in self.at(grid, i)]), 'B')

                def distance(self, grid, v, dmax=None, normal=False):
                    k = None
                    for j in range(nv):
                        if c.entails(z(and_(*[eq(raw(v[d]), mul(dx, V[j][d])) for d in range(dim)]))):
                            k = j
                    c.prove('element: the direction is a velocity times the space step', k is not None)
                    c.prove('element: at most one step', dmax is not None and eq(raw(dmax), 1))
                    c.prove('element: with the normal', bool(normal))
                    if k is None:
                        raise K.Unsupported('direction')
                    sh = self.shape(grid)
                    g = lambda a: (lambda i: fun[a, k](*[num(x) for x in self.at(grid, i)]))
                    nrm = FArr.make(sh + (dim,), lambda i: self.sel(i[dim], [g('normal%d_' % e)(i[:dim]) for e in range(dim)]), 'R')
                    return FArr.make(sh, g('alpha'), 'R'), FArr.make(sh, g('border'), 'I'), nrm

                def sel(self, e, L):
                    r = L[-1]
                    for j in range(len(L) - 2, -1, -1):
                        r = ite(eq(e, j), L[j], r)
                    return r
            E = Elem()
            box = {}

            def init(self, label):
                self.coords_halo = [FArr.make((total[d],), (lambda d: lambda i: add(X0[d], mul(dx, real(i[0]))))(d), 'R') for d in range(dim)]
                self.in_or_out, self.distance, self.flag, self.normal = box['state'] = arbitrary('b')
            old = DM.Domain._Domain__add_init, DM.Domain.clean, DM.Domain.__str__, DM.MpiTopology, DM.Geometry
            real_clean, real_geom = old[1], old[4]

            def clean(self):
                snap.append([x.copy() for x in (self.in_or_out, self.distance, self.flag, self.normal)])
                return real_clean(self)

            def geom(d, need_validation=True):
                g = real_geom(d, need_validation=False)
                g.list_elem.append(E)
                return g
            DM.Domain._Domain__add_init, DM.Domain.clean, DM.Domain.__str__, DM.MpiTopology, DM.Geometry = init, clean, (lambda self: ''), (lambda dim, period, comm=None: Topo([[a, b] for a, b in zip(S.r0, S.r1)])), geom
            try:
                dom = DM.Domain.__new__(DM.Domain)
                state['dom'] = dom
                dom.__init__(dico(dim, S.vels, [[a, b] for a, b in zip(S.min, S.max)], S.dx), need_validation=False)
            finally:
                DM.Domain._Domain__add_init, DM.Domain.clean, DM.Domain.__str__, DM.MpiTopology, DM.Geometry = old
            c.prove('the element is added', bool(calls))
            U = [tuple(int(a[k]) for a in (dom.stencil.uvx, dom.stencil.uvy, dom.stencil.uvz)[:dim]) for k in range(nv)]
            if U != [tuple(v) for v in V]:
                raise K.Unsupported('order of the velocities')
            before = arbitrary('p')
            after = snap[0]
            wall = box['state']
            # the element covers nothing out of its bounds
            inb = lambda x: and_(*[and_(ge(a, l), le(a, u)) for a, l, u in zip(x, lo, hi)])
            IN = lambda i: ins(*[num(x) for x in pos(i)])
            facts0 = [implies(IN(P), inb(pos(P)))] + [le(l, u) for l, u in zip(lo, hi)]
            io0, io1 = before[0].at(P), after[0].at(P)
            c.prove('a point is fluid if the last element which contains it is', eq(io1, ite(IN(P), 999 if fluid else -1, io0)), facts=facts0)
            Y = [raw(c.int('y%d' % d, lo=0)) for d in range(dim)]
            halo = and_(*[lt(a, b) for a, b in zip(Y, total)], not_(interior(Y)))
            c.prove('the halo is outside', implies(halo, eq(after[0].at(Y), -1)))
            final = [dom.in_or_out, dom.distance, dom.flag, dom.normal]
            for k in range(nv):
                if not any(V[k]):
                    continue
                y = shift(k)
                get = lambda st: (st[1].at([k] + P), st[2].at([k] + P), [st[3].at([k] + P + [e]) for e in range(dim)])
                d0, f0, n0 = get(before)
                d1, f1, n1 = get(after)
                db, fb, nb = get(wall)
                d2, f2, n2 = get(final)
                pp = [num(x) for x in pos(P)]
                al, bo, nE = fun['alpha', k](*pp), fun['border', k](*pp), [fun['normal%d_' % e, k](*pp) for e in range(dim)]
                yi0, yi1, xi0, xi1 = before[0].at(y), after[0].at(y), io0, io1
                inbox = interior(y)

                def clear(d, f, n):
                    return and_(eq(d, 999), eq(f, 999), *[eq(a, 0) for a in n])

                def inv(x, y, d, f, n, split=False):
                    """links of a fluid point towards a fluid point: nothing; solid point: no distance; the others: in (0, 1]"""
                    L = [implies(eq(x, -1), and_(eq(d, 999), eq(f, 999))), implies(and_(eq(x, 999), eq(y, 999)), clear(d, f, n)),
                         implies(and_(eq(x, 999), eq(y, -1)), and_(gt(d, 0), le(d, 1)))]
                    return L if split else and_(*L)
                # contract of the element: the distance is -1 or in (0, 1], positive when the link crosses the surface, and the
                # displaced point is within the bounds (C13, C14)
                Q = [add(a, mul(al, mul(dx, v))) for a, v in zip(pos(P), V[k])]
                Iy = and_(inbox, IN(y))
                facts = facts0 + [implies(IN(y), inb(pos(y))), or_(eq(al, -1), and_(gt(al, 0), le(al, 1), inb(Q))),
                                  implies(ne(z(IN(P)), z(IN(y))), gt(al, 0)),
                                  inv(xi0, yi0, d0, f0, n0),
                                  # the walls seen from a point of the box (C12)
                                  implies(inbox, clear(db, fb, nb)), implies(not_(inbox), and_(gt(db, 0), le(db, 1)))]
                facts = [z(raw(x)) for x in facts]
                tag = str(tuple(V[k]))
                for nm, g in zip(('solid point without distance', 'no distance between fluid points', 'distance of a link which leaves the fluid'), inv(xi1, yi1, d1, f1, n1, True)):
                    c.prove('%s %s' % (nm, tag), g, facts=facts)
                same = lambda a, b: and_(eq(a[0], b[0]), eq(a[1], b[1]), *[eq(u, w) for u, w in zip(a[2], b[2])])
                new = (d1, f1, n1)
                # the label and the normal are those of a boundary met by the link, at its distance
                c.prove('label and normal of the distance %s' % tag, implies(and_(eq(xi1, 999), eq(yi1, -1)),
                        or_(and_(eq(xi0, 999), same(new, (d0, f0, n0))), and_(gt(al, 0), same(new, (al, bo, [K.neg(t) for t in nE]))), and_(not_(inbox), same(new, (db, fb, nb))))), facts=facts)
                if not fluid:
                    c.prove('a solid element hides what is behind %s' % tag, implies(and_(eq(xi1, 999), gt(al, 0), eq(yi1, -1)), le(d1, al)), facts=facts)
                    c.prove('a boundary met before stays %s' % tag, implies(and_(eq(xi1, 999), eq(yi0, -1)), le(d1, d0)), facts=facts)
                else:
                    prior = and_(eq(xi0, 999), eq(yi0, -1))
                    c.prove('the element is left before the boundary %s' % tag, implies(and_(IN(P), gt(al, 0), eq(yi1, -1), inbox), and_(ge(d1, al), implies(prior, ge(d1, d0)))), facts=facts)
                    c.prove('a fluid element hides the elements behind its points, not the walls %s' % tag, implies(and_(IN(P), le(al, 0), eq(yi1, -1)), same(new, (db, fb, nb))), facts=facts)
                    c.prove('the wall is met first %s' % tag, implies(and_(IN(P), eq(yi1, -1), not_(inbox)), le(d1, add(db, Fr(1, 10**9)))), facts=facts)
                    c.prove('the element does not change the links of the other points %s' % tag, implies(and_(not_(IN(P)), eq(yi1, -1), eq(xi1, 999)), same(new, (d0, f0, n0))), facts=facts)
                c.prove('clean: only the links which leave the fluid %s' % tag, and_(implies(or_(eq(xi1, -1), eq(yi1, 999)), clear(d2, f2, n2)),
                        implies(and_(eq(xi1, 999), eq(yi1, -1)), same((d2, f2, n2), new)), eq(final[0].at(P), xi1)), facts=facts + [z(raw(inv(xi1, yi1, d1, f1, n1)))])
                hy = [k] + Y
                c.prove('no link from the halo %s' % tag, implies(halo, clear(final[1].at(hy), final[2].at(hy), [final[3].at(hy + [e]) for e in range(dim)])))
        return f
    out = []
    for name, (dim, vels) in STENCILS.items():
        if dim == 1:
            continue
        for fluid in (False, True):
            out.append(('%s element, %s' % ('fluid' if fluid else 'solid', name), step(name, fluid), dict(functions=FN, budget=300, timeout=20)))
    return out
