"""C18 the boundary values are taken at the wall points, at the current time"""


def check_case(case):
    from vc import bcase
    return bcase.check(case, 'C18')


def cases(tier, rng):
    from vc import bcase
    from vc.props import c17
    for name in ('d1 coupled', 'd2 coupled', 'd2q9', 'd3q7'):
        for time in (False, True):
            c = c17.case_of(name, 'BounceBack', 'numpy', None)
            c['bc']['0']['time'] = time
            c['bc']['0']['extra'] = '3/2'
            yield c
    while True:
        yield bcase.random_case(rng)


def proofs(tier):
    from vc.core import CTX, raw, wrap, add, sub, mul, eq, ne, and_, or_, not_, implies, lt, ge, ite, real, neg, z
    from vc.farr import FArr
    from vc import bsym
    from types import SimpleNamespace as NS
    import itertools
    B = 'pylbm.boundary.BoundaryMethod.'

    def values(name, order, kinds):
        def f(c, k):
            import pylbm.boundary as PB
            import sympy as sp
            c.ghosts['enumerate'] = True
            L = bsym.Links(c, name)
            dim, ns = L.dim, L.ns
            j = L.fix(k)
            c.case(lambda v: case_of(name, kinds))
            first = c.ufun('first label', j, sort='B')
            label = lambda t: ite(c.ufun('first label', t, sort='B'), 3, 7)
            ilabel = FArr.make((L.n,), lambda idx: label(idx[0]), 'I')
            ilabel.values = [3, 7]
            dx = raw(c.real('dx'))
            c.assume(dx > 0)
            x0 = [raw(c.real('x0_%d' % d)) for d in range(dim)]
            coords = [FArr.make((L.shape[d],), lambda idx, d=d: add(x0[d], mul(real(idx[0]), dx)), 'R') for d in range(dim)]
            cons = {sp.Symbol('a'): 0, sp.Symbol('b'): 1} if ns > 1 else {sp.Symbol('a'): 0}
            extra = object()
            calls = []

            def user(l, timed, more):
                def func(ff, mm, *args):
                    t = 0
                    if timed:
                        t, args = raw(args[0]), args[1:]
                    p, e = args[:dim], args[dim:]
                    calls.append((l, t))
                    c.prove('arguments of the user function', len(p) == dim and (len(e) == 1 and e[0] is extra if more else len(e) == 0))
                    for s in cons:
                        n = p[0]._shape

                        def get(idx, s=s):
                            at = [q._shape for q in p]
                            return c.ufun('value %s %d' % (s, l), real(t), *[q.at(tuple(i if not (isinstance(w, int) and w == 1) else 0 for i, w in zip(idx, q._shape))) for q in p])
                        mm[s] = FArr.make(n, get, 'R')
                return (func, (extra,)) if more else func
            value = {l: None if q is None else user(l, q[0], q[1]) for l, q in zip((3, 7), kinds)}
            timed = {l: bool(q and q[0]) for l, q in zip((3, 7), kinds)}
            eqs = lambda l, m: m[l] if l < len(cons) else c.ufun('eq%d' % l, *m[:len(cons)])

            def equilibrium(mm):
                r = mm.swaparray.copy().reader()
                for l in range(len(cons), ns):
                    mm[l] = FArr.make(mm.swaparray._shape[1:], lambda idx, l=l: eqs(l, [r((q,) + idx) for q in range(ns)]), 'R')

            def m2f(mm, ff):
                r = mm.swaparray.copy().reader()
                for q in range(ns):
                    ff[q] = FArr.make(mm.swaparray._shape[1:], lambda idx, q=q: c.ufun('f%d' % q, *[r((i,) + idx) for i in range(ns)]), 'R')
            t = raw(c.real('t'))
            sim = NS(container=NS(nv=ns, sorder=list(order), gpu_support=False), domain=NS(dim=dim, coords_halo=coords, dx=wrap(dx)), scheme=NS(consm=cons), equilibrium=equilibrium, m2f=m2f, t=wrap(t))
            gen = NS(backend='NUMPY', module=None)
            m = PB.BoundaryMethod(L.istore(), ilabel, L.distance(), FArr.symbolic('normal', (L.n, dim), 'R'), bsym.Wrapped(L.st), value, timed, [ns] + L.shape, gen)
            m.prepare_rhs(sim)
            x, d = L.inner(j), L.dist(j)
            # wall point: from the fluid point, the distance in the direction of the outside point
            p = [sub(add(x0[e], mul(real(x[e]), dx)), mul(mul(d, L.v[k][e]), dx)) for e in range(dim)]

            def want(l, tt):
                w = [c.ufun('value %s %d' % (s, l), real(tt), *p) for s in cons]
                w = [eqs(q, w + [None] * ns) for q in range(ns)]
                return [c.ufun('f%d' % q, *w) for q in range(ns)]

            for e in c.ghosts.get('enums', []):
                e.rank((j,))

            def check(tt, when):
                for q in range(ns):
                    g = m.feq.at((q, j))
                    for l, kd, on in zip((3, 7), kinds, (first, not_(first))):
                        if kd is None:
                            c.prove('%s: no value, zero' % when, implies(on, eq(g, 0)))
                        else:
                            c.prove('%s: equilibrium at the wall point' % when, implies(on, eq(g, want(l, tt if kd[0] else 0)[q])))
            check(0, 'start')
            c.prove('one call per label with a value', sorted(a[0] for a in calls) == [l for l, q in zip((3, 7), kinds) if q is not None])
            m.update_feq(sim)
            check(t, 'step')
            c.prove('one more call per label with a value of the time', sorted(a[0] for a in calls) == sorted([l for l, q in zip((3, 7), kinds) if q is not None] + [l for l, q in zip((3, 7), kinds) if q and q[0]]))
        return f
    out = []
    quick = {'d1q3': 2, 'd1q5': 1, 'd1 coupled': 1, 'd2q4': 2, 'd2q9': 1, 'd2 coupled': 1, 'd2 anisotropic': 1, 'd3q6': 2, 'd3q7': 1, 'd3 flat': 1}
    K = [(False, False), (False, True), (True, False), (True, True), None]
    pairs = list(itertools.product(K, K))
    for name in bsym.names():
        if tier == 'quick' and name not in quick:
            continue
        dim, vels = bsym.STENCILS[name]
        st = bsym.stencil(name)
        vel = [[int(a) for a in r] for r in st.get_all_velocities()]
        ks = [k for k in range(len(vel)) if any(vel[k])]
        orders = list(itertools.permutations(range(dim + 1)))
        if quick.get(name) != 2:
            orders = [tuple(range(dim + 1)), (dim,) + tuple(range(dim))]
        for oi, order in enumerate(orders):
            for pi, pr in enumerate(pairs):
                if pr == (None, None) or tier == 'quick' and (pi * 5 + oi * 3 + len(ks)) % 12:
                    continue
                def all_k(c, ks=ks, g=values(name, order, pr)):
                    for k in ks[:-1]:
                        if c.decide(c.bool('velocity%d' % k)):
                            return g(c, k)
                    g(c, ks[-1])
                show = '/'.join('none' if q is None else ('time' if q[0] else 'fixed') + (' args' if q[1] else '') for q in pr)
                out.append(('values %s order %s %s' % (name, ''.join(map(str, order)), show), all_k,
                            dict(functions=[B + 'prepare_rhs', B + 'update_feq', B + '__init__', 'pylbm.storage.Array.__init__', 'pylbm.storage.Array.__setitem__', 'pylbm.storage.Array.set_conserved_moments'], budget=200, timeout=20)))
    return out


def case_of(name, kinds):
    from vc.props import c17
    c = c17.case_of(name, 'BounceBack', 'numpy', None)
    k = [q for q in kinds if q is not None] or [(False, False)]
    b = c['bc']['0']
    b['time'] = any(q[0] for q in k)
    if any(q[1] for q in k):
        b['extra'] = '3/2'
    return c
