"""C16 each boundary link is stored once, with the method of its label"""


def check_case(case):
    from vc import bcase
    return bcase.check(case, 'C16')


def cases(tier, rng):
    from vc import bcase
    from vc.props import c17
    for m in bcase.METHODS[:2]:
        for name in ('d1 coupled', 'd2 coupled', 'd2q9', 'd3q7'):
            yield c17.case_of(name, m, 'numpy', None)
    while True:
        yield bcase.random_case(rng)


def proofs(tier):
    from vc.core import CTX, raw, wrap, add, sub, eq, ne, and_, or_, not_, implies, lt, ge, le, ite, z
    from vc.farr import FArr
    from vc import bsym
    from types import SimpleNamespace as NS
    B = 'pylbm.boundary.'

    def case_of(name, method='BounceBack'):
        from vc.props import c17
        return c17.case_of(name, method, 'numpy', None)

    def velocity(name):
        def f(c):
            import pylbm.boundary as PB
            c.ghosts['enumerate'] = True
            st = bsym.stencil(name)
            dim, nu = st.dim, st.unvtot
            c.case(lambda v: case_of(name))
            shape = [raw(c.int('size%d' % d, lo=1)) for d in range(dim)]
            flag = FArr.symbolic('flag', [nu] + shape, 'I')
            dist = FArr.symbolic('distance', [nu] + shape, 'R')
            nrm = FArr.symbolic('normal', [nu] + shape + [dim], 'R')
            f0, d0, n0 = flag.copy(), dist.copy(), nrm.copy()
            label = c.int('label')
            # the number of the velocity: one path per value
            for k in range(nu - 1):
                if c.decide(c.bool('velocity%d' % k)):
                    break
            else:
                k = nu - 1
            bv = PB.BoundaryVelocity(NS(stencil=st, flag=flag, distance=dist, normal=nrm), label, k)
            v = [int(a) for a in st.unique_velocities[k].v]
            o = [-a for a in v]
            s = [i for i, u in enumerate(st.unique_velocities) if [int(a) for a in u.v] == o][0]
            N = bv.indices.shape[1]
            N = raw(N)
            x = [raw(c.int('x%d' % d, lo=0)) for d in range(dim)]
            for a, m in zip(x, shape):
                c.assume(lt(a, m))
            c.prove('two rows', eq(raw(bv.indices.shape[0]), dim))
            c.prove('lengths', and_(eq(raw(bv.distance.shape[0]), N), eq(raw(bv.normal.shape[0]), N), eq(raw(bv.normal.shape[1]), dim)))
            on = eq(f0.at((s,) + tuple(x)), raw(label))
            js = [e.rank(x) for e in c.ghosts.get('enums', [])]
            here = lambda j: and_(ge(j, 0), lt(j, N), *[eq(bv.indices.at((d, j)), add(a, o[d])) for d, a in enumerate(x)])
            c.prove('the link of the label at a point is in the list', implies(on, or_(*[here(j) for j in js])) if js else not_(on))
            j = raw(c.int('j', lo=0))
            c.assume(lt(j, N))
            p = [sub(bv.indices.at((d, j)), o[d]) for d in range(dim)]
            c.prove('an entry is an outside point of a link of the label', and_(*[and_(ge(a, 0), lt(a, m)) for a, m in zip(p, shape)], eq(f0.at((s,) + tuple(p)), raw(label))))
            c.prove('distance of the link', eq(bv.distance.at((j,)), d0.at((s,) + tuple(p))))
            for e in range(dim):
                c.prove('normal of the link', eq(bv.normal.at((j, e)), n0.at((s,) + tuple(p) + (e,))))
            i = raw(c.int('i', lo=0))
            c.assume(lt(i, N))
            c.prove('an entry is stored once', implies(and_(*[eq(bv.indices.at((d, j)), bv.indices.at((d, i))) for d in range(dim)]), eq(i, j)))
            y = [raw(c.int('y%d' % d)) for d in range(dim)]
            c.prove('the domain is kept', and_(eq(flag.at((s,) + tuple(x)), f0.at((s,) + tuple(x))), eq(dist.at((s,) + tuple(x)), d0.at((s,) + tuple(x)))))
        return f

    class Domain:
        """domain with given labels"""

        def __init__(self, st, labels, shape):
            self.stencil, self.labels, self.dim = st, labels, st.dim
            self.distance = NS(shape=shape)

        def list_of_labels(self):
            return self.labels

    def assemble(name, labels, method_of, pattern):
        """Boundary.__init__ on the contract of BoundaryVelocity: list (label, velocity) empty or not as in the pattern"""
        def f(c):
            import pylbm.boundary as PB
            c.ghosts['enumerate'] = True
            st = bsym.stencil(name)
            dim, nu = st.dim, st.unvtot
            c.case(lambda v: case_of(name))
            asked = []
            lists = {}

            def BV(domain, label, k):
                asked.append((label, k))
                t = '%s_%d' % (str(label).replace('-', 'm'), k)
                if pattern(labels.index(label), k):
                    n = raw(c.int('n_' + t, lo=1))
                else:
                    n = 0
                b = NS(label=label, indices=FArr.symbolic('ind_' + t, (dim, n), 'I'), distance=FArr.symbolic('dist_' + t, (n,), 'R'),
                       normal=FArr.symbolic('normal_' + t, (n, dim), 'R'))
                lists[label, k] = (n, b.indices.copy(), b.distance.copy(), b.normal.copy())
                return b
            made = []

            def method(tag):
                def init(self, *a):
                    self.tag, self.args = tag, a
                    made.append(self)
                return type(tag, (), dict(__init__=init))
            cls = {}
            bc = {}
            values = {}
            ns = st.nstencils
            for q, l in enumerate(labels):
                if l in (-1, -2):
                    continue
                bc[l] = dict(method={k: cls.setdefault(method_of(q, k), method(method_of(q, k))) for k in range(ns)})
                if q % 2 == 0:
                    bc[l]['value'] = values[l] = object()
                if q % 3 == 0:
                    bc[l]['time_bc'] = True
            shape = (nu, 5, 6)
            dom, gen = Domain(st, labels, shape), object()
            old = PB.BoundaryVelocity
            PB.BoundaryVelocity = BV
            try:
                bo = PB.Boundary(dom, gen, dict(boundary_conditions=bc))
            finally:
                PB.BoundaryVelocity = old
            c.prove('one list per label and velocity', sorted(set(asked)) == sorted((l, k) for l in labels if l not in (-1, -2) for k in range(nu)))
            c.prove('the methods are those built', bo.methods == made and len({m.tag for m in made}) == len(made))
            used = set()
            total = {}
            for q, l in enumerate(labels):
                if l in (-1, -2):
                    continue
                for k in range(ns):
                    for i, num in enumerate(st.num[k]):
                        u = int(st.unum2index[num])
                        if not pattern(q, u):
                            continue
                        tag = method_of(q, k)
                        m = [x for x in made if x.tag == tag]
                        c.prove('a method with links is built', len(m) == 1)
                        istore, ilabel, distance, normal = m[0].args[:4]
                        n, ind, dist, nrm = lists[l, u]
                        off = total.get(tag, 0)
                        total[tag] = add(off, n)
                        # the order of the lists in a method is the one of the labels, schemes, velocities; any order is accepted by the offsets
                        used.add((tag, l, k, i))
                        c.ghosts.setdefault('blocks', []).append((tag, istore, ilabel, distance, normal, n, ind, dist, nrm, int(st.nv_ptr[k]) + i, l))
            blocks = c.ghosts.get('blocks', [])
            c.prove('no other method is built', {m.tag for m in made} == {b[0] for b in blocks})
            for m in made:
                istore, ilabel, distance, normal, stn, val, tim, shp, g = m.args
                N = total[m.tag]
                c.prove('lengths', and_(eq(raw(istore.shape[0]), dim + 1), *[eq(raw(a), N) for a in (istore.shape[1], ilabel.shape[0], distance.shape[0], normal.shape[0])], eq(raw(normal.shape[1]), dim)))
                c.prove('arguments', stn is st and shp is shape and g is gen)
                for l in bc:
                    c.prove('value and time flag of the label', val[l] is values.get(l) and tim[l] is bool(bc[l].get('time_bc', False)))
            for tag in {b[0] for b in blocks}:
                mine = [b for b in blocks if b[0] == tag]
                j = raw(c.int('entry'))
                # each list is stored, at an offset: candidates are the ends of the lists before it
                offs = offsets(mine, lambda off, b: matches(c, b, off, j, dim))
                c.prove('the links of every label and velocity are stored once in %s' % tag, offs is not None)
                off = 0
                for (b, o) in offs or []:
                    c.prove('contiguous lists', eq(o, off))
                    n = b[5]
                    c.prove('link, label, distance, normal', implies(and_(ge(j, 0), lt(j, n)), matches_raw(b, o, j, dim)))
                    off = add(off, n)
        return f

    def matches_raw(b, off, j, dim):
        tag, istore, ilabel, distance, normal, n, ind, dist, nrm, K, l = b
        t = add(off, j)
        return and_(eq(istore.at((0, t)), K), *[eq(istore.at((1 + d, t)), ind.at((d, j))) for d in range(dim)],
                    eq(ilabel.at((t,)), l), eq(distance.at((t,)), dist.at((j,))), *[eq(normal.at((t, d)), nrm.at((j, d))) for d in range(dim)])

    def matches(c, b, off, j, dim):
        return c.entails(implies(and_(ge(j, 0), lt(j, b[5])), matches_raw(b, off, j, dim)))

    def offsets(mine, ok):
        """an order of the lists, found one after the other"""
        left, off, out = list(mine), 0, []
        while left:
            for b in left:
                if ok(off, b):
                    break
            else:
                return None
            left.remove(b)
            out.append((b, off))
            off = add(off, b[5])
        return out

    def calls(kind):
        def f(c):
            import pylbm.simulation as PS
            log = []

            def rec(n):
                return lambda *a, **k: log.append((n,) + a)
            n = 3
            M = [NS(**{a: rec((q, a)) for a in ('update_feq', 'set_rhs', 'update', 'prepare_rhs', 'fix_iload', 'move2gpu')}) for q in range(n)]
            F = NS(update=rec('F.update'))
            sim = PS.Simulation.__new__(PS.Simulation)
            sim.__dict__.update(container=NS(F=F), bc=NS(methods=M), t=c.real('t'))
            if kind == 'step':
                PS.Simulation.boundary_condition(sim)
                c.prove('periodic and process copies first, once', log[0][0] == 'F.update' and sum(e[0] == 'F.update' for e in log) == 1)
                for q in range(n):
                    mine = [e for e in log if e[0][0] == q]
                    c.prove('every method is applied once, its values first', [e[0][1] for e in mine] == ['update_feq', 'set_rhs', 'update'] and mine[0][1] is sim and mine[2][1] is F)
                c.prove('in the order of the methods', [e[0][0] for e in log if e[0] != 'F.update' and e[0][1] == 'update'] == list(range(n)))
            else:
                sim.initialization = rec('initialization')
                PS.Simulation._initialize(sim)
                for q in range(n):
                    mine = [e for e in log if e[0] != 'initialization' and e[0][0] == q]
                    c.prove('values of the wall, then transposed lists, then right hand side', [e[0][1] for e in mine] == ['prepare_rhs', 'fix_iload', 'set_rhs', 'move2gpu'] and mine[0][1] is sim)
                c.prove('initial data set once', sum(e[0] == 'initialization' for e in log) == 1 and sim._need_init is False)
        return f
    out = []
    quick = ('d1q2', 'd1q3', 'd1q5', 'd1 coupled', 'd2q4', 'd2q5', 'd2q9', 'd2 coupled', 'd2 anisotropic', 'd2 x only', 'd3q6', 'd3q7', 'd3 flat')
    names = [n for n in bsym.names() if tier != 'quick' or n in quick]
    for name in names:
        out.append(('links of a label %s' % name, velocity(name), dict(functions=[B + 'BoundaryVelocity.__init__', 'pylbm.stencil.Stencil.unique_velocities', 'pylbm.stencil.Velocity.get_symmetric'], budget=200, timeout=20)))
    FB = [B + 'Boundary.__init__', 'pylbm.stencil.Stencil.num', 'pylbm.stencil.Stencil.nv_ptr']
    import random
    for name in names:
        dim, vels = bsym.STENCILS[name]
        ns, nu = len(vels), len({a for l in vels for a in l})
        for li, labels in enumerate(([0, 3], [-1, 7], [2, -2, 5, -1, 9]) if nu <= 7 else ([4, -2, 1],)):
            real_labels = [l for l in labels if l not in (-1, -2)]
            for mi, mo in enumerate((lambda q, k: 'A', lambda q, k: 'AB'[(q + k) % 2], lambda q, k: 'ABC'[(q * 2 + k) % 3])):
                rng = random.Random(li * 10 + mi)
                pats = [lambda q, u: True, lambda q, u: False, lambda q, u: u % 2 == q % 2]
                for r in range(2 if nu <= 7 else 1):
                    S = {(q, u): rng.random() < .5 for q in range(len(labels)) for u in range(nu)}
                    pats.append(lambda q, u, S=S: S[q, u])
                if tier == 'quick' and nu > 7:
                    pats = pats[::2] if mi else pats
                def every(c, name=name, labels=labels, mo=mo, pats=pats):
                    for i, p in enumerate(pats[:-1]):
                        if c.decide(c.bool('pattern%d' % i)):
                            return assemble(name, labels, mo, p)(c)
                    assemble(name, labels, mo, pats[-1])(c)
                out.append(('lists of the methods %s labels %s methods %d' % (name, labels, mi), every, dict(functions=FB, budget=200, timeout=20)))
    out.append(('boundary condition of a step', calls('step'), dict(functions=['pylbm.simulation.Simulation.boundary_condition'], budget=30)))
    out.append(('initialisation of the boundary', calls('init'), dict(functions=['pylbm.simulation.Simulation._initialize'], budget=30)))
    return out
