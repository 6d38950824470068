"""C19 moments and distributions stay consistent through any sequence of reads, writes, initialisations and steps"""


def check_case(case):
    import numpy as np
    from vc import bcase
    sim, ref, values, dx = bcase.build(case)
    dim = sim.dim
    rng = np.random.default_rng(case['seed'])
    C = sim.container
    h = [int(a) for a in sim.domain.stencil.vmax]
    inner = tuple(slice(a, -a) if a else slice(None) for a in h)
    cons = list(sim.scheme.consm)
    ns = ref.n

    big = [1.]

    def scale(*a):
        for x in a:
            x = np.abs(np.asarray(x, dtype=float))
            if x.size and np.isfinite(x).all():
                big[0] = max(big[0], float(x.max()))
        return 1e-8 * big[0]

    def close(a, b):
        return np.allclose(a, b, rtol=1e-8, atol=scale(a, b))

    def peek():
        """distributions and moments, read by the user (copies)"""
        F = np.array([np.array(sim.F[k]) for k in range(ns)])
        m = np.array([np.array(sim.m[k]) for k in range(ns)])
        F2 = np.array([np.array(sim.F[k]) for k in range(ns)])
        if not np.array_equal(F, F2):
            return None, None, ('read', 'reading the moments modifies the distributions')
        mm = np.array([a + 0 * F[0] for a in ref.f2m(F)])
        scale(F)
        if not close(m, mm):
            w = np.argwhere(~np.isclose(m, mm, rtol=1e-8, atol=scale(m, mm)))[0]
            return F, m, ('m = M f', 'moment %d at %s is %r, M f is %r' % (w[0], tuple(int(a) for a in w[1:]), float(m[tuple(w)]), float(mm[tuple(w)])))
        for c, i in sim.scheme.consm.items():
            if not np.array_equal(np.array(sim.m[c]), m[int(i)]) or not np.array_equal(np.array(sim.m_halo[c])[inner], m[int(i)]):
                return F, m, ('name', 'the moment %s is not the moment %d' % (c, i))
        return F, m, None
    t, nt = 0., 0
    F, m, r = peek()
    if r:
        return r
    shape = tuple(C.F[:].shape[1:])
    for op in case['ops']:
        o = op[0]
        what = ' after %s of %s' % (op, case['ops'])
        if o == 'step':
            for _ in range(op[1]):
                sim.one_time_step()
                t += sim.dt
                nt += 1
            if sim.nt != nt or abs(sim.t - t) > 1e-12 * max(1, nt):
                return ('time', 'nt = %s, t = %s instead of %s, %s' % (sim.nt, sim.t, nt, t) + what)
        elif o == 'read':
            getattr(sim, op[1])[op[2] % ns]
        elif o == 'init':
            sim.initialization()
        elif o in ('F_halo', 'm_halo'):
            k = op[1] % ns
            v = rng.uniform(.5, 1.5, shape) if op[2] else float(rng.uniform(.5, 1.5))
            key = k
            if o == 'm_halo' and op[3]:
                key = cons[k % len(cons)]
                k = int(sim.scheme.consm[key])
            getattr(sim, o)[key] = v
            got = np.array(getattr(sim, o)[key])
            if not np.array_equal(got, v + np.zeros(shape)):
                return ('value', 'the values written in %s[%s] are not read back' % (o, key) + what)
            F1, m1, r = peek() if case['peek'] else (None, None, None)
            if F1 is not None:
                A, B = (F1, F) if o == 'F_halo' else (m1, m)
                for j in range(ns):
                    if j == k:
                        if not np.array_equal(A[j], (v + np.zeros(shape))[inner]):
                            return ('value', 'the values written in %s[%s] are not read back' % (o, key) + what)
                    elif not close(A[j], B[j]):
                        return ('others', 'writing %s[%s] modifies the entry %d' % (o, key, j) + what)
        if case['peek'] or op is case['ops'][-1]:
            F, m, r = peek()
            if r:
                return (r[0], r[1] + what)
    return None


def make(rng, backend=None):
    from vc import bcase
    c = bcase.random_case(rng, backend=backend, value=rng.random() < .3)
    ops = []
    for _ in range(rng.randint(1, 7)):
        o = rng.choice(['step', 'step', 'read', 'read', 'F_halo', 'm_halo', 'm_halo', 'init'])
        if o == 'step':
            ops.append([o, rng.randint(1, 2)])
        elif o == 'read':
            ops.append([o, rng.choice(['m', 'F', 'm_halo', 'F_halo']), rng.randint(0, 30)])
        elif o == 'init':
            ops.append([o])
        else:
            ops.append([o, rng.randint(0, 30), rng.random() < .6, rng.random() < .4])
    c['ops'] = ops
    c['peek'] = rng.random() < .5
    return c


def cases(tier, rng):
    import random
    r = random.Random(2)
    for be in ('numpy', 'cython'):
        for ops in ([['m_halo', 0, True, False]], [['step', 1], ['m_halo', 1, True, False]], [['read', 'm', 0], ['F_halo', 0, True, False]], [['m_halo', 0, False, True], ['step', 1]],
                    [['F_halo', 1, True, False], ['m_halo', 0, True, False], ['read', 'F', 0]]):
            for p in (True, False):
                c = make(r, be)
                c.update(ops=ops, peek=p)
                yield c
    while True:
        yield make(rng)


def proofs(tier):
    from vc.core import CTX, raw, wrap, add, sub, mul, eq, ne, and_, or_, not_, implies, lt, ge, ite, real, z, le, tobool
    from vc.farr import FArr
    from types import SimpleNamespace as NS
    import itertools
    S = 'pylbm.simulation.Simulation.'

    class World:
        """simulation on real arrays of any size and content; kernels replaced by their contracts (C05, C06)"""

        def __init__(self, c, dim, ns, nc, halo, order, two):
            import pylbm.simulation as PS
            import sympy as sp
            from pylbm.storage import Array
            self.c, self.dim, self.ns, self.nc, self.halo = c, dim, ns, nc, halo
            self.size = [raw(c.int('size%d' % d, lo=max(1, halo[d]))) for d in range(dim)]
            self.shape = [add(a, 2 * h) for a, h in zip(self.size, halo)]
            self.names = [sp.Symbol('w%d' % i) for i in range(nc)]
            # conserved moments come first
            consm = {s: i for i, s in enumerate(self.names)}

            def array(name):
                a = Array(ns, [wrap(x) for x in self.shape], list(halo), list(order))
                a.set_conserved_moments(consm)
                v = FArr.symbolic(name, [ns] + self.shape, 'R')
                a.swaparray[...] = v
                return a
            C = NS(m=array('m'), F=array('f'), sorder=list(order), nv=ns, gpu_support=False, vmax=list(halo))
            C.Fnew = array('g') if two else C.F
            self.C, self.two = C, two
            sim = PS.Simulation.__new__(PS.Simulation)
            self.log = []
            sim.__dict__.update(container=C, dim=dim, t=c.real('t'), nt=c.int('nt'), dt_=c.real('dt'), extra_parameters={}, scheme=NS(consm=consm, param={}), bc=NS(methods=[]), algo=self, _update_m=c.bool('stale'), _need_init=False,
                                init_type='moments', init_data=None)
            C.F.update = lambda: None
            self.sim = sim
            self.x = [raw(c.int('x%d' % d)) for d in range(dim)]
            for a, s in zip(self.x, self.shape):
                c.assume(and_(ge(a, 0), lt(a, s)))
            self.inside = and_(*[and_(ge(a, h), lt(a, add(s, h))) for a, s, h in zip(self.x, self.size, halo)])

        # m = M f and f = M^-1 m: arbitrary inverse maps
        def M(self, f):
            m = [CTX.ufun('M%d' % i, *f) for i in range(self.ns)]
            for i in range(self.ns):
                CTX.add(eq(CTX.ufun('I%d' % i, *m), f[i]))
            return m

        def I(self, m):
            f = [CTX.ufun('I%d' % i, *m) for i in range(self.ns)]
            for i in range(self.ns):
                CTX.add(eq(CTX.ufun('M%d' % i, *f), m[i]))
            return f

        def point(self, a, x=None):
            x = self.x if x is None else x
            return [a.at((k,) + tuple(x)) for k in range(self.ns)]

        def state(self):
            """(distributions, moments returned) at the generic point"""
            C = self.C
            f = self.point(self.sim.container.F.swaparray)
            stored = self.point(self.sim.container.m.swaparray)
            u = tobool(raw(self.sim._update_m))
            Mf = self.M(f)
            return f, [ite(u, a, b) for a, b in zip(Mf, stored)], stored

        def consistent(self):
            f, m, stored = self.state()
            return and_(*[eq(a, b) for a, b in zip(m, self.M(f))])

        def call_function(self, name, sim, m_user=None, f_user=None, **kw):
            self.log.append(name)
            C = sim.container
            m = C.m if m_user is None else m_user
            f = C.F if f_user is None else f_user
            mr, fr = m.swaparray.copy(), f.swaparray.copy()
            sh = m.swaparray._shape
            put = lambda a, fn: a.swaparray.__setitem__(Ellipsis, FArr.make(sh, lambda idx: pick(fn(idx[1:]), idx[0]), 'R'))

            def pick(L, k):
                r = L[-1]
                for i in range(len(L) - 2, -1, -1):
                    r = ite(eq(k, i), L[i], r)
                return r
            if name == 'f2m':
                put(m, lambda x: self.M(self.point(fr, x)))
            elif name == 'm2f':
                put(f, lambda x: self.I(self.point(mr, x)))
            elif name == 'equilibrium':
                put(m, lambda x: (lambda v: v[:self.nc] + [CTX.ufun('E%d' % i, *v[:self.nc]) for i in range(self.nc, self.ns)])(self.point(mr, x)))
            elif name == 'one_time_step':
                # any values: the interior of fnew (of f with one array), moments on the way
                self.done = FArr.symbolic('after', sh, 'R')
                C.Fnew.swaparray[...] = self.done
                C.m.swaparray[...] = FArr.symbolic('scratch', sh, 'R')
            else:
                raise AttributeError(name)

    def operation(op, dim, ns, nc, halo, order, two):
        def f(c):
            w = World(c, dim, ns, nc, halo, order, two)
            sim, C = w.sim, w.C
            c.case(lambda v: case_of(dim, op, two))
            c.assume(w.consistent())
            f0, m0, _ = w.state()
            t0, n0, dt0 = raw(sim.t), raw(sim.nt), raw(sim.dt_)
            kind, key, val = op
            sym = key
            if kind != 'init' and isinstance(key, str):
                key = w.names[int(key)]
                k = int(sym)
            else:
                k = key
            inner = [sub(a, h) for a, h in zip(w.x, halo)]
            same_f = lambda f1: and_(*[eq(a, b) for a, b in zip(f0, f1)])
            same_m = lambda m1: and_(*[eq(a, b) for a, b in zip(m0, m1)])
            if kind.startswith('read'):
                a = getattr(sim, kind[5:])[key]
                full = kind.endswith('halo')
                got = a.at(tuple(w.x if full else inner)) if full or True else None
                want = m0[k] if kind[5] == 'm' else f0[k]
                c.prove('the shape is the one of the %s' % ('whole box' if full else 'interior'), and_(*[eq(raw(p), q) for p, q in zip(a.shape, w.shape if full else w.size)], len(a.shape) == dim))
                c.prove('the value read', implies(w.inside, eq(got, want)))
                f1, m1, _ = w.state()
                c.prove('reading changes neither distributions nor moments', and_(same_f(f1), same_m(m1)))
                c.prove('the read array is the one of the simulation', sim.container is C and (a.store is C.F.swaparray.store or a.store is C.m.swaparray.store))
            elif kind.startswith('write'):
                v = FArr.symbolic('written', w.shape, 'R') if val == 'array' else wrap(raw(c.real('written')))
                at = v.at(tuple(w.x)) if val == 'array' else raw(v)
                getattr(sim, kind[6:])[key] = v
                f1, m1, st1 = w.state()
                if kind == 'write F_halo':
                    c.prove('the values written are the distributions', eq(f1[k], at))
                    c.prove('the other distributions are kept', and_(*[eq(a, b) for i, (a, b) in enumerate(zip(f0, f1)) if i != k]))
                else:
                    c.prove('the values written are the moments', eq(m1[k], at))
                    c.prove('the other moments are kept', and_(*[eq(a, b) for i, (a, b) in enumerate(zip(m0, m1)) if i != k]))
                back = getattr(sim, kind[6:])[key]
                c.prove('the values written are read back', eq(back.at(tuple(w.x)), at))
            elif kind == 'step':
                sim.one_time_step()
                f1, m1, _ = w.state()
                done = w.point(w.done)
                c.prove('the distributions are those of the kernel', and_(*[eq(a, b) for a, b in zip(f1, done)]))
                c.prove('one kernel call', w.log.count('one_time_step') == 1)
                c.prove('the counter is increased by one', eq(raw(sim.nt), add(n0, 1)))
                c.prove('the time is increased by the time step', eq(raw(sim.t), add(t0, dt0)))
                a, b = sim.container.F, sim.container.Fnew
                c.prove('the two arrays are those of before', (a is C.Fnew or a is C.F) and (b is C.F or b is C.Fnew) and (a is not b) == two)
            elif kind == 'init':
                args = object()
                xs = [FArr.symbolic('coord%d' % d, [s], 'R') for d, s in enumerate(w.shape)]
                sim.domain = NS(coords_halo=xs)
                at = [x.at((i,)) for x, i in zip(xs, w.x)]
                sim.init_type = key
                called = []

                def fun(tag, extra):
                    def g(*a):
                        called.append(tag)
                        c.prove('arguments of the initial data', len(a) == dim + len(extra) and all(p is q for p, q in zip(a[dim:], extra)))
                        def get(idx):
                            p = [q.at(tuple(0 if isinstance(s, int) and s == 1 else i for i, s in zip(idx, q._shape))) for q in a[:dim]]
                            return CTX.ufun('data' + tag, *p)
                        return FArr.make(w.shape, get, 'R')
                    return g
                data, want = {}, {}
                moments = sim.init_type == 'moments'
                for i in range(nc if moments else ns):
                    kk = w.names[i] if moments else i
                    q = val[i % len(val)]
                    if q == 'f':
                        data[kk], want[i] = fun(str(i), ()), CTX.ufun('data%d' % i, *at)
                    elif q == 'a':
                        data[kk], want[i] = (fun(str(i), (args, 3)), (args, 3)), CTX.ufun('data%d' % i, *at)
                    elif q == 't':
                        data[kk], want[i] = (fun(str(i), ()),), CTX.ufun('data%d' % i, *at)
                    else:
                        r = raw(c.real('constant%d' % i))
                        data[kk], want[i] = wrap(r), r
                sim.init_data = data
                sim.initialization()
                f1, m1, _ = w.state()
                if moments:
                    W = [want[i] for i in range(nc)]
                    e = W + [CTX.ufun('E%d' % i, *W) for i in range(nc, ns)]
                    c.prove('distributions of the equilibrium of the data', and_(*[eq(a, b) for a, b in zip(f1, w.I(e))]))
                    c.prove('conserved moments of the data', and_(*[eq(m1[i], want[i]) for i in range(nc)]))
                else:
                    c.prove('distributions of the data', and_(*[eq(a, want[i]) for i, a in enumerate(f1)]))
                g1 = w.point(sim.container.Fnew.swaparray)
                c.prove('both arrays of distributions are set', and_(*[eq(a, b) for a, b in zip(f1, g1)]))
                c.prove('time and counter are kept', and_(eq(raw(sim.t), t0), eq(raw(sim.nt), n0)))
            if kind not in ('step',):
                c.prove('time and counter are kept', and_(eq(raw(sim.t), t0), eq(raw(sim.nt), n0)))
            c.prove('moments and distributions agree', w.consistent())
        return f
    out = []
    FN = {'read m': ['m', 'itemproperty'], 'read F': ['F'], 'read m_halo': ['m_halo'], 'read F_halo': ['F_halo'], 'write m_halo': ['m_halo'], 'write F_halo': ['F_halo'], 'step': ['one_time_step', 'dt'], 'init': ['initialization']}
    ops = []
    for kd in ('read m', 'read F', 'read m_halo', 'read F_halo'):
        ops += [(kd, 1, None)] + ([(kd, '0', None)] if kd[5] == 'm' else [])
    ops += [('write m_halo', 1, 'array'), ('write m_halo', '0', 'array'), ('write m_halo', 0, 'constant'), ('write F_halo', 1, 'array'), ('write F_halo', 0, 'constant'), ('step', 0, None)]
    ops += [('init', 'moments', v) for v in ('f', 'a', 'tk', 'kf', 'fk')] + [('init', 'distributions', v) for v in ('fka', 'tfk')]
    conf = [(1, 3, 1, [1]), (1, 4, 2, [2]), (2, 3, 1, [1, 0]), (2, 4, 3, [1, 2]), (3, 3, 2, [1, 1, 0])]
    import sympy  # noqa
    for dim, ns, nc, halo in conf:
        orders = list(itertools.permutations(range(dim + 1)))
        if dim == 3 or tier == 'quick':
            orders = [tuple(range(dim + 1)), (dim,) + tuple(range(dim))] + ([(1, 2, 0)] if dim == 2 else [])
        for oi, order in enumerate(orders):
            for two in (False, True):
                for op in ops:
                    out.append(('%s %s %s dim %d moments %d/%d order %s%s' % (op + (dim, nc, ns, ''.join(map(str, order)), ' two arrays' if two else ''),), None, None) if False else
                               ('%s dim %d moments %d/%d order %s%s' % (' '.join(str(a) for a in op if a is not None), dim, nc, ns, ''.join(map(str, order)), ' two arrays' if two else ''), operation(op, dim, ns, nc, halo, order, two),
                                dict(functions=[S + n if n[0] != 'i' or n == 'initialization' else 'pylbm.utils.' + n for n in FN[op[0]]] + ['pylbm.storage.Array.__getitem__', 'pylbm.storage.Array.__setitem__', 'pylbm.storage.Array._in', 'pylbm.utils.bounditemproperty.__getitem__', 'pylbm.utils.bounditemproperty.__setitem__'], budget=100, timeout=20)))
    return out


def case_of(dim, op, two):
    from vc.props import c17
    c = c17.case_of({1: 'd1q3', 2: 'd2q9', 3: 'd3q7'}[dim], 'BounceBack', 'cython' if two else 'numpy', None)
    kind, key, val = op
    k = 0 if isinstance(key, str) else key
    if kind.startswith('write'):
        o = [[kind[6:], k, val == 'array', isinstance(key, str)]]
    elif kind == 'step':
        o = [['step', 1]]
    elif kind == 'init':
        o = [['init']]
    else:
        o = [['read', kind[5:], k]]
    c.update(ops=[['step', 1]] + o + [['read', 'm', 0], ['F_halo', 1, True, False]] + o, peek=True)
    return c
