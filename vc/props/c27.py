"""C27 the total of a conserved moment over the fluid points is kept by time steps; a uniform equilibrium is kept"""
from fractions import Fraction as Fr


def check_case(case):
    import numpy as np
    from vc import bcase
    sim, ref, values, dx = bcase.build(case)
    dim = sim.dim
    rng = np.random.default_rng(case['seed'])
    h = [int(a) for a in sim.domain.stencil.vmax]
    inner = tuple(slice(a, -a) if a else slice(None) for a in h)
    fluid = np.asarray(sim.domain.in_or_out)[inner] == sim.domain.valin
    C = sim.container
    if case['what'] == 'walls' and not periodic_geometry(sim, h):
        return None
    if case['what'] == 'uniform':
        m = np.array([float(rng.uniform(.8, 1.2)) for _ in range(ref.nc)] + [0.] * (ref.n - ref.nc))
        m = ref.eq(list(m))
        f = [float(a) for a in ref.m2f([float(a) for a in m])]
        for k in range(ref.n):
            sim.F_halo[k] = f[k]
        for _ in range(case['steps']):
            sim.one_time_step()
        G = np.array([np.array(sim.F[k]) for k in range(ref.n)])
        s = max(1, max(abs(a) for a in f))
        for k in range(ref.n):
            if not np.allclose(G[k], f[k], rtol=0, atol=1e-9 * s * 4**case['steps']):
                w = np.argwhere(~np.isclose(G[k], f[k], rtol=0, atol=1e-9 * s * 4**case['steps']))[0]
                return ('uniform', 'the uniform equilibrium f_%d = %r becomes %r at %s after %d steps' % (k, f[k], float(G[k][tuple(w)]), tuple(int(a) for a in w), case['steps']))
        return None
    if case.get('init') == 'constant':
        for k in range(ref.n):
            sim.F_halo[k] = float(rng.uniform(.5, 1.5))
    else:
        for k in range(ref.n):
            sim.F_halo[k] = rng.uniform(.5, 1.5, C.F[:].shape[1:])
    walls = case['what'] == 'walls'

    def total():
        out = {}
        f = np.array([np.array(sim.F[k]) for k in range(ref.n)])
        f[:, ~fluid] = 0
        big = np.abs(f).max() if f.size else 0.
        if walls:
            for b in range(len(case['spec']['schemes'])):
                ks = [k for k in range(ref.n) if ref.block[k] == b]
                out['mass of scheme %d' % b] = f[ks].sum()
        else:
            for c, i in sim.scheme.consm.items():
                out[str(c)] = np.array(sim.m[c])[fluid].sum()
        return out, big
    t0, big = total()
    M = max(1., max(abs(float(a)) for r in ref.M for a in r))
    for i in range(case['steps']):
        sim.one_time_step()
        t1, b = total()
        if not np.isfinite(b) or b > 1e12:
            return None
        big = max(big, b)
        for k in t0:
            if abs(t1[k] - t0[k]) > 1e-11 * big * M * ref.n * max(1, fluid.size) * (i + 1):
                return ('total %s' % case['what'], 'total of %s is %r, %r after %d steps (%s, %s)' % (k, float(t0[k]), float(t1[k]), i + 1, case['backend'], case['what']))
    return None


def periodic_geometry(sim, h):
    """the elements are the same through the periodic borders"""
    import numpy as np
    io = np.asarray(sim.domain.in_or_out)
    lab = sim.domain.box_label
    for d in range(sim.dim):
        if lab[2 * d] != -1 or not h[d]:
            continue
        n = io.shape[d] - 2 * h[d]
        a = np.moveaxis(io, d, 0)
        if not (np.array_equal(a[:h[d]], a[n:n + h[d]]) and np.array_equal(a[n + h[d]:], a[h[d]:2 * h[d]])):
            return False
    return True


def make(rng, what=None, backend=None):
    from vc import bcase
    from vc.schemes import random_spec, vectors
    from vc.kprops import closed
    what = what or rng.choice(['periodic', 'periodic', 'walls', 'walls', 'uniform'])
    if what == 'walls':
        while True:
            c = bcase.random_case(rng, backend=backend, value=False)
            q = c['spec']['schemes']
            if all('1' in s['poly'] and s['eq'][s['poly'].index('1')] in s['consm'] for s in q):
                break
        for b in c['bc'].values():
            b['method'] = ['BounceBack'] * len(q)
    else:
        while True:
            r = rng.random()
            s = random_spec(rng, full=True, symmetric=rng.random() < .5, rel=r < .3, maxv=rng.choice([1, 1, 2, 3]))
            if s.get('rel_vel') and not closed(s, ['1/3', '-2/5', '3/7']):
                continue
            break
        dim = s['dim']
        R = [max(max(abs(v[d]) for v in vectors(dim, q['vel'])) for q in s['schemes']) for d in range(dim)]
        n = [max(1, a, rng.randint(1, {1: 12, 2: 7, 3: 4}[dim])) for a in R]
        c = dict(spec=s, n=n, dx=rng.choice(['1/4', '1/2', '1', '2/5']), label=[-1] * (2 * dim), elems=[], bc={}, backend=backend or ('cython' if rng.random() < .03 else 'numpy'), seed=rng.randint(1, 10**6))
    if rng.random() < .3:
        so = list(range(c['spec']['dim'] + 1))
        rng.shuffle(so)
        c['sorder'] = so
    c.update(what=what, steps=rng.randint(1, 6), init=rng.choice(['constant', 'random', 'random']))
    return c


def cases(tier, rng):
    import random
    r = random.Random(5)
    for be in ('numpy', 'cython'):
        for w in ('periodic', 'walls', 'uniform'):
            for _ in range(2):
                yield make(r, w, be)
    while True:
        yield make(rng)


def mass_rows(ref):
    """rows of the conserved moments which are the sum of the distributions of a scheme"""
    return [i for i in range(ref.nc) if all(ref.M[i][j] == (1 if ref.block[j] == ref.pblock[i] else 0) for j in range(ref.n))]


def proofs(tier):
    from vc.core import raw, add, sub, and_, or_, not_, eq, ite, lt, ge, implies, wrap, z, CTX
    from vc.farr import FArr
    from types import SimpleNamespace as NS
    from vc.kprops import variants, is_generic
    from vc.kcheck import Setup
    from vc.mpistub import MPIStub
    import itertools
    S = 'pylbm.simulation.Simulation.'
    ALGO = ['pylbm.algorithm.base.BaseAlgorithm.*', 'pylbm.algorithm.pull.PullAlgorithm.one_time_step_local', 'pylbm.algorithm.ode.euler', 'pylbm.algorithm.transform.*', 'pylbm.symbolic.*', 'pylbm.generator.*', 'pylbm.container.*']

    def image(x, n, h):
        """interior index at a distance n of a point of the storage (n >= h: unique)"""
        return [ite(lt(a, b), add(a, m), ite(ge(a, add(m, b)), sub(a, m), a)) for a, m, b in zip(x, n, h)]

    def simulation(c, S, methods):
        import pylbm.simulation as PS
        sim = PS.Simulation.__new__(PS.Simulation)
        sim.__dict__.update(container=S.cont, dim=S.ref.dim, t=S.sim.t, nt=c.int('nt'), dt_=S.dt, extra_parameters=S.sim.extra_parameters, scheme=S.scheme, domain=S.sim.domain,
                            bc=NS(methods=methods), algo=NS(call_function=S.alg.call_function), _update_m=c.bool('stale'), _need_init=False, init_type='moments', init_data=None)
        return sim

    def step(spec, backend, nmeth):
        def f(c):
            import pylbm.storage as st
            mpi = MPIStub(c)
            old, st.mpi = st.mpi, mpi
            try:
                W = Setup(c, spec, None, backend, None, mpi)
                ref, C = W.ref, W.cont
                h, n = list(ref.h), [raw(a) for a in W.sizes]
                for a, b in zip(n, h):
                    c.assume(ge(a, b))
                if not is_generic(spec):
                    c.case(lambda v: dict(spec=spec, n=[min(max(v.get('n%d' % d, 1), max(1, h[d])), 8) for d in range(ref.dim)], dx='1/4', label=[-1] * (2 * ref.dim), elems=[], bc={}, backend=backend, seed=1, what='periodic', steps=2))
                log = []

                class Method:
                    """any boundary method: the values of the ghost points after it are arbitrary, the interior is kept"""

                    def __init__(self, i):
                        self.i = i

                    def update_feq(self, s):
                        log.append(('feq', self.i))

                    def set_rhs(self):
                        log.append(('rhs', self.i))

                    def update(self, ff, **kw):
                        log.append(('update', self.i))
                        c.prove('the method works on the distribution functions', ff is C.F or ff is C.Fnew)
                        before = ff[:].reader()
                        after = FArr.symbolic('method%d' % self.i, tuple(W.shape), 'R').reader()
                        g = FArr.make(tuple(W.shape), lambda idx: ite(W.interior(idx[1:]), before(idx), after(idx)), 'R')
                        ff[:] = g
                        last[:] = [ff]
                last = [None]
                sim = simulation(c, W, [Method(i) for i in range(nmeth)])
                F0 = sim.container.F
                data = W.f0
                real_call = sim.algo.call_function
                seen = []

                def call(name, s, **kw):
                    log.append(name)
                    if name == 'one_time_step':
                        F = s.container.F
                        c.prove('the kernel reads the array updated before', F is F0)
                        rd = F[:].reader()
                        x = W.point()
                        k = raw(c.fresh('k'))
                        c.assume(and_(ge(k, 0), lt(k, ref.n)))
                        if nmeth:
                            c.prove('interior values before the kernel', implies(W.interior(x), eq(rd((k,) + tuple(x)), data((k,) + tuple(x)))))
                        else:
                            c.prove('every point read by the kernel holds the value of its image', eq(rd((k,) + tuple(x)), data((k,) + tuple(image(x, n, h)))))
                        # from here on by this contract only
                        F[:] = FArr.symbolic('before', tuple(W.shape), 'R')
                        seen.append(F[:].reader())
                    return real_call(name, s, **kw)
                sim.algo.call_function = call
                sim.one_time_step()
                want = []
                for i in range(nmeth):
                    want += [('feq', i), ('rhs', i), ('update', i)]
                c.prove('boundary methods in order, then one kernel', log == want + ['one_time_step'])
                if not seen:
                    c.prove('the kernel is called', False)
                    return
                x = W.point()
                c.assume(W.interior(x))
                g = W.shifted(seen[0], x)
                m = ref.f2m(g)
                for s, i in sim.scheme.consm.items():
                    i = int(i)
                    got = sim.m[s]
                    got = got.at(tuple(sub(a, b) for a, b in zip(x, h)))
                    W.same('conserved moment %s = sum of the transported distributions' % s, [wrap(got)], [m[i]])
                new = W.get(sim.container.F[:].reader(), x)
                for i in mass_rows(ref):
                    a = sum(new[j] for j in range(ref.n) if ref.block[j] == ref.pblock[i])
                    b = sum(g[j] for j in range(ref.n) if ref.block[j] == ref.pblock[i])
                    W.same('mass = sum of the transported distributions', [a], [b])
            finally:
                st.mpi = old
        return f

    def uniform(spec, backend):
        def f(c):
            W = Setup(c, spec, None, backend, None)
            ref, C = W.ref, W.cont
            if not is_generic(spec):
                c.case(lambda v: dict(spec=spec, n=[min(max(v.get('n%d' % d, 1), max(1, ref.h[d])), 6) for d in range(ref.dim)], dx='1/4', label=[-1] * (2 * ref.dim), elems=[], bc={}, backend=backend, seed=1, what='uniform', steps=2))
            if ref.iM is None:
                return
            w = [c.real('w%d' % i) for i in range(ref.nc)] + [0] * (ref.n - ref.nc)
            fe = [raw(a) for a in ref.m2f(ref.eq(w))]

            def pick(k):
                r = fe[-1]
                for i in range(len(fe) - 2, -1, -1):
                    r = ite(eq(k, i), fe[i], r)
                return r
            C.F[:] = FArr.make(tuple(W.shape), lambda idx: pick(idx[0]), 'R')
            W.call('one_time_step')
            x = W.point()
            c.assume(W.interior(x))
            rd = C.Fnew[:].reader()
            if ref.rel is None:
                W.same('uniform equilibrium kept', W.get(rd, x), [wrap(a) for a in fe])
            else:
                # the moments: linear combinations with numbers
                W.same('uniform equilibrium kept', ref.f2m(W.get(rd, x)), ref.f2m([wrap(a) for a in fe]))
        return f

    def torus(dim, per, walls):
        """the values summed over the fluid points after a step are the values before it, each once"""
        def f(c):
            n = [raw(c.int('n%d' % d, lo=1)) for d in range(dim)]
            v = [raw(c.int('v%d' % d)) for d in range(dim)]
            w = [raw(c.int('w%d' % d)) for d in range(dim)]
            x = [raw(c.int('x%d' % d)) for d in range(dim)]
            y = [raw(c.int('y%d' % d)) for d in range(dim)]
            for d in range(dim):
                for a in (v[d], w[d]):
                    c.assume(and_(ge(add(a, n[d]), 0), ge(n[d], a)))       # the halo is not larger than the box
                for a in (x[d], y[d]):
                    c.assume(and_(ge(a, 0), lt(a, n[d])))

            def img(p):
                return [ite(lt(a, 0), add(a, m), ite(ge(a, m), sub(a, m), a)) if q else a for a, m, q in zip(p, n, per)]
            inside = lambda p: and_(*[and_(ge(a, 0), lt(a, m)) for a, m in zip(p, n)])

            def fluid(p):
                return and_(inside(p), CTX.ufun('fluid', *p, sort='B')) if walls else inside(p)
            src = lambda p, q: img([sub(a, b) for a, b in zip(p, q)])
            same = lambda p, q: and_(*[eq(a, b) for a, b in zip(p, q)])
            a, b = src(x, v), src(y, v)
            if not walls:
                c.prove('the point read is a point of the box', inside(a))
                c.prove('no value is read twice', implies(same(a, b), same(x, y)))
                return
            c.assume(and_(fluid(x), fluid(y)))
            opp = src(y, [sub(0, q) for q in v])
            c.prove('no transported value is read twice', implies(and_(fluid(a), fluid(b), same(a, b)), same(x, y)))
            # the distribution v of the fluid point a read from x is not the one reflected at y = a (opposite velocity -v at y)
            c.prove('no value is both transported and reflected', implies(and_(fluid(a), not_(fluid(opp))), not_(same(a, y))))
            c.prove('the point read is a fluid point', implies(not_(fluid(a)), fluid(x)))
        return f
    out = []
    for dim in (1, 2, 3):
        out.append(('values read on a torus of dimension %d' % dim, torus(dim, [True] * dim, False), dict(functions=[], budget=60, timeout=20)))
        for per in itertools.product([True, False], repeat=dim):
            out.append(('values read between walls, dimension %d, periodic %s' % (dim, ''.join('ny'[p] for p in per)), torus(dim, per, True), dict(functions=[], budget=60, timeout=20)))
    V = [(nm, s) for nm, s in variants(tier) if not any(q.get('source') for q in s['schemes']) and 'conserved moments with rates' not in nm]
    FN = [S + 'one_time_step', S + 'boundary_condition', S + 'm', S + 'dt', 'pylbm.storage.Array.update', 'pylbm.storage.Array._set_subarray', 'pylbm.utils.itemproperty.*'] + ALGO
    for backend in ('numpy', 'cython'):
        for name, spec in V:
            for nm in ((0, 2) if 'with arb' in name else (0,)):
                out.append(('step %s %s%s' % (backend, name, ' with boundary methods' if nm else ''), step(spec, backend, nm), dict(functions=FN, budget=300, timeout=30)))
            out.append(('uniform %s %s' % (backend, name), uniform(spec, backend), dict(functions=ALGO, budget=200, timeout=30)))
    from vc.props import c17
    for name, fn, kw in c17.proofs(tier):
        if name.startswith('BounceBack'):
            out.append(('reflection: ' + name, fn, kw))
    return out
