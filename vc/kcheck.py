"""The mathematical scheme of a spec (oracle) and the contracts of the generated kernels on symbolic arrays."""
from fractions import Fraction as Fr
import itertools



def fr(e):
    import sympy as sp
    e = sp.Rational(sp.nsimplify(e)) if not isinstance(e, (int, Fr)) else e
    return Fr(int(e.p), int(e.q)) if not isinstance(e, (int, Fr)) else Fr(e)


def ev(e, env):
    """value of a sympy expression with Python operators (engine scalars, numpy arrays, numbers)"""
    import sympy as sp
    if e in env:
        return env[e]
    if e.is_Integer:
        return int(e)
    if e.is_Rational:
        return env['num'](Fr(int(e.p), int(e.q)))
    if e.is_Float:
        return float(e)
    if e.is_Add:
        r = 0
        for a in e.args:
            r = r + ev(a, env)
        return r
    if e.is_Mul:
        r = 1
        for a in e.args:
            r = r * ev(a, env)
        return r
    if e.is_Pow and e.exp.is_Integer:
        b = ev(e.base, env)
        n = int(e.exp)
        r = 1
        for _ in range(abs(n)):
            r = r * b
        return r if n >= 0 else 1 / r
    if e.is_Function or e.is_Pow:
        import numpy as np
        name = 'pow' if e.is_Pow else type(e).__name__
        return env['fun'](name, [ev(a, env) for a in e.args])
    raise KeyError('no value for %s' % e)


def inverse(M):
    n = len(M)
    A = [[Fr(x) for x in r] + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        A[i] = [x / d for x in A[i]]
        for r in range(n):
            if r != i and A[r][i]:
                f = A[r][i]
                A[r] = [a - f * b for a, b in zip(A[r], A[i])]
    return [r[n:] for r in A]


class Ref:
    """independent description of the scheme: only the rows order is read from the scheme under test (C04 says it is a
    permutation with the conserved moments in front)"""

    def __init__(self, spec, scheme=None, exact=True):
        import sympy as sp
        from .schemes import ex, vectors, sym_env
        E = sym_env()
        self.spec, self.dim, self.exact = spec, spec['dim'], exact
        par = {E.get(k, sp.Symbol(k)): ex(v) for k, v in spec.get('params', {}).items() if k not in spec.get('free', ())}
        self.free = {}
        self.par = par
        sub = lambda e: sp.sympify(ex(e) if isinstance(e, str) else e).subs(par)
        self.la = fr(sub(spec['la']).subs(E['LA'], 7) if 'LA' in spec.get('free', ()) else sub(spec['la']))
        self.num = (lambda q: q) if exact else float
        n = sum(len(q['vel']) for q in spec['schemes'])
        self.n = n
        self.vel, self.block = [], []
        polys, eqs, rates, cons, src, consb = [], [], [], [], {}, []
        off = 0
        for b, q in enumerate(spec['schemes']):
            vs = vectors(self.dim, q['vel'])
            self.vel += [tuple(int(x) for x in v) for v in vs]
            self.block += [b] * len(vs)
            polys += [sp.Poly(ex(p).subs({k: v for k, v in par.items() if str(k) not in ('X', 'Y', 'Z')}), E['X'], E['Y'], E['Z']) for p in q['poly']]
            eqs += [sub(x) for x in q['eq']]
            rates += [sub(x) for x in q['s']]
            cons += [E[c] for c in q['consm']]
            consb += [b] * len(q['consm'])
            for c, x in q.get('source', {}).items():
                src[E[c]] = sub(x)
            off += len(vs)
        self.polys0 = polys
        rows = [[self.entry(polys[i], self.vel[j]) if self.block[i] == self.block[j] else Fr(0) for j in range(n)] for i in range(n)]
        if scheme is not None:
            Ms = scheme.M.subs(list(scheme.param.items())).subs(E['LA'], 7)
            got = [[fr(Ms[i, j]) for j in range(n)] for i in range(n)]
            perm = []
            for i in range(n):
                js = [j for j in range(n) if got[i] == rows[j] and j not in perm]
                if not js:
                    raise KeyError('row %d of M is no polynomial' % i)
                perm.append(js[0])
        else:
            ci = [next(j for j in range(n) if eqs[j] == c and self.block[j] == k) for c, k in zip(cons, consb)]
            perm = ci + [j for j in range(n) if j not in ci]
        self.perm = perm
        self.M = [rows[p] for p in perm]
        self.polys = [polys[p] for p in perm]
        self.pblock = [self.block[p] for p in perm]
        self.eqx = [eqs[p] for p in perm]
        self.s = [rates[p] for p in perm]
        self.cons = cons
        self.nc = len(cons)
        self.src = {cons.index(c): x for c, x in src.items()}
        self.rel = [sub(x) for x in spec['rel_vel']] if spec.get('rel_vel') else None
        self.iM = inverse(self.M)
        self.rows = rows
        self.h = [max([abs(v[d]) for v in self.vel]) for d in range(self.dim)]

    def entry(self, P, v, u=None):
        """polynomial at la v (- u)"""
        v = list(v) + [0] * (3 - len(v))
        w = [self.la * x for x in v] if u is None else [self.num(self.la * x) - y for x, y in zip(v, list(u) + [0] * (3 - len(u)))]
        r = 0
        for mono, c in P.terms():
            t = fr(c) if u is None else self.num(fr(c))
            for x, k in zip(w, mono):
                for _ in range(k):
                    t = t * x
            r = r + t
        return r if u is not None or not isinstance(r, (int, Fr)) else Fr(r)

    def set_la(self, la):
        """scheme velocity as a symbolic positive number"""
        self.la, self.iM = la, None
        self.M = [[self.entry(self.polys[i], self.vel[j]) if self.pblock[i] == self.block[j] else Fr(0) for j in range(self.n)] for i in range(self.n)]

    def matvec(self, A, x):
        out = []
        for r in A:
            t = 0
            for a, b in zip(r, x):
                if isinstance(a, Fr):
                    if a == 0:
                        continue
                    a = self.num(a)
                t = t + a * b
            out.append(t)
        return out

    def env(self, m):
        e = dict(self.free)
        e.update({c: m[i] for i, c in enumerate(self.cons)})
        e['num'] = self.num
        e['fun'] = self.fun
        return e

    @staticmethod
    def fun(name, a):
        import numpy as np
        return {'sin': np.sin, 'cos': np.cos, 'exp': np.exp, 'pow': np.power}[name](*a)

    def f2m(self, f):
        return self.matvec(self.M, f)

    def m2f(self, m):
        return self.matvec(self.iM, m)

    def eq(self, m):
        e = self.env(m)
        return [ev(x, e) + 0 * m[i] if not self.exact else ev(x, e) for i, x in enumerate(self.eqx)]

    def rates(self):
        e = dict(self.free, num=self.num, fun=self.fun)
        return [ev(x, e) for x in self.s]

    def relax(self, m):
        q = self.eq(m)
        return [(1 - s) * a + s * b for s, a, b in zip(self.rates(), m, q)]

    def source(self, m, dt):
        e = self.env(m)
        m = list(m)
        return [m[i] + dt / 2 * ev(self.src[i], e) if i in self.src else m[i] for i in range(self.n)]

    def Mu(self, m, sign=1):
        """matrix of the polynomials at the velocities minus u(m)"""
        e = self.env(m)
        u = [sign * ev(x, e) for x in self.rel]
        return [[self.entry(self.polys[i], self.vel[j], u) if self.pblock[i] == self.block[j] else Fr(0) for j in range(self.n)] for i in range(self.n)]

    def step_residual(self, g, fnew, dt):
        """the list of quantities which must vanish: one step from the transported g to fnew"""
        m = self.f2m(g)
        if self.rel is None:
            if self.src:
                m = self.source(m, dt)
            m = self.relax(m)
            if self.src:
                m = self.source(m, dt)
            return [(a, b) for a, b in zip(self.f2m(fnew), m)]
        if self.src:
            m1 = self.source(m, dt)
            g = self.m2f(m1)
            Mu, Mmu = self.Mu(m1), self.Mu(m1, -1)
            feq = self.m2f(self.eq(m1))
            r = [(1 - s) * y + s * z for y, z, s in zip(self.matvec(Mu, g), self.matvec(Mu, feq), self.rates())]
            # T(-u) = M(-u) M^-1 is the inverse of T(u) = M(u) M^-1
            m2 = self.matvec(Mmu, self.m2f(r))
            return list(zip(self.f2m(fnew), self.source(m2, dt)))
        Mu = self.Mu(m)
        feq = self.m2f(self.eq(m))
        a, b, c = self.matvec(Mu, fnew), self.matvec(Mu, g), self.matvec(Mu, feq)
        return [(x, (1 - s) * y + s * z) for x, y, z, s in zip(a, b, c, self.rates())]

    def step(self, g, dt):
        """distribution functions after one step (without relative velocity)"""
        m = self.f2m(g)
        if self.src:
            m = self.source(m, dt)
            g = self.m2f(m)
        if self.rel is None:
            m = self.relax(m)
        else:
            m = self.relax_rel(g, m)
        if self.src:
            m = self.source(m, dt)
        return self.m2f(m)

    def relax_rel(self, g, m):
        """moments (fixed frame) after the relaxation in the moving frame: numerical arrays"""
        import numpy as np
        g = np.array([np.asarray(x, dtype=float) for x in g])
        shp = g.shape[1:]
        feq = np.array(self.m2f([x + np.zeros(shp) for x in self.eq(m)]))
        Mu = np.array([[np.asarray(self.num(x) if isinstance(x, Fr) else x, dtype=float) + np.zeros(shp) for x in r] for r in self.Mu(m)])
        Mu = np.moveaxis(Mu, (0, 1), (-2, -1))
        s = np.array([float(x) for x in self.rates()])
        a = np.einsum('...ij,j...->...i', Mu, g)
        b = np.einsum('...ij,j...->...i', Mu, feq)
        f = np.linalg.solve(Mu, ((1 - s) * a + s * b)[..., None])[..., 0]
        return self.f2m([f[..., i] for i in range(self.n)])


# -------------------------------------------------------------------------------------------- symbolic verification
class Setup:
    """real containers, algorithm and call glue of /repo on symbolic sizes and contents"""

    def __init__(self, c, spec, sorder, backend, key, mpi=None):
        from types import SimpleNamespace as NS
        from . import core as K
        from .farr import FArr
        from .kern import algorithm_text, Module
        from .schemes import dico
        import pylbm.container as pc
        import pylbm.storage as st
        self.c, self.spec, self.backend, self.K = c, spec, backend, K
        dim = spec['dim']
        default = [0] + list(range(1, dim + 1)) if backend == 'numpy' else [dim] + list(range(dim))
        self.user_sorder = sorder
        # h of the container is the largest velocity of the stencil (C03)
        self.sizes = [c.int('n%d' % d, lo=1) for d in range(dim)]
        import json
        key = key or json.dumps([spec, sorder, backend], default=str)
        sch, alg, txt = algorithm_text(dico(spec), sorder if sorder is not None else default, backend, settings=spec.get('settings'), key=key, algorithm=spec.get('algorithm', 'PullAlgorithm'))
        self.scheme, self.alg = sch, alg
        self.ref = ref = Ref(spec, sch)
        ref.fun = lambda name, a: K.wrap(c.ufun(name, *[K.raw(x) for x in a]))
        sizes = self.sizes

        class Topo:
            def get_region(self, *n):
                return [[0, x] for x in n]

            class cartcomm:
                @staticmethod
                def Get_rank():
                    return 0

                @staticmethod
                def Get_coords(r):
                    return [0] * dim

                @staticmethod
                def Get_cart_rank(c):
                    return 0

            def __getattr__(self, n):
                raise K.Unsupported('topology.' + n)
        dom = NS(dim=dim, mpi_topo=Topo(), global_size=list(sizes), stencil=NS(vmax=list(ref.h)),
                 coords=[None] * dim, coords_halo=[None] * dim, in_or_out=None, valin=999)
        cls = {'numpy': pc.NumpyContainer, 'cython': pc.CythonContainer}[backend]
        old = st.mpi
        st.mpi = mpi or NS(COMM_WORLD=NS(), DOUBLE=NS(Create_subarray=lambda *a, **k: NS(Commit=lambda: None)))
        try:
            kw = {} if sorder is None else dict(sorder=list(sorder))
            self.cont = cls(dom, sch, **kw)
        finally:
            st.mpi = old
        self.dt = c.real('dt', pos=True)
        from .schemes import sym_env
        E = sym_env()
        ref.free = {E[k]: c.real(k, pos=(k == 'LA')) for k in spec.get('free', ())}
        ref.free[E['t']] = c.real('t')
        c.nonzero = set()
        if E['LA'] in ref.free:
            c.nonzero.add(K.raw(ref.free[E['LA']]).get_id())
            ref.set_la(ref.free[E['LA']])
        self.sim = NS(container=self.cont, domain=dom, t=ref.free.pop(E['t']), dt=self.dt, extra_parameters=dict(ref.free))
        ref.free[E['t']] = self.sim.t
        self.shape = [ref.n] + [K.add(K.raw(n), 2 * h) for n, h in zip(sizes, ref.h)]
        for a in (self.cont.m, self.cont.F, self.cont.Fnew):
            for s, t in zip(a[:].shape, self.shape):
                c.prove('logical shape of the arrays', K.eq(K.raw(s), t))
        self.mod = Module(txt, backend)
        fns = {}
        for n, f in self.mod.fn.items():
            if backend == 'numpy':
                fns[n] = f.f
            else:
                ns = {'run__': f, '__name__': __name__}
                exec('def %s(%s):\n    return run__(dict(%s))' % (n, ', '.join(f.argnames), ', '.join('%s=%s' % (a, a) for a in f.argnames)), ns)
                fns[n] = ns[n]
        alg.generator.module = NS(**fns)
        self.fill()

    def fill(self):
        from .farr import FArr
        C = self.cont
        C.m[:] = FArr.symbolic('m0', tuple(self.shape), 'R')
        C.F[:] = FArr.symbolic('f0', tuple(self.shape), 'R')
        if C.Fnew is not C.F:
            C.Fnew[:] = FArr.symbolic('g0', tuple(self.shape), 'R')
        self.m0, self.f0, self.g0 = C.m[:].reader(), C.F[:].reader(), C.Fnew[:].reader()

    def now(self):
        C = self.cont
        return C.m[:].reader(), C.F[:].reader(), C.Fnew[:].reader()

    def call(self, name, **kw):
        self.alg.call_function(name, self.sim, **kw)

    def point(self):
        K, c = self.K, self.c
        x = [K.raw(c.fresh('x%d' % d)) for d in range(self.ref.dim)]
        for a, s in zip(x, self.shape[1:]):
            c.assume(K.and_(K.ge(a, 0), K.lt(a, s)))
        return x

    def interior(self, x):
        K = self.K
        return K.and_(*[K.and_(K.ge(a, h), K.lt(a, K.add(K.raw(n), h))) for a, h, n in zip(x, self.ref.h, self.sizes)])

    def get(self, rd, x):
        return [self.K.wrap(rd((k,) + tuple(x))) for k in range(self.ref.n)]

    def shifted(self, rd, x):
        """values f_k(x - v_k)"""
        K = self.K
        return [K.wrap(rd((k,) + tuple(K.sub(a, b) for a, b in zip(x, v)))) for k, v in enumerate(self.ref.vel)]

    def same(self, name, a, b, cond=True, timeout=None):
        from .poly import prove_equal
        K, c = self.K, self.c
        for k, (p, q) in enumerate(zip(a, b)):
            prove_equal(c, name, p, q, cond, timeout)


ROUTINES = ['transport', 'f2m', 'm2f', 'equilibrium', 'relaxation', 'source_term', 'one_time_step']


def verify(c, spec, sorder, backend, routines=None, key=None, case=None, norel=False):
    S = Setup(c, spec, sorder, backend, key)
    if norel:
        S.ref.rel = None
    K = S.K
    if case:
        c.case(case)
    ref = S.ref
    todo = [r for r in (routines or ROUTINES) if (r != 'source_term' or ref.src) and (r != 'conserved' or not ref.src)]
    # one path per routine
    which = c.concretize(K.raw(c.int('routine', lo=0, hi=len(todo) - 1)))
    for r in [todo[which]]:
        S.fill()
        S.call('one_time_step' if r == 'conserved' else r)
        x = S.point()
        ins = S.interior(x)
        m1, f1, g1 = S.now()
        m, f, g = S.get(S.m0, x), S.get(S.f0, x), S.get(S.g0, x)
        mn, fn, gn = S.get(m1, x), S.get(f1, x), S.get(g1, x)
        two = S.cont.Fnew is not S.cont.F
        # everything on the two cases: interior point or ghost point
        inside = c.decide(ins)
        if r == 'transport':
            S.same('transport: value of the point x - v', gn, S.shifted(S.f0, x) if inside else g)
            S.same('transport: moments unchanged', mn, m)
            if two:
                S.same('transport: input unchanged', fn, f)
        elif r == 'f2m':
            S.same('f2m: m = M f', mn, ref.f2m(f))
            S.same('f2m: f unchanged', fn, f)
            if two:
                S.same('f2m: fnew unchanged', gn, g)
        elif r == 'm2f':
            S.same('m2f: M f = m', ref.f2m(fn), m)
            S.same('m2f: m unchanged', mn, m)
            if two:
                S.same('m2f: fnew unchanged', gn, g)
        elif r == 'equilibrium':
            S.same('equilibrium: declared equilibrium of the conserved moments', mn, ref.eq(m))
            S.same('equilibrium: f unchanged', fn, f)
        elif r == 'relaxation':
            S.same('relaxation: (1 - s) m + s meq', mn, ref.relax(m))
            S.same('relaxation: f unchanged', fn, f)
        elif r == 'source_term':
            S.same('source term: half step of explicit Euler', mn, ref.source(m, S.dt) if inside else m)
            S.same('source term: f unchanged', fn, f)
        elif r == 'conserved':
            if inside:
                gs = S.shifted(S.f0, x)
                a, b = ref.f2m(gn), ref.f2m(gs)
                S.same('conserved moments unchanged by the collision', a[:ref.nc], b[:ref.nc])
        elif r == 'one_time_step':
            if inside:
                gs = S.shifted(S.f0, x)
                res = ref.step_residual(gs, gn, S.dt)
                S.same('one time step: transport, moments, source, relaxation, source, inverse', [a for a, b in res], [b for a, b in res])
            else:
                S.same('one time step: ghost points unchanged', gn, g)
                S.same('one time step: ghost moments unchanged', mn, m)
            if two:
                S.same('one time step: input unchanged', fn, f)
    return S
