"""C21 linear stability: amplification matrix, verdict, root location"""
from fractions import Fraction as Fr

BAND = Fr(1, 10**4)


# ---------------------------------------------------------------- harness

def relax_step(ref, m0, f, rel=None):
    """one collision of the scheme at f (floats), the relative velocity frozen at its value"""
    import numpy as np
    m = ref.f2m(f)
    if ref.rel is None:
        return np.array(ref.m2f(ref.relax(m)), dtype=complex)
    Mu = np.array([[complex(x) for x in r] for r in ref.Mu(m0)])
    iM = np.array([[complex(x) for x in r] for r in ref.iM])
    mu = Mu @ np.array(f)
    eu = Mu @ iM @ np.array(ref.eq(m), dtype=complex)
    s = np.array([complex(x) for x in ref.rates()])
    return np.linalg.solve(Mu, mu + s * (eu - mu))


def numeric_matrix(ref, point, vals):
    """Jacobian of the collision at the equilibrium of the conserved moments `point` (complex step: exact to rounding)"""
    import numpy as np
    n = ref.n
    base = {c: v for c, v in zip(ref.cons, point)}
    m0 = [0.] * n
    for i, c in enumerate(ref.cons):
        m0[i] = base[c]
    meq = [complex(x).real for x in ref.eq(m0)]
    f0 = [complex(x).real for x in ref.m2f(meq)]
    J = np.zeros((n, n))
    for j in range(n):
        f = [complex(x) for x in f0]
        f[j] += 1e-30j
        J[:, j] = np.imag(np.array(relax_step(ref, meq, f))) / 1e-30
    return J


def check_case(case):
    import numpy as np
    if case['kind'] == 'roots':
        from pylbm.analysis import stability as st
        roots = [complex(*r) for r in case['roots']]
        p = np.poly(roots)[::-1]            # ascending
        p = p * complex(*case.get('lead', (1, 0)))
        n = len(roots)
        mod = np.abs(roots)
        inside, out = bool((mod <= 1).all()), bool((mod > 1).any())
        schur = bool((mod < 1).all())
        q = [complex(x) for x in p]
        got = dict(is_vN=bool(st.is_vN(list(q))), is_svN=bool(st.is_svN(list(q))), is_S=bool(st.is_S(list(q))))
        want = dict(is_vN=inside, is_svN=inside, is_S=schur)
        if case.get('matrix'):
            rng = np.random.default_rng(case['matrix'])
            Q, _ = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
            G = Q @ np.diag(roots) @ np.conj(Q.T)
            a, b = st.algo_cohn_schur(G)
            got['algo_cohn_schur[0]'], got['algo_cohn_schur[1]'] = bool(a), bool(b)
            want['algo_cohn_schur[0]'] = want['algo_cohn_schur[1]'] = inside
            got.pop('is_S')
            want.pop('is_S')
        for k in want:
            if got[k] != want[k]:
                return ('root location', '%s is %s for the roots %s' % (k, got[k], roots))
        return None
    # schemes
    import sympy as sp
    from pylbm.scheme import Scheme
    from pylbm.analysis.stability import Stability
    from vc.schemes import dico, ex, sym_env
    from vc.kcheck import Ref
    spec = case['spec']
    s = Scheme(dico(spec), need_validation=False)
    st = Stability(s)
    ref = Ref(spec, s, exact=False)
    point = case['point']
    N = case['n']
    xi, eigs = st.eigenvalues(list(point), N)
    m = int(round(N ** (1 / ref.dim)))
    xi = np.asarray(xi)
    if xi.shape != (ref.dim, m ** ref.dim) or eigs.shape != (m ** ref.dim, ref.n):
        return ('shape', '%s wave vectors and %s eigenvalues for %d asked in dimension %d' % (xi.shape, eigs.shape, N, ref.dim))
    grid = sorted(tuple(np.round(np.mod(x, 2 * np.pi) * m / (2 * np.pi), 6) % m) for x in xi.T)
    import itertools
    if grid != sorted(tuple(float(x) for x in t) for t in itertools.product(range(m), repeat=ref.dim)):
        return ('wave vectors', 'the wave vectors %s are not the regular grid' % (grid[:5],))
    J = numeric_matrix(ref, point, None)
    ref.vel = [tuple(v) for v in ref.vel]
    V = np.array(ref.vel, dtype=float)
    ok = {}
    worst_in, worst_out = True, False
    for sign in (1, -1):
        ok[sign] = None
        for k in range(xi.shape[1]):
            A = np.exp(sign * 1j * V @ xi[:, k])[:, None] * J
            w = np.linalg.eigvals(A)
            z = np.array([0.3 + 0.2j, -1.1 + 0.4j, 0.7 - 1.3j, 2.1, -0.4 - 0.1j])
            # compare the characteristic polynomials at points: well conditioned
            P = np.array([np.prod(x - w) for x in z])
            Q = np.array([np.prod(x - eigs[k]) for x in z])
            sc = np.array([np.prod(abs(x) + np.abs(w)) for x in z])
            if (abs(P - Q) > 1e-7 * sc).any():
                ok[sign] = ('eigenvalues', 'wave vector %s: eigenvalues %s, those of the linearised scheme are %s' % (xi[:, k].tolist(), sorted(np.abs(eigs[k])), sorted(np.abs(w))))
                break
        if ok[sign] is None:
            break
    else:
        return ok[1]
    # the verdict, away from the circle
    top = 0.
    for k in range(xi.shape[1]):
        w = np.abs(np.linalg.eigvals(np.exp(sign * 1j * V @ xi[:, k])[:, None] * J))
        top = max(top, w.max())
    if top > 1.05 and st.is_stable_l2 != 2:
        return ('verdict', 'is_stable_l2 is %s with an eigenvalue of modulus %g' % (st.is_stable_l2, top))
    if top <= 1 + 1e-9 and st.is_stable_l2 == 2 and case.get('safe'):
        return ('verdict', 'is_stable_l2 is 2 with all the eigenvalues of modulus at most %g' % top)
    return None


def cases(tier, rng):
    import cmath
    import math
    fix = [[.5, -.5], [1.5, .2], [.2, 1.5], [.9j, -.9j, .3], [1.2j, .1, .1], [.98, .98], [1.02, .98], [1.02, -.3, .2, .1]]
    for r in fix:
        yield dict(kind='roots', roots=[[complex(x).real, complex(x).imag] for x in r])
        yield dict(kind='roots', roots=[[complex(x).real, complex(x).imag] for x in r], matrix=3)
    from vc.schemes import random_spec, std
    from vc.kprops import variants, is_generic, closed
    for name, s in variants('quick'):
        if is_generic(s) or any(q.get('source') for q in s['schemes']) or 'BaseAlgorithm' in name:
            continue
        nc = sum(len(q['consm']) for q in s['schemes'])
        yield dict(kind='scheme', spec=s, point=[0.3 - 0.17 * i for i in range(nc)], n=[8, 16, 27][s['dim'] - 1])
    while True:
        if rng.random() < .6:
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9])
            gap = rng.choice([.02, .05, .1])
            roots = []
            out = rng.random() < .5
            for i in range(n):
                a = cmath.exp(2j * math.pi * rng.random())
                if rng.random() < .2:
                    a = rng.choice([1, -1, 1j, -1j])
                k = rng.random()
                if out and (i == 0 or k < .15):
                    a *= 1 + gap + (rng.random() * 2 if rng.random() < .5 else 0)
                elif k < .3:
                    a *= 1 - gap
                elif k < .35:
                    a *= 0
                else:
                    a *= rng.random() * (1 - gap)
                roots.append([a.real, a.imag])
            rng.shuffle(roots)
            c = dict(kind='roots', roots=roots)
            if rng.random() < .4:
                c['matrix'] = rng.randint(1, 10**6)
            else:
                c['lead'] = [rng.uniform(-3, 3), rng.uniform(.1, 3)] if rng.random() < .5 else [1, 0]
            yield c
        else:
            s = random_spec(rng, symmetric=rng.random() < .5, maxv=rng.choice([1, 1, 2]), full=True, rel=rng.random() < .4)
            if s.get('rel_vel') and not closed(s, ['1/3', '-2/5', '3/7']):
                continue
            nc = sum(len(q['consm']) for q in s['schemes'])
            m = {1: [5, 8, 12], 2: [9, 16], 3: [8, 27]}[s['dim']]
            yield dict(kind='scheme', spec=s, point=[round(rng.uniform(-1, 1), 3) for _ in range(nc)], n=rng.choice(m))


# ---------------------------------------------------------------- proofs

def complex_class():
    import numpy as np
    from vc.core import raw, wrap, add, sub, mul, div, neg, eq, and_, sqrt_, rationalize, Unsupported, Sym, CTX

    class Cx:
        """complex number co * (re + i im), co a real factor kept apart"""
        __array_priority__ = -1.

        def __init__(self, re, im=0, co=1):
            self.re, self.im, self.co = raw(re), raw(im), raw(co)

        @staticmethod
        def of(o):
            if isinstance(o, Cx):
                return o
            if isinstance(o, np.ndarray) and o.ndim == 0:
                o = o.item()
                if isinstance(o, Cx):
                    return o
            if isinstance(o, (complex, np.complexfloating)):
                return Cx(rationalize(float(o.real)), rationalize(float(o.imag)))
            if isinstance(o, (bool, int, float, Fr, np.integer, np.floating, Sym)):
                return Cx(o if isinstance(o, Sym) else raw(o))
            return None

        def parts(self):
            return mul(self.co, self.re), mul(self.co, self.im)

        def _same(self, o):
            a, b = self.co, o.co
            if a is b:
                return True
            if isinstance(a, (int, Fr)) or isinstance(b, (int, Fr)):
                return not hasattr(a, 'get_id') and not hasattr(b, 'get_id') and a == b
            if a.get_id() == b.get_id():
                return True
            from vc.poly import compare
            return compare(a, b) == 0

        def _add(self, o, f):
            o = Cx.of(o)
            if o is None:
                return NotImplemented
            if self._same(o):
                return Cx(f(self.re, o.re), f(self.im, o.im), self.co)
            (a, b), (x, y) = self.parts(), o.parts()
            return Cx(f(a, x), f(b, y))

        def __add__(self, o):
            return self._add(o, add)
        __radd__ = __add__

        def __sub__(self, o):
            return self._add(o, sub)

        def __rsub__(self, o):
            o = Cx.of(o)
            return NotImplemented if o is None else o - self

        def __neg__(self):
            return Cx(neg(self.re), neg(self.im), self.co)

        def __pos__(self):
            return self

        def __mul__(self, o):
            if isinstance(o, Sym):
                return Cx(self.re, self.im, mul(self.co, o.t))
            o = Cx.of(o)
            if o is None:
                return NotImplemented
            return Cx(sub(mul(self.re, o.re), mul(self.im, o.im)), add(mul(self.re, o.im), mul(self.im, o.re)), mul(self.co, o.co))
        __rmul__ = __mul__

        def __truediv__(self, o):
            if isinstance(o, Sym):
                return Cx(self.re, self.im, mul(self.co, self.inverse(o.t)))
            o = Cx.of(o)
            if o is None:
                return NotImplemented
            r = self * o.conjugate()
            return Cx(r.re, r.im, div(r.co, mul(mul(o.co, o.co), add(mul(o.re, o.re), mul(o.im, o.im)))))

        def __rtruediv__(self, o):
            o = Cx.of(o)
            return NotImplemented if o is None else o / self

        def __pow__(self, k):
            if not isinstance(k, (int, np.integer)) or k < 0:
                raise Unsupported('complex power')
            r = Cx(1)
            for _ in range(int(k)):
                r = r * self
            return r

        def __abs__(self):
            from vc.core import abs_
            co = self.co if self.co is CTX.ghosts.get('inverse') or self.pos(self.co) else abs_(self.co)
            return wrap(mul(co, self.modulus()))

        def modulus(self):
            """an abstract non negative number, the same for the same square"""
            from vc.poly import poly
            if not hasattr(self.re, 'get_id') and not hasattr(self.im, 'get_id') and (self.re == 0 or self.im == 0):
                return abs(self.re) + abs(self.im)
            sq = frozenset(poly(add(mul(self.re, self.re), mul(self.im, self.im)), CTX.ghosts.setdefault('polys', {})).items())
            t = CTX.ghosts.setdefault('moduli', {})
            if sq not in t:
                t[sq] = raw(CTX.real('mod%d' % len(t)))
                CTX.assume(wrap(t[sq] >= 0))
            return t[sq]

        @staticmethod
        def pos(x):
            t = CTX.ghosts.setdefault('positive', {})
            if isinstance(x, (int, Fr)):
                return x > 0
            k = x.get_id()
            if k not in t:
                t[k] = (CTX.entails(x >= 0), x)
            return t[k][0]

        @staticmethod
        def inverse(s):
            """1 / s as a number of its own (s not null)"""
            t = CTX.ghosts.setdefault('inverses', {})
            k = s.get_id()
            if k not in t:
                i = raw(CTX.real('inv%d' % len(t)))
                if not CTX.entails(s > 0):
                    raise Unsupported('division by a number which may be null')
                CTX.assume(wrap(and_(i > 0, i * s == 1)))
                t[k] = (i, s)
            return t[k][0]

        def conjugate(self):
            return Cx(self.re, neg(self.im), self.co)

        @property
        def real(self):
            return wrap(self.parts()[0])

        @property
        def imag(self):
            return wrap(self.parts()[1])

        def __eq__(self, o):
            o = Cx.of(o)
            if o is None:
                return NotImplemented
            (a, b), (x, y) = self.parts(), o.parts()
            return wrap(and_(eq(a, x), eq(b, y)))

        def __ne__(self, o):
            r = self == o
            return r if r is NotImplemented else ~r if isinstance(r, Sym) else not r

        def __bool__(self):
            return bool(self != 0)
        __hash__ = None

        def __float__(self):
            raise Unsupported('real part of a complex')

        def item(self):
            return self

        def copy(self):
            return self
    return Cx


def symentry(ref, i, j, E, spec, u=None):
    import sympy as sp
    if ref.pblock[i] != ref.block[j]:
        return sp.Integer(0)
    la = E['LA'] if 'LA' in spec.get('free', ()) else sp.Rational(ref.la.numerator, ref.la.denominator)
    v = list(ref.vel[j]) + [0] * (3 - ref.dim)
    w = [la * x for x in v]
    if u is not None:
        w = [a - b for a, b in zip(w, list(u) + [0] * (3 - len(u)))]
    r = sp.Integer(0)
    for mono, co in ref.polys[i].terms():
        t = sp.sympify(co)
        for x, k in zip(w, mono):
            t *= x ** k
        r += t
    return r


def proofs(tier):
    import numpy as np
    from vc.core import raw, wrap, add, sub, mul, eq, and_, or_, not_, implies, lt, le, gt, ge, mx, tobool, Unsupported, Sym
    F = 'pylbm.analysis.stability.'
    out = []

    def location(name, d):
        """one level of the recursive root tests, at a polynomial of degree d with arbitrary complex coefficients"""
        def f(c):
            from pylbm.analysis import stability as st
            from vc.poly import prove_equal
            Cx = complex_class()
            c.let_reads, c.object_arrays = True, True
            P = [Cx(c.real('re%d' % k), c.real('im%d' % k)) for k in range(d + 1)]
            r = [raw(abs(p)) for p in P]
            c.assume(r[d] > 0)

            def case(v):
                p = [complex(float(v['re%d' % k]), float(v['im%d' % k])) for k in range(d + 1)]
                w = np.roots(p[::-1])
                return dict(kind='roots', roots=[[x.real, x.imag] for x in w])
            # the replay of one level is the whole test: not a witness of the failed obligation
            calls = []

            def stub(nm):
                def g(q, *a, **k):
                    b = c.bool('%s%d' % (nm, len(calls)))
                    calls.append((nm, list(q), b))
                    return b
                return g
            own = getattr(st, name)
            names = [x for x in ('is_S', 'is_svN', 'is_vN') if hasattr(st, x)]
            old = {x: getattr(st, x) for x in names}
            try:
                for x in names:
                    setattr(st, x, stub(x))
                got = own(list(P))
            finally:
                for x in names:
                    setattr(st, x, old[x])
            got = raw(got) if isinstance(got, Sym) else bool(got)
            N = r[0]
            for x in r[1:]:
                N = add(N, x)
            if d == 1:
                if calls:
                    raise Unsupported('recursive call in degree 1')
                if name == 'is_S':
                    c.prove('degree 1: |p0| < |p1|', eq(got, lt(r[0], r[1])) if not isinstance(got, bool) else (lt(r[0], r[1]) if got else ge(r[0], r[1])))
                else:
                    g = got
                    c.prove('degree 1: root in the closed disc', implies(le(r[0], r[1]), g))
                    c.prove('degree 1: root out of the disc by more than the tolerance', implies(gt(sub(r[0], r[1]), mul(BAND, N)), not_(g)))
                return
            circ = [P[d].conjugate() * P[k] - P[0] * P[d - k].conjugate() for k in range(1, d + 1)]
            der = [k * P[k] for k in range(1, d + 1)]
            C = [raw(abs(x)) for x in circ]
            T = mul(mul(mx(r[0], r[d]), N), BAND)
            zero = and_(*[eq(x, 0) for x in C])
            big = or_(*[gt(x, T) for x in C])
            small = lt(r[0], r[d])

            def prop(q, t):
                """q is a non null multiple of t: cross products and same modulus of the leading coefficient"""
                if len(q) != len(t):
                    return False
                q = [Cx.of(x) for x in q]
                from vc.poly import compare
                if compare(q[-1].re, 0) == 0 and compare(q[-1].im, 0) == 0:
                    return False
                for i in range(len(t)):
                    for j in range(i):
                        x = q[i] * t[j] - q[j] * t[i]
                        if compare(x.re, 0) != 0 or compare(x.im, 0) != 0:
                            return False
                return True

            def child(nm, t, lead):
                """the result is the one of the recursive call nm on a multiple of t"""
                alts = []
                for a, q, b in calls:
                    if a == nm and prop(q, t):
                        alts.append(and_(*([not_(eq(Cx.of(x).co, 0)) for x in q[-1:]] + [eq(got, raw(b))])))
                return or_(*alts) if alts else False
            if not calls and not isinstance(got, bool):
                raise Unsupported('no recursive call')
            if name == 'is_S':
                # |p0| < |pn| and the circ polynomial is a Schur polynomial
                c.prove('|p0| >= |pn|: no Schur polynomial', implies(not_(small), not_(got)))
                if c.entails(not_(small)):
                    return
                c.prove('|p0| < |pn|: Schur iff the reduced polynomial is', implies(small, child('is_S', circ, None)))
                return
            tests = {'is_svN': 'is_S', 'is_vN': 'is_vN'}
            if not c.entails(not_(zero)):
                c.prove('null reduction: the test of the derivative', implies(zero, child(tests[name], der, None)))
            if not c.entails(not_(and_(big, small))):
                c.prove('|p0| < |pn|: the same test of the reduced polynomial', implies(and_(big, small), child(name, circ, None)))
            c.prove('|p0| >= |pn|, reduction not null: a root is out of the disc', implies(and_(big, not_(small)), not_(got)))
        return f
    for name in ('is_S', 'is_svN', 'is_vN'):
        for d in (1, 2, 3, 4, 5, 6, 7, 8, 9) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 19):
            fn = [F + name, F + 'operator_circ', F + 'operator_star', F + 'operator_deriv', F + 'normalize', F + 'is_negligible']
            out.append(('%s degree %d' % (name, d), location(name, d), dict(functions=fn, budget=120, timeout=30)))

    def charpoly(n, real):
        def f(c):
            from pylbm.analysis import stability as st
            from vc.poly import prove_equal
            import itertools
            Cx = complex_class()
            c.let_reads, c.object_arrays = True, True
            G = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    G[i, j] = Cx(c.real('a%d%d' % (i, j)), 0 if real else c.real('b%d%d' % (i, j)))
            seen = {}
            res = {k: c.bool(k) for k in ('is_S', 'is_svN', 'is_vN')}
            old = {x: getattr(st, x) for x in res if hasattr(st, x)}

            def stub(k):
                def g(p):
                    seen[k] = [Cx.of(x) for x in p]
                    return res[k]
                return g
            try:
                for x in old:
                    setattr(st, x, stub(x))
                got = st.algo_cohn_schur(G.copy())
            finally:
                for x in old:
                    setattr(st, x, old[x])
            c.prove('two answers', isinstance(got, (tuple, list)) and len(got) == 2)
            c.prove('first answer: simple von Neumann polynomial', eq(raw(got[0]), raw(res['is_svN'])))
            c.prove('second answer: von Neumann polynomial', eq(raw(got[1]), raw(res['is_vN'])))
            # determinant of z I - G by the principal minors (definition)
            def minor(idx):
                t = Cx(0)
                for p in itertools.permutations(range(len(idx))):
                    sg = 1
                    for a in range(len(p)):
                        for b in range(a):
                            if p[b] > p[a]:
                                sg = -sg
                    x = Cx(sg)
                    for a in range(len(p)):
                        x = x * G[idx[a], idx[p[a]]]
                    t = t + x
                return t
            want = []
            for k in range(n + 1):              # coefficient of z^k
                t = Cx(0)
                for idx in itertools.combinations(range(n), n - k):
                    t = t + minor(idx)
                want.append(t * (-1) ** (n - k))
            for k, q in seen.items():
                c.prove('%s: degree of the polynomial' % k, len(q) == n + 1)
                if len(q) != n + 1:
                    continue
                lead = q[-1]
                c.prove('%s: leading coefficient' % k, not_(and_(eq(lead.parts()[0], 0), eq(lead.parts()[1], 0))))
                for i in range(n):
                    x = want[i] * lead - q[i]
                    for part in x.parts():
                        prove_equal(c, '%s: coefficient %d of det(z I - G)' % (k, i), part, 0)
        return f
    for n, real in ((1, False), (2, False), (3, False), (4, True)) + (() if tier == 'quick' else ((4, False), (5, True))):
        out.append(('algo_cohn_schur %s matrices of size %d' % ('real' if real else 'complex', n), charpoly(n, real), dict(functions=[F + 'algo_cohn_schur'], budget=300, timeout=30)))

    def linear(spec):
        """relax_mat_f is the derivative of the collision at the point given by the conserved moments"""
        def f(c):
            import sympy as sp
            from pylbm.scheme import Scheme
            from pylbm.analysis.stability import Stability
            from vc.schemes import dico, sym_env
            from vc.kcheck import Ref
            from vc.poly import prove_equal
            from vc import sym2z3
            E = sym_env()
            s = Scheme(dico(spec), need_validation=False)
            st = Stability(s)
            ref = Ref(spec, s)
            n, nc = ref.n, ref.nc
            env, deriv = {}, {}
            for m in ref.cons:
                env[m] = raw(c.real(str(m)))
            for p in spec.get('free', ()):
                if p != 'LA':
                    env[E.get(p, sp.Symbol(p))] = raw(c.real(p))
            if 'LA' in spec.get('free', ()):
                la = c.real('LA')
                c.assume(la != 0)
                env[E['LA']] = raw(la)
                c.nonzero = {raw(la).get_id()}
            from vc.schemes import concretise
            c.case(lambda v: dict(kind='scheme', spec=concretise(spec), point=[float(v.get(str(m), .3)) for m in ref.cons], n=[5, 9, 8][ref.dim - 1]))
            fixed = [(k, v) for k, v in s.param.items() if str(k) not in spec.get('free', ())]

            def val(e):
                e = sp.sympify(e)
                e = e.subs(fixed)
                rep = {}
                for a in sorted(e.atoms(sp.Derivative, sp.Subs, sp.core.function.AppliedUndef), key=str):
                    k = str(a.doit())
                    if k not in deriv:
                        deriv[k] = sp.Symbol('der%d' % len(deriv))
                        env[deriv[k]] = raw(c.real('der%d' % (len(deriv) - 1)))
                    rep[a] = deriv[k]
                e = e.xreplace(rep)
                return sym2z3.conv(e, env)
            A = sp.Matrix(st.relax_mat_f)
            c.prove('shape', A.shape == (n, n))
            if A.shape != (n, n):
                return
            A = A.subs(fixed)
            # independent linearisation: columns of delta f
            M = sp.Matrix(n, n, lambda i, j: symentry(ref, i, j, E, spec))
            U = None
            S = [sp.sympify(x) for x in ref.s]
            eqj = sp.Matrix([[sp.diff(e, m) for m in ref.cons] for e in ref.eqx])
            MA = M * A
            if ref.rel is None:
                for j in range(n):
                    dm = [M[i, j] for i in range(n)]
                    for i in range(n):
                        want = (1 - S[i]) * dm[i] + S[i] * sum((eqj[i, k] * dm[k] for k in range(nc)), sp.Integer(0))
                        prove_equal(c, 'moment %d of the collision, velocity %d' % (i, j), val(MA[i, j]), val(want))
                return
            u = [sp.sympify(x) for x in ref.rel]
            Mu = sp.Matrix(n, n, lambda i, j: symentry(ref, i, j, E, spec, u))
            iM = sp.Matrix(n, n, lambda i, j: sp.Rational(ref.iM[i][j].numerator, ref.iM[i][j].denominator))
            R = Mu * A
            for j in range(n):
                dm = [M[i, j] for i in range(n)]
                deq = sp.Matrix([sum((eqj[i, k] * dm[k] for k in range(nc)), sp.Integer(0)) for i in range(n)])
                w = Mu * (iM * deq)
                for i in range(n):
                    want = (1 - S[i]) * Mu[i, j] + S[i] * w[i]
                    prove_equal(c, 'moment %d in the moving frame, velocity %d' % (i, j), val(sp.expand(R[i, j])), val(sp.expand(want)))
        return f

    from vc.kprops import variants
    for name, spec in variants(tier):
        if any(q.get('source') for q in spec['schemes']) or 'BaseAlgorithm' in name:
            continue
        out.append(('linearised collision %s' % name, linear(spec), dict(functions=[F + 'Stability.__init__'], budget=200, timeout=30)))

    class Obj(np.ndarray):
        def astype(self, *a, **k):
            return self

    def amplification(vel, dim, n_wv):
        def f(c):
            from pylbm.analysis import stability as st
            Cx = complex_class()
            c.let_reads, c.object_arrays = True, True
            n = len(vel)
            R = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    R[i, j] = Cx(c.real('r%d%d' % (i, j)))
            o = st.Stability.__new__(st.Stability)
            o.nvtot, o.dim, o.is_stable_l2, o.verbose = n, dim, True, False
            o.consm, o.param = ['m0'], {'p': 5}
            o.relax_mat_f = token = object()
            o.velocities = np.array(vel, dtype=float)
            mats, eigm, ans, subs = [], [], [], []

            def stub_sub(e, l):
                subs.append((e, dict(l)))
                return R.view(Obj)

            def stub_cs(G):
                mats.append(G)
                a, b = c.bool('s%d' % len(ans)), c.bool('v%d' % len(ans))
                ans.append((raw(a), raw(b)))
                return a, b

            def stub_eig(G):
                eigm.append(G)
                return (np.array([complex(len(eigm), k) for k in range(n)]), None)
            old = st.recursive_sub, st.algo_cohn_schur, st.np
            real = st.np

            class LA:
                eig = staticmethod(stub_eig)
                eigvals = staticmethod(lambda G: stub_eig(G)[0])

            class N:
                linalg = LA()

                def asarray(self, x, *a, **k):
                    return x if isinstance(x, Obj) else real.asarray(x, *a, **k)
                array = asarray

                def __getattr__(self, k):
                    return getattr(real, k)
            try:
                st.recursive_sub, st.algo_cohn_schur, st.np = stub_sub, stub_cs, N()
                got = o.eigenvalues([7], n_wv, {'q': 9})
            finally:
                st.recursive_sub, st.algo_cohn_schur, st.np = old
            c.prove('the matrix of the collision with the values given', len(subs) >= 1 and all(e is token for e, _ in subs) and subs[-1][1] == {'m0': 7, 'p': 5, 'q': 9})
            xi, eigs = got
            xi = np.array(xi, dtype=float)
            m = int(round(n_wv ** (1 / dim)))
            nw = m ** dim
            c.prove('number of wave vectors', xi.shape == (dim, nw) and tuple(np.shape(eigs)) == (nw, n))
            import itertools
            grid = sorted(tuple(int(x) for x in np.round(np.mod(x, 2 * np.pi) * m / (2 * np.pi)) % m) for x in xi.T)
            c.prove('wave vectors: the regular grid of the periods', grid == sorted(itertools.product(range(m), repeat=dim)) and bool(np.allclose(np.round(xi * m / (2 * np.pi)), xi * m / (2 * np.pi), atol=1e-9)))
            c.prove('every wave vector is tested', len(mats) == nw and len(eigm) == nw)
            if len(mats) != nw or len(eigm) != nw:
                return
            # one sign convention and one side for all the matrices
            tol = Fr(1, 10**9)

            def is_amp(G, k, sign, side):
                ph = np.exp(sign * 1j * (np.array(vel, dtype=float) @ xi[:, k]))
                ok = []
                G = np.asarray(G)
                if G.shape != (n, n):
                    return False
                for i in range(n):
                    for j in range(n):
                        g = Cx.of(G[i, j])
                        e = R[i, j] * complex(ph[j if side else i])
                        from vc.poly import poly, padd
                        for a, b in zip(g.parts(), e.parts()):
                            d = padd(poly(a, {}), poly(b, {}), -1)
                            if any(abs(x) > tol for x in d.values()):
                                return False
                return True
            conv = [(s, t) for s in (1, -1) for t in (0, 1) if all(is_amp(G, k, s, t) for k, G in enumerate(mats))]
            c.prove('matrix given to the root test: collision and phases of the velocities', bool(conv))
            conv = [(s, t) for s in (1, -1) for t in (0, 1) if all(is_amp(G, k, s, t) for k, G in enumerate(eigm))]
            c.prove('matrix whose eigenvalues are returned', bool(conv))
            c.prove('eigenvalues returned', bool(np.array_equal(np.array(eigs, dtype=complex), [[complex(k + 1, j) for j in range(n)] for k in range(nw)])))
            sv, vn = and_(*[a for a, _ in ans]), and_(*[b for _, b in ans])
            v = o.is_stable_l2
            v = raw(v) if isinstance(v, Sym) else int(v)
            c.prove('verdict unstable iff a wave vector is', eq(eq(v, 2), not_(vn)) if not isinstance(eq(v, 2), bool) else (not_(vn) if eq(v, 2) else vn))
            c.prove('verdict stable iff every wave vector is', implies(vn, eq(eq(v, 0), sv) if not isinstance(eq(v, 0), bool) else (sv if eq(v, 0) else not_(sv))))
        return f
    grids = [([(0,), (1,), (-1,)], 1, 4), ([(1,), (2,), (-3,), (6,)], 1, 3), ([(0, 0), (1, 0), (0, 1), (-1, 2)], 2, 4), ([(0, 0, 1), (1, 0, 0), (0, -1, 0), (2, 1, -1)], 3, 8)]
    if tier != 'quick':
        grids += [([(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)], 2, 9), ([(1,), (-1,)], 1, 9)]
    for vel, dim, n in grids:
        out.append(('eigenvalues %d velocities in dimension %d, %d wave vectors' % (len(vel), dim, n), amplification(vel, dim, n), dict(functions=[F + 'Stability.eigenvalues'], budget=120, timeout=30)))
    return out
