"""C04 moment matrix, its inverse, conserved moments in front"""
from fractions import Fraction as Fr
import itertools


def check_case(case):
    import sympy as sp
    from pylbm.scheme import Scheme
    from vc.schemes import dico, ex, vectors, sym_env
    spec = case['spec']
    la = Fr(case['la'])
    E = sym_env()
    d = dico(spec)
    if case.get('symb'):
        # user chosen names for the space variables
        new = [sp.Symbol(n) for n in case['symb']][:spec['dim']]
        for key, x in zip(('space_x', 'space_y', 'space_z'), new):
            d['parameters'][key] = x
        for s in d['schemes']:
            s['polynomials'] = [p.xreplace(dict(zip([E['X'], E['Y'], E['Z']], new))) for p in s['polynomials']]
    s = Scheme(d, need_validation=False)
    num = lambda e: Fr(int(sp.Rational(e).p), int(sp.Rational(e).q))
    LA = num(ex(spec['la']).subs(E['LA'], sp.Rational(la.numerator, la.denominator)))
    sub = {E['LA']: sp.Rational(la.numerator, la.denominator)}
    sub.update({E[p]: ex(v) for p, v in spec['params'].items() if p != 'LA'})
    n = sum(len(q['vel']) for q in spec['schemes'])
    # reference
    ref = [[Fr(0)] * n for _ in range(n)]
    eqs, rates, cons = [], [], []
    off = 0
    for q in spec['schemes']:
        vs = vectors(spec['dim'], q['vel'])
        for i, p in enumerate(q['poly']):
            P = sp.Poly(ex(p), E['X'], E['Y'], E['Z'])
            for j, v in enumerate(vs):
                v = list(v) + [0] * (3 - len(v))
                ref[off + i][off + j] = sum((num(c) * (LA * v[0]) ** a * (LA * v[1]) ** b * (LA * v[2]) ** e for (a, b, e), c in P.terms()), Fr(0))
        eqs += [ex(x) for x in q['eq']]
        rates += [ex(x) for x in q['s']]
        cons += [(off, off + len(vs), E[c]) for c in q['consm']]
        off += len(vs)
    if tuple(s.M.shape) != (n, n) or tuple(s.invM.shape) != (n, n) or len(s.EQ) != n or len(s.s) != n:
        return ('shape', 'shapes of M, invM, EQ or s for %s' % (spec,))
    M = [[num(sp.sympify(s.M[i, j]).subs(sub)) for j in range(n)] for i in range(n)]
    iM = [[num(sp.sympify(s.invM[i, j]).subs(sub)) for j in range(n)] for i in range(n)]
    # a numerical scheme velocity is a double: the matrices are then exact up to rounding
    symbolic = 'LA' in spec['la']
    big = max(abs(x) for r in iM for x in r) * max(abs(x) for r in M for x in r)
    same = lambda a, b: a == b if symbolic else abs(a - b) <= Fr(1, 10**10) * (1 + big)
    perm = []
    for i in range(n):
        js = [j for j in range(n) if all(map(same, M[i], ref[j]))]
        if len(js) != 1:
            return ('matrix', 'row %d of the moment matrix is not a declared polynomial on the velocities: %s' % (i, M[i]))
        perm.append(js[0])
    if sorted(perm) != list(range(n)):
        return ('rows', 'rows of the moment matrix are not a permutation of the polynomials: %s' % perm)
    for i in range(n):
        for j in range(n):
            if not same(sum(iM[i][k] * M[k][j] for k in range(n)), Fr(i == j)):
                return ('inverse', 'entry (%d, %d) of invM * M' % (i, j))
        if sp.simplify(s.EQ[i] - eqs[perm[i]]) != 0:
            return ('equilibrium', 'moment %d is polynomial %d but has equilibrium %s instead of %s' % (i, perm[i], s.EQ[i], eqs[perm[i]]))
        if sp.simplify(s.s[i] - rates[perm[i]]) != 0:
            return ('rate', 'moment %d is polynomial %d but has rate %s instead of %s' % (i, perm[i], s.s[i], rates[perm[i]]))
    if list(s.consm.items()) != [(c, i) for i, (_, _, c) in enumerate(cons)]:
        return ('conserved order', 'conserved moments %s, declared %s' % (dict(s.consm), cons))
    for i, (a, b, c) in enumerate(cons):
        if not (a <= perm[i] < b) or eqs[perm[i]] != c:
            return ('conserved', 'moment %d should be the conserved moment %s: equilibrium %s' % (i, c, eqs[perm[i]]))
    # the tables printed for the user keep the user's order
    for i in range(n):
        if not all(map(same, [num(sp.sympify(x).subs(sub)) for x in s.M_no_swap.row(i)], ref[i])):
            return ('unswapped', 'row %d of M_no_swap' % i)
        if s.EQ_no_swap[i] != eqs[i] or s.s_no_swap[i] != rates[i]:
            return ('unswapped', 'entry %d of EQ_no_swap or s_no_swap' % i)
    return None


def cases(tier, rng):
    from vc.schemes import std, STD, random_spec
    for n in STD:
        yield dict(spec=std(n), la='3/2')
    # every position and order of one, two or three conserved moments
    for n, k in ((3, 1), (3, 2), (4, 2), (4, 3)) + (((5, 3), (5, 4)) if tier != 'quick' else ()):
        for p in itertools.permutations(range(n), k):
            eq = ['%d/7' % (i + 1) for i in range(n)]
            for a, i in enumerate(p):
                eq[i] = 'm%d' % a
            yield dict(spec=dict(dim=1, la='LA', params=dict(p0='1/4'), schemes=[dict(vel=list(range(n)), poly=['1', 'X', 'X**2', 'X**3', 'X**4'][:n],
                       consm=['m%d' % a for a in range(k)], eq=eq, s=['%d/9' % (i + 1) for i in range(n)])]), la='2')
    while True:
        if tier == 'quick' and rng is None:
            return
        c = dict(spec=random_spec(rng, symmetric=rng.random() < .5, maxv=2), la=rng.choice(['1', '2', '1/2', '5/3', '-3/4']))
        if rng.random() < .25:
            c['symb'] = rng.choice([['x', 'y', 'z'], ['Y', 'X', 'Z'], ['a', 'b', 'X']])
            if c['symb'][0] != 'x':
                c['symb'] = ['x', 'y', 'z']
        yield c


def proofs(tier):
    from vc.core import raw, and_, or_, eq, ne, ite, wrap, z, implies, not_, Unsupported
    import z3

    class Vec:
        """matrix seen through the permutation applied to its rows (or columns): perm(i) is the original index"""

        def __init__(self, n, rows, cols):
            self.n, self.rows, self.cols = n, rows, cols
            self.r = lambda i: i
            self.c = lambda i: i

        @staticmethod
        def _sw(f, a, b):
            a, b = raw(a), raw(b)
            return lambda i: ite(eq(i, a), f(b), ite(eq(i, b), f(a), f(i)))

        def row_swap(self, a, b):
            if not self.rows:
                raise Unsupported('row swap of a matrix indexed by velocities')
            self.r = self._sw(self.r, a, b)

        def col_swap(self, a, b):
            if not self.cols:
                raise Unsupported('column swap of a matrix indexed by velocities')
            self.c = self._sw(self.c, a, b)

        def copy(self):
            raise Unsupported('copy')

        def __getattr__(self, n):
            raise Unsupported('matrix operation %s' % n)

        def __getitem__(self, k):
            raise Unsupported('matrix entry')
        __setitem__ = __mul__ = __rmul__ = lambda self, *a: Vec.__getitem__(self, 0)

    def perm(k):
        """k conserved moments at arbitrary distinct positions of arbitrarily many moments"""
        def f(c):
            from collections import OrderedDict
            from pylbm.scheme import Scheme
            n = c.int('n', lo=k)
            pos = [c.int('c%d' % i, lo=0) for i in range(k)]
            for p in pos:
                c.assume(p < n)
            for a, b in itertools.combinations(pos, 2):
                c.assume(a != b)

            def case(v):
                N = min(max(v['n'], 2), 6)
                if any(v['c%d' % i] >= N for i in range(k)):
                    # keep the relative order and equality pattern of the positions among 0..k-1 and the rest
                    rest = sorted({v['c%d' % i] for i in range(k) if v['c%d' % i] >= k})
                    N = k + len(rest)
                    ps = [v['c%d' % i] if v['c%d' % i] < k else k + rest.index(v['c%d' % i]) for i in range(k)]
                else:
                    ps = [v['c%d' % i] for i in range(k)]
                N = max(N, 2)
                eqs = ['%d/7' % (i + 1) for i in range(N)]
                for a, i in enumerate(ps):
                    eqs[i] = 'm%d' % a
                return dict(la='2', spec=dict(dim=1, la='LA', params=dict(p0='1/4'), schemes=[dict(vel=list(range(N)), poly=['1'] + ['X**%d' % i for i in range(1, N)],
                            consm=['m%d' % a for a in range(k)], eq=eqs, s=['%d/9' % (i + 1) for i in range(N)])]))
            c.case(case)
            s = Scheme.__new__(Scheme)
            s.consm = OrderedDict(('m%d' % i, p) for i, p in enumerate(pos))
            s.EQ, s.s, s.M, s.invM, s.Tu, s.Tmu = Vec(n, 1, 0), Vec(n, 1, 0), Vec(n, 1, 0), Vec(n, 0, 1), Vec(n, 1, 1), Vec(n, 1, 1)
            s._permute_consm_in_front()
            for i, p in enumerate(pos):
                c.prove('conserved moment %d is moved to position %d' % (i, i), eq(s.EQ.r(i), raw(p)))
            c.prove('indices of the conserved moments', list(s.consm.items()) == [('m%d' % i, i) for i in range(k)])
            i, j = c.int('i', lo=0), c.int('j', lo=0)
            c.assume(i < n)
            c.assume(j < n)
            i, j = raw(i), raw(j)
            pi = s.EQ.r(i)
            for nm, g in (('s', s.s.r), ('M rows', s.M.r), ('invM columns', s.invM.c), ('Tu rows', s.Tu.r), ('Tu columns', s.Tu.c), ('Tmu rows', s.Tmu.r), ('Tmu columns', s.Tmu.c)):
                c.prove('same permutation on %s' % nm, eq(g(i), pi))
            c.prove('the permutation is injective', implies(eq(pi, s.EQ.r(j)), eq(i, j)))
            c.prove('the permutation stays in range', and_(pi >= 0, pi < raw(n)))
        return f

    def matrices(spec, coefs=False):
        """M, invM of the real constructor: identities for every scheme velocity (and every coefficient of the polynomials)"""
        def f(c):
            import sympy as sp
            from pylbm.scheme import Scheme
            from vc.schemes import dico, vectors, sym_env, ex
            from vc.sym2z3 import conv, identity
            E = sym_env()
            d = dico(spec)
            LA = c.real('LA')
            c.assume(LA != 0)
            env = {E['LA']: raw(LA)}
            polys = []
            for k, q in enumerate(spec['schemes']):
                n = len(q['vel'])
                if coefs:
                    d['schemes'][k]['polynomials'] = []
                    for i in range(n):
                        p = 0
                        for j in range(n):
                            a = sp.Symbol('c%d_%d_%d' % (k, i, j))
                            env[a] = raw(c.real(a.name))
                            p += a * E['X'] ** j
                        d['schemes'][k]['polynomials'].append(p)
                polys += d['schemes'][k]['polynomials']
            c.case(lambda v: dict(spec=spec, la='%s' % Fr(v['LA'])))
            s = Scheme.__new__(Scheme)
            # the parts of the constructor before the permutation
            from pylbm.stencil import Stencil
            s.stencil = Stencil(d, need_validation=False)
            s.dim, s.param, s.la, s.rel_vel = spec['dim'], {}, d['scheme_velocity'], None
            s.symb_t, s.symb_coord = s._get_space_and_time_symbolic()
            s.nschemes = s.stencil.nstencils
            s.P = sp.Matrix(polys)
            M, invM, Tu, Tmu = s._create_moments_matrices()
            n = len(polys)
            off = 0
            blk = []
            for k, q in enumerate(spec['schemes']):
                blk += [(k, v) for v in vectors(spec['dim'], q['vel'])]
            for i in range(n):
                for j in range(n):
                    if blk[i][0] != blk[j][0]:
                        c.prove('blocks of different schemes are zero', and_(eq(conv(sp.sympify(M[i, j]), env), 0), eq(conv(sp.sympify(invM[i, j]), env), 0)))
                        continue
                    P = sp.Poly(polys[i], E['X'], E['Y'], E['Z'])
                    v = list(blk[j][1]) + [0] * (3 - spec['dim'])
                    r = 0
                    from vc.core import add, mul, pow_
                    for ee, co in P.terms():
                        t = conv(co, env)
                        for a, x in zip(ee, v):
                            t = mul(t, pow_(mul(x, env[E['LA']]), a))
                        r = add(r, t)
                    c.prove('entry is the polynomial at the velocity', eq(conv(sp.sympify(M[i, j]), env), r))
            for i in range(n):
                for j in range(n):
                    e = sum(invM[i, k] * M[k, j] for k in range(n))
                    identity(c, 'inverse times matrix', e, sp.Integer(int(i == j)), env)
        return f
    out = []
    F = 'pylbm.scheme.Scheme.'
    for k in (1, 2, 3) + (() if tier == 'quick' else (4,)):
        out.append(('_permute_consm_in_front, %d conserved moments' % k, perm(k), dict(functions=[F + '_permute_consm_in_front'], budget=200)))
    from vc.schemes import std, STD
    fn = [F + '_create_moments_matrices', F + '_get_space_and_time_symbolic', 'pylbm.utils.alltogether' if False else 'pylbm.symbolic.alltogether']
    for n in STD:
        out.append(('_create_moments_matrices %s' % n, matrices(std(n)), dict(functions=fn, budget=200)))
    out.append(('_create_moments_matrices generic polynomials D1Q2', matrices(std('D1Q2'), True), dict(functions=fn, budget=200)))
    out.append(('_create_moments_matrices generic polynomials D1Q3', matrices(std('D1Q3'), True), dict(functions=fn, budget=200)))
    out.append(('_create_moments_matrices generic polynomials D1Q22', matrices(std('D1Q22'), True), dict(functions=fn, budget=200)))
    return out
