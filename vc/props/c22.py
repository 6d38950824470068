"""C22 equivalent equations: second order Taylor expansion of the scheme on its conserved moments"""
from fractions import Fraction as Fr


def check_case(case):
    import numpy as np
    import sympy as sp
    from pylbm.scheme import Scheme
    from pylbm.analysis import EquivalentEquation
    from vc.schemes import dico
    from vc.kcheck import Ref
    from vc.props.c21 import numeric_matrix
    spec, point = case['spec'], case['point']
    s = Scheme(dico(spec), need_validation=False)
    eq = EquivalentEquation(s)
    ref = Ref(spec, s, exact=False)
    dim, n, nc = ref.dim, ref.n, ref.nc
    sub = [(c, v) for c, v in zip(ref.cons, point)] + list(s.param.items())
    num = lambda A: np.array(sp.Matrix(A).subs(sub).subs(list(s.param.items())).tolist(), dtype=float)
    if len(eq.coeff_order1) != dim or len(eq.coeff_order2) != dim or any(len(r) != dim for r in eq.coeff_order2):
        return ('shape', 'numbers of coefficients for dimension %d' % dim)
    F = [num(x) for x in eq.coeff_order1]
    D = [[num(x) for x in r] for r in eq.coeff_order2]
    if any(x.shape != (nc, 1) for x in F) or any(x.shape != (nc, nc) for r in D for x in r):
        return ('shape', 'shapes of the coefficients for %d conserved moments' % nc)
    # order 1: flux of the equilibrium
    m0 = [0.] * n
    for i in range(nc):
        m0[i] = point[i]
    meq = [complex(x).real for x in ref.eq(m0)]
    feq = np.array([complex(x).real for x in ref.m2f(meq)])
    M = np.array([[float(x) for x in r] for r in ref.M])
    la = float(ref.la)
    V = np.array(ref.vel, dtype=float) * la
    for d in range(dim):
        w = M @ (V[:, d] * feq)
        if not np.allclose(F[d][:, 0], w[:nc], rtol=1e-8, atol=1e-8 * (1 + abs(w).max())):
            return ('order 1', 'flux in direction %d is %s, the one of the equilibrium is %s' % (d, F[d][:, 0].tolist(), w[:nc].tolist()))
    # the linearised scheme at the state: slow manifold W -> (W, X W), amplification matrix of W
    J = numeric_matrix(ref, point, None)
    iM = np.array([[float(x) for x in r] for r in ref.iM])

    def generator(k):
        A = M @ (np.exp(-1j * V @ k)[:, None] * J) @ iM
        a, b, c, d = A[:nc, :nc], A[:nc, nc:], A[nc:, :nc], A[nc:, nc:]
        X = np.zeros((n - nc, nc), dtype=complex)
        for _ in range(4000):
            Y = (c + d @ X) @ np.linalg.inv(a + b @ X)
            if abs(Y - X).max() <= 1e-15 * (1 + abs(X).max()):
                break
            X = Y
        else:
            return None
        T = a + b @ Y
        L, P, E = np.zeros((nc, nc), dtype=complex), np.eye(nc, dtype=complex), T - np.eye(nc)
        for j in range(1, 40):
            P = P @ E
            L = L - (-1) ** j * P / j
            if abs(P).max() < 1e-18:
                break
        return L
    # derivatives of the flux: complex step of the equilibrium
    dF = np.zeros((dim, nc, nc))
    for j in range(nc):
        mm = [complex(x) for x in m0]
        mm[j] += 1e-30j
        f = np.array(ref.m2f([complex(x) for x in ref.eq(mm)]))
        for d in range(dim):
            dF[d][:, j] = np.imag(M @ (V[:, d] * f))[:nc] / 1e-30
    dirs = [np.eye(dim)[d] for d in range(dim)] + [np.eye(dim)[d] + np.eye(dim)[e] for d in range(dim) for e in range(d)]
    h = 1e-3 / max(1., abs(V).max())
    for u in dirs:
        gp, gm = generator(h * u), generator(-h * u)
        if gp is None or gm is None:
            return None
        odd, even = (gp - gm) / 2 / h, (gp + gm) / 2 / h ** 2
        w1 = -1j * sum(u[d] * dF[d] for d in range(dim))
        w2 = sum(u[d] * u[e] * D[d][e] for d in range(dim) for e in range(dim))
        # the state is uniform: derivatives of the coefficients do not enter
        sc = 1 + abs(w1).max() + abs(V).max() ** 2
        if abs(odd - w1).max() > 1e-3 * sc:
            return ('order 1', 'along %s the scheme transports with %s, the equations with %s' % (u.tolist(), np.round(odd, 8).tolist(), np.round(w1, 8).tolist()))
        sg = 1 + abs(w2).max() + abs(even).max()
        if abs(even - w2).max() > 2e-4 * sg:
            return ('order 2', 'along %s the second order of the scheme is %s, the one of the equations is %s' % (u.tolist(), np.round(even.real, 8).tolist(), np.round(w2, 8).tolist()))
    return None


def good(spec):
    """rates of the non conserved moments in (0.3, 1.9]: the slow manifold exists"""
    from vc.kcheck import Ref
    r = Ref(spec)
    return all(Fr(3, 10) < x <= Fr(19, 10) for x in map(Fr, map(str, r.s[r.nc:]))) and (r.rel is None or all(x == 0 for x in r.s[:r.nc]))


def select(name, s):
    return not any(q.get('source') for q in s['schemes']) and 'BaseAlgorithm' not in name


def cases(tier, rng):
    from vc.schemes import random_spec
    from vc.kprops import variants, is_generic, closed
    for name, s in variants('quick'):
        if is_generic(s) or not select(name, s) or not good(s):
            continue
        nc = sum(len(q['consm']) for q in s['schemes'])
        yield dict(spec=s, point=[0.3 - 0.17 * i for i in range(nc)])
    while True:
        s = random_spec(rng, nvmax=rng.choice([None, 7]), symmetric=rng.random() < .5, maxv=rng.choice([1, 1, 2]), full=True, rel=rng.random() < .3)
        if not good(s) or s.get('rel_vel') and not closed(s, ['1/3', '-2/5', '3/7']):
            continue
        nc = sum(len(q['consm']) for q in s['schemes'])
        yield dict(spec=s, point=[round(rng.uniform(-.8, .8), 3) or .1 for _ in range(nc)])


def proofs(tier):
    from vc.core import raw
    F = 'pylbm.analysis.equivalent_equation.EquivalentEquation.'

    def expansion(spec):
        def f(c):
            import sympy as sp
            from pylbm.scheme import Scheme
            from pylbm.analysis import EquivalentEquation
            from vc.schemes import dico, sym_env
            from vc.kcheck import Ref
            from vc.poly import prove_equal
            from vc.props.c21 import symentry
            from vc import sym2z3
            E = sym_env()
            s = Scheme(dico(spec), need_validation=False)
            eq = EquivalentEquation(s)
            ref = Ref(spec, s)
            n, nc, dim = ref.n, ref.nc, ref.dim
            env = {m: raw(c.real(str(m))) for m in ref.cons}
            c.nonzero = set()
            for p in spec.get('free', ()):
                if p != 'LA':
                    env[E.get(p, sp.Symbol(p))] = raw(c.real(p))
                    if any(str(x) == p for x in ref.s[nc:]):
                        c.assume(env[E.get(p, sp.Symbol(p))] != 0)
                        c.nonzero.add(env[E.get(p, sp.Symbol(p))].get_id())
            if 'LA' in spec.get('free', ()):
                la = c.real('LA')
                c.assume(la != 0)
                env[E['LA']] = raw(la)
                c.nonzero.add(raw(la).get_id())
            from vc.schemes import concretise
            c.case(lambda v: dict(spec=concretise(spec), point=[float(v.get(str(m), .3)) for m in ref.cons]))
            fixed = [(k, v) for k, v in s.param.items() if str(k) not in spec.get('free', ())]

            def val(e):
                return sym2z3.conv(sp.nsimplify(sp.expand(sp.sympify(e).subs(fixed)), rational=True), env)
            lam = E['LA'] if 'LA' in spec.get('free', ()) else sp.Rational(ref.la.numerator, ref.la.denominator)
            M = sp.Matrix(n, n, lambda i, j: symentry(ref, i, j, E, spec))
            if 'LA' in spec.get('free', ()):
                iM = M.inv().applyfunc(sp.factor)
            else:
                iM = sp.Matrix(n, n, lambda i, j: sp.Rational(ref.iM[i][j].numerator, ref.iM[i][j].denominator))
            meq = sp.Matrix([sp.sympify(e) for e in ref.eqx])
            W = list(ref.cons)
            Lam = [M * sp.diag(*[lam * v[d] for v in ref.vel]) * iM for d in range(dim)]
            flux = [(L * meq).applyfunc(sp.expand) for L in Lam]          # moments of v f_eq
            c.prove('one flux per direction', len(eq.coeff_order1) == dim and all(tuple(x.shape) == (nc, 1) for x in eq.coeff_order1))
            for d in range(dim):
                for i in range(nc):
                    prove_equal(c, 'flux of the equilibrium, direction %d, conserved moment %d' % (d, i), val(eq.coeff_order1[d][i]), val(flux[d][i]))
            # f = feq + dt f1: the moments of f1 are -S^-1 (d_t + v d_x) of the equilibrium, d_t W = - d_x flux
            sig = sp.diag(*[1 / sp.sympify(x) - sp.Rational(1, 2) for x in ref.s[nc:]])
            if ref.rel is not None:
                u = [sp.sympify(x) for x in ref.rel]
                mov = lambda w: sp.Matrix(n, n, lambda i, j: symentry(ref, i, j, E, spec, w)) * iM
                Tu, Tm = mov(u), mov([-x for x in u])
                sig = Tm[nc:, nc:] * sig * Tu[nc:, nc:]
            jac = meq.jacobian(W)
            c.prove('coefficients of the second order', len(eq.coeff_order2) == dim and all(len(r) == dim and all(tuple(x.shape) == (nc, nc) for x in r) for r in eq.coeff_order2))
            for e in range(dim):
                dflux = flux[e].jacobian(W)
                # derivative along e of the non conserved moments of (d_t + v d_x) feq
                R = dflux[nc:, :] - jac[nc:, :] * dflux[:nc, :]
                for d in range(dim):
                    want = -(Lam[d][:nc, nc:] * sig * R)
                    for i in range(nc):
                        for j in range(nc):
                            prove_equal(c, 'second order (%d, %d), moments (%d, %d)' % (d, e, i, j), val(eq.coeff_order2[d][e][i, j]), val(want[i, j]))
        return f
    out = []
    from vc.kprops import variants, is_generic
    for name, spec in variants(tier):
        if not select(name, spec) or 'conserved moments with rates' in name:
            continue
        import json
        if tier == 'quick' and name in ('D2Q9 with arbitrary equilibria, rates and scheme velocity',):
            continue
        out.append(('expansion %s' % name, expansion(spec), dict(functions=[F + '__init__', 'pylbm.symbolic.alltogether'], budget=200, timeout=30)))
    # moving frames which mix the non conserved moments
    for nm, eqs, u in (('affine equilibria', ['2/3*m0+m0**2/8', '-1/4*m0-m1/4', 'm0/3+2/3*m1', '2/3*m0+p0*m1', '2/3*m1-m1*m0/5'], ['1/5', 'm0/10']),
                       ('arbitrary equilibria', ['E%d(m0, m1)' % i for i in range(5)], ['1/5', 'E7(m0, m1)'])):
        s = dict(dim=2, la='LA', params=dict(p0='1/4', p1='7/5', p2='9/10', p3='6/5', LA='2'), free=['p1', 'p2', 'p3'],
                 schemes=[dict(vel=[0, 1, 3, 2, 7, 4, 5], poly=['1', 'X', 'Y', 'X**2', 'X*Y', 'Y**2+1*Y', 'X**2*Y'], consm=['m0', 'm1'],
                               eq=['m0', 'm1'] + eqs, s=['0', '0', 'p1', '1', 'p2', '4/5', 'p3'])], rel_vel=u)
        out.append(('expansion 7 velocities, relative velocity, %s' % nm, expansion(s), dict(functions=[F + '__init__', 'pylbm.symbolic.alltogether'], budget=200, timeout=30)))
    return out
