"""C26 relative velocity: translation matrices and collision in the moving frame"""
from ..kprops import kernel_proofs, kernel_cases, closed

ROUTINES = ['one_time_step', 'conserved']


def select(name, spec):
    return bool(spec.get('rel_vel'))


def check_case(case):
    if case.get('kind') == 'matrix':
        return check_matrix(case)
    if case.get('kind') == 'zero':
        return check_zero(case)
    from .. import kharness
    return kharness.check(case)


def spec_of(case):
    from ..schemes import std
    s = case['spec'] if 'spec' in case else std(case['name'])
    return dict(s, rel_vel=case.get('rel') or ['1/10', '-1/5', '1/3'][:s['dim']])


def check_matrix(case):
    import sympy as sp
    import pylbm
    from ..schemes import dico
    from ..kcheck import Ref, fr
    from fractions import Fraction as Fr
    spec = spec_of(case)
    s = pylbm.Scheme(dico(spec))
    ref = Ref(spec, s)
    u = [Fr(x) for x in case['u']]
    U = [sp.Symbol(n, real=True) for n in ('rel_ux', 'rel_uy', 'rel_uz')]
    from pylbm.symbolic import rel_ux, rel_uy, rel_uz
    sub = [(a, sp.Rational(b.numerator, b.denominator)) for a, b in zip((rel_ux, rel_uy, rel_uz), u)]
    par = list(s.param.items())
    num = lambda M: [[fr(M[i, j].subs(sub).subs(par)) for j in range(ref.n)] for i in range(ref.n)]
    T, Tm, M = num(s.Tu), num(s.Tmu), num(s.M)
    n = ref.n
    close = lambda a, b: abs(a - b) <= Fr(1, 10**9) * (1 + abs(b))
    for i in range(n):
        for j in range(n):
            if not close(sum(T[i][k] * Tm[k][j] for k in range(n)), int(i == j)):
                return ('inverse', 'T(u) T(-u) differs from the identity at (%d, %d)' % (i, j))
            e = ref.entry(ref.polys[i], ref.vel[j], [Fr(x) for x in u[:ref.dim]]) if ref.pblock[i] == ref.block[j] else 0
            if not close(sum(T[i][k] * M[k][j] for k in range(n)), e):
                return ('translation', 'T(u) M differs from the polynomial at v - u at (%d, %d)' % (i, j))
    return None


def check_zero(case):
    """a null relative velocity is no relative velocity"""
    import numpy as np
    import pylbm
    from ..schemes import dico
    res = []
    for rel in (None, ['0'] * case['spec']['dim']):
        sp_ = dict(case['spec'], rel_vel=rel)
        d = dico(sp_)
        d.pop('dim')
        n = case['n']
        box = {k: [0., n[i] * .25] for i, k in enumerate('xyz'[:sp_['dim']])}
        box['label'] = -1
        cons = [c for q in d['schemes'] for c in (q['conserved_moments'] if isinstance(q['conserved_moments'], list) else [q['conserved_moments']])]
        d.update(box=box, space_step=.25, generator=case['backend'], init={c: 1. for c in cons})
        sim = pylbm.Simulation(d)
        rng = np.random.default_rng(case['seed'])
        sim.container.F[:] = rng.uniform(.5, 1.5, sim.container.F[:].shape)
        for _ in range(3):
            sim.one_time_step()
        res.append(np.array(sim.container.F[:]))
    h = sim.domain.stencil.vmax
    inner = (slice(None),) + tuple(slice(int(x), -int(x)) if x else slice(None) for x in h)
    if not np.allclose(res[0][inner], res[1][inner], rtol=1e-9, atol=1e-9):
        return ('zero', 'a null relative velocity changes the result by %g' % float(np.max(abs(res[0][inner] - res[1][inner]))))
    return None


def cases(tier, rng):
    from ..schemes import STD, std, random_spec
    for n in STD:
        if closed(std(n), ['1/3', '-2/5', '3/7']):
            yield dict(kind='matrix', name=n, u=['1/3', '-2/5', '3/7'])
        yield dict(kind='zero', spec=std(n), n=[5, 4, 3][:std(n)['dim']], backend='numpy', seed=1)
    g = kernel_cases(tier, rng, select, ROUTINES, source=lambda r: r < .3, rel=lambda r: True)
    while True:
        for _ in range(4):
            yield next(g)
        s = random_spec(rng, symmetric=rng.random() < .5, full=True, maxv=rng.choice([1, 1, 2]))
        if rng.random() < .5 and closed(s, ['1/3', '-2/5', '3/7']):
            yield dict(kind='matrix', spec=s, u=['%d/%d' % (rng.randint(-5, 5), rng.randint(1, 5)) for _ in range(3)])
        else:
            yield dict(kind='zero', spec=s, n=[rng.randint(2, 5) for _ in range(s['dim'])], backend='numpy', seed=rng.randint(1, 10**6))


def proofs(tier):
    from vc.core import raw, and_, eq, wrap
    out = []

    def matrices(spec):
        def f(c):
            import sympy as sp
            import pylbm
            from vc.schemes import dico, sym_env
            from vc.sym2z3 import conv
            from vc.poly import prove_equal
            from vc.kcheck import Ref
            from pylbm.symbolic import rel_ux, rel_uy, rel_uz
            E = sym_env()
            sp_ = dict(spec, free=['LA'], rel_vel=['1/10', '-1/5', '1/3'][:spec['dim']])
            d = dico(sp_)
            c.case(lambda v: dict(kind='matrix', spec=spec, u=[str(v.get('u%d' % i, '1/3')) for i in range(3)]))
            s = pylbm.Scheme(d)
            ref = Ref(sp_, s)
            LA = c.real('LA', pos=True)
            c.nonzero = {raw(LA).get_id()}
            ref.set_la(LA)
            u = [c.real('u%d' % i) for i in range(3)]
            env = {E['LA']: raw(LA), rel_ux: raw(u[0]), rel_uy: raw(u[1]), rel_uz: raw(u[2])}
            n = ref.n
            par = list(s.param.items())
            conv_ = lambda M: [[conv(sp.expand(M[i, j].subs(par)), env) for j in range(n)] for i in range(n)]
            T, Tm, M = conv_(s.Tu), conv_(s.Tmu), conv_(s.M)
            for i in range(n):
                for j in range(n):
                    p = q = 0
                    for k in range(n):
                        p = p + wrap(T[i][k]) * wrap(Tm[k][j])
                        q = q + wrap(T[i][k]) * wrap(M[k][j])
                    prove_equal(c, 'T(u) T(-u) is the identity', p, int(i == j))
                    e = ref.entry(ref.polys[i], ref.vel[j], u[:ref.dim]) if ref.pblock[i] == ref.block[j] else 0
                    prove_equal(c, 'T(u) M is the matrix of the polynomials at v - u', q, e)
        return f
    from vc.schemes import STD, std
    for n in STD:
        if closed(std(n), ['1/3', '-2/5', '3/7']):
            out.append(('translation matrices of %s' % n, matrices(std(n)), dict(functions=['pylbm.scheme.Scheme.__init__', 'pylbm.scheme.Scheme._create_moments_matrices', 'pylbm.scheme.Scheme._permute_consm_in_front'], budget=300, timeout=20)))

    def zero(backend, spec):
        def f(c):
            from vc.kcheck import verify
            # null frame velocity: the contract of the scheme without relative velocity
            s0 = dict(spec, rel_vel=['0'] * spec['dim'])
            verify(c, s0, None, backend, ['one_time_step'], norel=True, case=lambda v: dict(kind='zero', spec=spec, n=[5, 4, 3][:spec['dim']], backend='numpy', seed=1))
        return f
    for backend in ('numpy', 'cython'):
        for n in ('D1Q3', 'D2Q4', 'D2Q5', 'D2Q9', 'D1Q22', 'D3Q6'):
            out.append(('%s null relative velocity %s' % (backend, n), zero(backend, std(n)), dict(functions=['pylbm.algorithm.*'], budget=200, timeout=20)))
    return out + kernel_proofs(tier, select, ROUTINES)
