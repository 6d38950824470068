"""C05 collision: relaxation towards the equilibrium, conserved moments unchanged"""
from ..kprops import kernel_proofs, kernel_cases

ROUTINES = ['equilibrium', 'relaxation', 'conserved']


def select(name, spec):
    return not any(q.get('source') for q in spec['schemes'])


def check_case(case):
    if case.get('kind') == 'feq':
        return check_feq(case)
    from .. import kharness
    return kharness.check(case)


def check_feq(case):
    """equilibrium given by distribution functions: meq = M feq"""
    import sympy as sp
    import pylbm
    from ..schemes import dico, std, vectors, ex
    spec = std(case['name'])
    spec['la'] = '2'
    d = dico(spec)
    from ..kcheck import Ref, fr
    ref = Ref(spec)
    import random
    rng = random.Random(case['seed'])
    E = {}
    k = 0
    for q, b in zip(d['schemes'], spec['schemes']):
        n = len(b['vel'])
        coef = [[sp.Rational(rng.randint(-5, 5), rng.randint(1, 4)) for _ in ref.cons] for _ in range(n)]
        lin = [sum(a * c for a, c in zip(r, ref.cons)) for r in coef]
        q.pop('equilibrium')
        q['feq'] = (lambda v, lin=lin: sp.Matrix(lin), ())
        E[k] = lin
        k += 1
    # the conserved moments are recognised in the equilibrium: impose it through the inverse of M
    off = 0
    for k, (q, b) in enumerate(zip(d['schemes'], spec['schemes'])):
        n = len(b['vel'])
        rows = [ref.perm.index(off + i) for i in range(n)]
        Mk = sp.Matrix([[sp.Rational(ref.M[r][off + j].numerator, ref.M[r][off + j].denominator) for j in range(n)] for r in rows])
        me = Mk * sp.Matrix(E[k])
        for i, e in enumerate(b['eq']):
            if e in b['consm']:
                me[i] = ex(e)
        fe = Mk.inv() * me
        q['feq'] = (lambda v, fe=fe: sp.Matrix(fe), ())
        E[k] = me
        off += n
    s = pylbm.Scheme(d)
    par = list(s.param.items())
    want = [sp.expand(e.subs(ref.par)) for k in sorted(E) for e in E[k]]
    for i, p in enumerate(ref.perm):
        got = sp.nsimplify(sp.expand(s.EQ[i].subs(par)), rational=True)
        if sp.expand(got - want[p]) != 0 and abs(sp.Poly(sp.expand(got - want[p]), *ref.cons).max_norm()) > 1e-10:
            return ('feq', 'equilibrium moment %d is %s instead of %s' % (i, got, want[p]))
    return None


def cases(tier, rng):
    for i, n in enumerate(['D1Q2', 'D1Q3', 'D2Q4', 'D2Q5', 'D1Q22']):
        yield dict(kind='feq', name=n, seed=i)
    yield from kernel_cases(tier, rng, select, ROUTINES, rel=lambda r: r < .4)


def proofs(tier):
    return kernel_proofs(tier, select, ROUTINES)
