"""descriptions of lattice Boltzmann schemes (JSON) shared by the checks

spec: dim, la (string), schemes: [{vel, poly, consm, eq, s, source?}], params {name: number}, rel_vel [strings]?
"""
from fractions import Fraction as Fr
import itertools


def sym_env():
    import sympy as sp
    e = {n: sp.Symbol(n) for n in ('X', 'Y', 'Z', 'LA', 't')}
    for i in range(12):
        e['m%d' % i] = sp.Symbol('m%d' % i)
        e['p%d' % i] = sp.Symbol('p%d' % i)
    return e


_GEN = {}


def gen_function(name):
    """an arbitrary function: printed as a call of that name by the printers of /repo"""
    import sympy as sp
    if name not in _GEN:
        show = lambda self, printer: '%s(%s)' % (name, ', '.join(printer._print(a) for a in self.args))
        _GEN[name] = type(name, (sp.Function,), dict(_numpycode=show, _cythoncode=show, fdiff=lambda self, argindex=1: gen_function('%sd%d' % (name, argindex))(*self.args)))
    return _GEN[name]


def ex(s):
    import sympy as sp
    import re
    loc = sym_env()
    if isinstance(s, str):
        for n in re.findall(r'\b(E\d+)\(', s):
            loc[n] = gen_function(n)
    return sp.sympify(s, locals=loc, rational=True)


def dico(spec, **extra):
    """the pylbm dictionary of the scheme"""
    import sympy as sp
    E = sym_env()
    d = dict(dim=spec['dim'], scheme_velocity=ex(spec['la']) if not ex(spec['la']).is_number else float(Fr(spec['la'])), parameters={}, schemes=[])
    for n, v in spec.get('params', {}).items():
        if n in spec.get('free', ()):
            continue
        d['parameters'][E.get(n, sp.Symbol(n))] = float(Fr(v)) if not isinstance(v, str) or v.replace('/', '').replace('-', '').replace('.', '').isdigit() else ex(v)
    for s in spec['schemes']:
        q = dict(velocities=list(s['vel']), polynomials=[ex(p) for p in s['poly']],
                 relaxation_parameters=[ex(x) for x in s['s']], equilibrium=[ex(x) for x in s['eq']],
                 conserved_moments=[E[n] for n in s['consm']])
        if len(s['consm']) == 1 and s.get('scalar_consm', True):
            q['conserved_moments'] = q['conserved_moments'][0]
        if s.get('source'):
            q['source_terms'] = {E[n]: ex(x) for n, x in s['source'].items()}
        d['schemes'].append(q)
    if spec.get('rel_vel'):
        d['relative_velocity'] = [ex(x) for x in spec['rel_vel']]
    d.update(extra)
    return d


def vectors(dim, nums):
    from vc.props.c03 import vec
    return [vec(dim, n) for n in nums]


def det(M):
    """exact determinant"""
    M = [[Fr(x) for x in r] for r in M]
    n, d = len(M), Fr(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return Fr(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            if f:
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return d


def monomials(dim, deg):
    out = [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= 2 * deg]
    return sorted(out, key=lambda e: (sum(e), [-x for x in e]))


def mono_str(e):
    t = [n if k == 1 else '%s**%d' % (n, k) for n, k in zip('XYZ', e) if k]
    return '*'.join(t) if t else '1'


def mono_val(e, v):
    r = Fr(1)
    for k, x in zip(e, v):
        r *= Fr(x) ** k
    return r


def basis(dim, vecs):
    """monomials of low degree making an invertible matrix on the velocities"""
    rows, out = [], []
    for e in monomials(dim, 4):
        r = [mono_val(e, v) for v in vecs]
        t = list(r)
        for piv, q in rows:
            if t[piv]:
                f = t[piv] / q[piv]
                t = [a - f * b for a, b in zip(t, q)]
        piv = next((i for i, x in enumerate(t) if x), None)
        if piv is not None:
            rows.append((piv, t))
            out.append(e)
            if len(out) == len(vecs):
                return out
    return None


def symmetric_set(dim, vs):
    return {tuple(s * x for x in v) for v in vs for s in (1, -1)}


_NUMS = {}


def number_of(dim):
    if dim not in _NUMS:
        from vc.props.c03 import vec
        _NUMS[dim] = {tuple(vec(dim, n)): n for n in range({1: 7, 2: 49, 3: 125}[dim])}
    return _NUMS[dim]


def random_spec(rng, dim=None, nsch=None, nvmax=None, symmetric=True, zero=True, nonlinear=True, sym_la=True, maxv=1,
                numeric_s=False, order='random', source=False, rel=False, mix=True, full=False, consmax=3):
    dim = dim or rng.choice([1, 1, 2, 2, 3])
    nsch = nsch or rng.choice([1, 1, 2])
    nvmax = nvmax or {1: 5, 2: 9, 3: 7}[dim]
    num = number_of(dim)
    R = {1: maxv, 2: maxv, 3: 1}[dim]
    allv = list(itertools.product(range(-R, R + 1), repeat=dim))
    schemes, nc = [], 0
    names = []
    for k in range(nsch):
        while True:
            n = rng.randint(1, nvmax // (2 if symmetric else 1) + 1)
            pick = rng.sample(allv, min(n, len(allv)))
            if full and k == 0:
                pick += [tuple(int(i == j) for i in range(dim)) for j in range(dim)]
            vs = symmetric_set(dim, pick) if symmetric else set(pick)
            if zero and rng.random() < .6:
                vs.add((0,) * dim)
            if not (2 <= len(vs) <= nvmax):
                continue
            if any(all(v[d] == 0 for v in vs) for d in range(dim)) and full and k == 0:
                continue
            b = basis(dim, list(vs))
            if b:
                break
        vel = [num[v] for v in sorted(vs)]
        rng.shuffle(vel)
        n = len(vel)
        polys = []
        for i, e in enumerate(b):
            p = mono_str(e)
            if mix and i and rng.random() < .3:
                p = '%s%s%s*%s' % (p, rng.choice('+-'), rng.choice(['1', '2', '1/2']), mono_str(b[rng.randint(0, i - 1)]))
            polys.append(p)
        nco = rng.randint(1, min(consmax, n - 1, dim + 1) if n > 1 else 1)
        cn = ['m%d' % (nc + i) for i in range(nco)]
        nc += nco
        names.append((cn, n))
        schemes.append(dict(vel=vel, poly=polys, consm=cn))
    allc = [c for cn, _ in names for c in cn]
    params = {}
    for k, (cn, n) in enumerate(names):
        sch = schemes[k]
        eq, s = [], []
        for i in range(n):
            if i < len(cn):
                eq.append(cn[i])
                s.append('0')
            else:
                t = []
                for c in allc:
                    if rng.random() < .6:
                        t.append('%s*%s' % (rng.choice(['1/2', '1/3', '-1/4', '2/3', 'p0']), c))
                if nonlinear and rng.random() < .4:
                    a, b_ = rng.choice(allc), rng.choice(allc)
                    t.append('%s*%s*%s' % (rng.choice(['1/8', '-1/5']), a, b_))
                eq.append('+'.join(t) if t else '0')
                s.append(rng.choice(['p1', '3/2', '1', '6/5', '4/5', 'p2'] if not numeric_s else ['3/2', '1', '6/5', '4/5']))
        idx = list(range(n))
        if order == 'random' and rng.random() < .7:
            rng.shuffle(idx)
        sch['poly'] = [sch['poly'][i] for i in idx]
        sch['eq'] = [eq[i] for i in idx]
        sch['s'] = [s[i] for i in idx]
        if rng.random() < .5:
            sch['consm'] = rng.sample(cn, len(cn))
        if source and rng.random() < .8:
            sch['source'] = {c: rng.choice(['1/2*%s', '-%s*1/4+1/8', 'p0*%s', '1/3-%s*%s/4'.replace('%s*%s', '%s*' + c)]) % c for c in rng.sample(cn, rng.randint(1, len(cn)))}
    la = 'LA' if sym_la and rng.random() < .7 else rng.choice(['1', '2'])
    params = {'p0': '1/4', 'p1': '7/5', 'p2': '9/10'}
    if la == 'LA':
        params['LA'] = rng.choice(['1', '2', '1/2'])
    spec = dict(dim=dim, la=la, schemes=schemes, params=params)
    if rel:
        spec['rel_vel'] = [rng.choice(['1/10', '1/5', 'm0/8', '-1/4']) for _ in range(dim)]
    return spec


def std(name):
    """classical schemes"""
    S = {}
    S['D1Q2'] = dict(dim=1, la='LA', schemes=[dict(vel=[1, 2], poly=['1', 'X'], consm=['m0'], eq=['m0', 'p0*m0'], s=['0', 'p1'])])
    S['D1Q3'] = dict(dim=1, la='LA', schemes=[dict(vel=[0, 1, 2], poly=['1', 'X', 'X**2/2'], consm=['m0', 'm1'], eq=['m0', 'm1', 'm0/3+m1**2/2'], s=['0', '0', 'p1'])])
    S['D1Q5'] = dict(dim=1, la='LA', schemes=[dict(vel=[0, 1, 2, 3, 4], poly=['1', 'X', 'X**2', 'X**3', 'X**4'], consm=['m0'], eq=['m0', 'p0*m0', 'm0/2', 'm0**2/8', 'm0/4'], s=['0', 'p1', 'p2', '1', '3/2'])])
    S['D1Q22'] = dict(dim=1, la='LA', schemes=[dict(vel=[1, 2], poly=['1', 'X'], consm=['m0'], eq=['m0', 'm1'], s=['0', 'p1']),
                                               dict(vel=[2, 1], poly=['1', 'X'], consm=['m1'], eq=['m1', 'p0*m0+m1**2/4'], s=['0', 'p2'])])
    S['D2Q4'] = dict(dim=2, la='LA', schemes=[dict(vel=[1, 2, 3, 4], poly=['1', 'X', 'Y', 'X**2-Y**2'], consm=['m0'], eq=['m0', 'p0*m0', 'm0/5', '0'], s=['0', 'p1', 'p1', 'p2'])])
    S['D2Q5'] = dict(dim=2, la='LA', schemes=[dict(vel=[0, 1, 2, 3, 4], poly=['1', 'X', 'Y', 'X**2+Y**2', 'X**2-Y**2'], consm=['m0'], eq=['m0', 'p0*m0', '-m0/5', 'm0/3', '0'], s=['0', 'p1', 'p1', 'p2', '1'])])
    S['D2Q9'] = dict(dim=2, la='LA', schemes=[dict(vel=list(range(9)),
        poly=['1', 'X', 'Y', '3*(X**2+Y**2)-4', '(9*(X**2+Y**2)**2-21*(X**2+Y**2)+8)/2', '3*X*(X**2+Y**2)-5*X', '3*Y*(X**2+Y**2)-5*Y', 'X**2-Y**2', 'X*Y'],
        consm=['m0', 'm1', 'm2'], eq=['m0', 'm1', 'm2', '-2*m0+3*m1**2+3*m2**2', 'm0-3*m1**2-3*m2**2', '-m1', '-m2', 'm1**2-m2**2', 'm1*m2'],
        s=['0', '0', '0', 'p1', 'p1', 'p2', 'p2', '3/2', '3/2'])])
    S['D2Q44'] = dict(dim=2, la='LA', schemes=[dict(vel=[1, 2, 3, 4], poly=['1', 'X', 'Y', 'X**2-Y**2'], consm=['m0'], eq=['m0', 'm1', 'p0*m0', '0'], s=['0', 'p1', 'p1', 'p2']),
                                               dict(vel=[4, 3, 2, 1], poly=['1', 'X', 'Y', 'X**2-Y**2'], consm=['m1'], eq=['m1', 'm0*m1/4', 'm0/3', 'm1/8'], s=['0', 'p2', '1', 'p1'])])
    S['D3Q6'] = dict(dim=3, la='LA', schemes=[dict(vel=list(range(1, 7)), poly=['1', 'X', 'Y', 'Z', 'X**2-Y**2', 'X**2-Z**2'], consm=['m0'], eq=['m0', 'p0*m0', '-m0/5', 'm0/7', '0', '0'], s=['0', 'p1', 'p1', 'p1', 'p2', 'p2'])])
    d = S[name]
    d['params'] = dict(p0='1/4', p1='7/5', p2='9/10', LA='1')
    return d


STD = ['D1Q2', 'D1Q3', 'D1Q5', 'D1Q22', 'D2Q4', 'D2Q5', 'D2Q9', 'D2Q44', 'D3Q6']


def concretise(spec):
    """the scheme with the arbitrary functions replaced by particular ones, and the free parameters by their values"""
    import json
    import re
    s = json.loads(json.dumps(spec))

    def one(m):
        k, args = int(m.group(1)), [a.strip() for a in m.group(2).split(',')]
        return '(' + ' + '.join('%s*%d/%d + %s**2/%d' % (a, 2 + (3 * i + k) % 4, 7 + i, a, 5 + (k + i) % 6) for i, a in enumerate(args)) + ')'
    sub = lambda e: re.sub(r'\bE(\d+)\(([^()]*)\)', one, e)
    for q in s['schemes']:
        q['eq'] = [sub(e) for e in q['eq']]
        if 'source' in q:
            q['source'] = {k: sub(e) for k, e in q['source'].items()}
    if s.get('rel_vel'):
        s['rel_vel'] = [sub(e) for e in s['rel_vel']]
    s.pop('free', None)
    return s
