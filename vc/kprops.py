"""checks C06 (NumPy kernels) and C07 (Cython kernels)"""


import json


def variants(tier):
    """named specs: classical schemes, with source terms, with relative velocity"""
    from .schemes import std, STD
    out = [(n, std(n)) for n in STD]

    def mod(name, base, **k):
        s = std(base)
        for a, b in k.items():
            if a == 'rel':
                s['rel_vel'] = b
            elif a == 'src':
                for i, x in enumerate(b):
                    if x:
                        s['schemes'][i]['source'] = x
            elif a == 'time':
                s['time'] = b
            elif a == 'rates':
                for i, x in b.items():
                    s['schemes'][i]['s'] = x
            elif a == 'free':
                s['free'] = list(b)
                s['params'].update(b)
            elif a == 'la':
                s['params']['LA'] = b
            elif a == 'perm':
                for q in s['schemes']:
                    n = len(q['vel'])
                    p = [(i * b + 1) % n for i in range(n)] if n % b or b == 1 else list(range(n))[::-1]
                    for key in ('poly', 'eq', 's'):
                        q[key] = [q[key][i] for i in p]
        out.append((name, s))
    mod('D1Q2 source', 'D1Q2', src=[{'m0': '-m0/3+1/8'}])
    mod('D1Q3 sources', 'D1Q3', src=[{'m0': 'm1/2', 'm1': '-m0*m1/4'}])
    mod('D1Q3 sources swapped', 'D1Q3', src=[{'m1': '-m0*m1/4', 'm0': 'm1/2'}], perm=2, la='2')
    mod('D1Q22 sources', 'D1Q22', src=[{'m0': 'm1/2'}, {'m1': 'm0**2/4'}])
    mod('D2Q5 permuted', 'D2Q5', perm=2, la='2')
    mod('D2Q9 permuted', 'D2Q9', perm=2, la='1/2')
    mod('D1Q3 relative velocity', 'D1Q3', rel=['m1/8'])
    mod('D1Q3 constant relative velocity', 'D1Q3', rel=['1/10'])
    mod('D2Q4 relative velocity', 'D2Q4', rel=['1/10', 'm0/4'])
    mod('D2Q5 relative velocity', 'D2Q5', rel=['1/10', '-1/5'])
    mod('D2Q9 relative velocity', 'D2Q9', rel=['1/10', '-1/5'])
    mod('D1Q3 relative velocity and sources', 'D1Q3', rel=['m1/8'], src=[{'m0': 'm1/2+1/8', 'm1': '-m0*m1/4'}])
    mod('D1Q2 arbitrary relative velocity and source', 'D1Q2', rel=['E20(m0)'], src=[{'m0': 'p10+p11*m0'}], free=dict(p10='1/8', p11='1/3'))
    mod('D2Q4 arbitrary relative velocity', 'D2Q4', rel=['E20(m0)', 'E21(m0)'])
    mod('D2Q4 relative velocity and source', 'D2Q4', rel=['1/10', 'm0/4'], src=[{'m0': '-m0/3+1/8'}])
    mod('D1Q3 time dependent source', 'D1Q3', src=[{'m0': 't*m1/2', 'm1': 't**2/4-m0'}], time='3/7')
    mod('D1Q3 conserved moments with rates', 'D1Q3', rates={0: ['3/5', '9/7', 'p1']})
    mod('D1Q3 relative velocity, conserved moments with rates', 'D1Q3', rel=['m1/8'], rates={0: ['3/5', '9/7', 'p1']})
    mod('D2Q44 source', 'D2Q44', src=[{'m0': 'm1/2+1/8'}, {'m1': '-m1/3'}])
    mod('D3Q6 source', 'D3Q6', src=[{'m0': '-m0/2'}])
    wide = dict(dim=1, la='LA', params=dict(p0='1/4', p1='7/5', p2='9/10', LA='1'), schemes=[dict(vel=[1, 2, 3, 6], poly=['1', 'X', 'X**2', 'X**3'], consm=['m0'],
                eq=['m0', 'p0*m0', 'm0/2', '-m0/5'], s=['0', 'p1', 'p2', '1'])])
    out.append(('velocities 1 -1 2 -3', wide))
    asym = dict(dim=2, la='LA', params=dict(p0='1/4', p1='7/5', p2='9/10', LA='1'), schemes=[dict(vel=[0, 1, 2, 13], poly=['1', 'X', 'Y', 'X**2'], consm=['m0'],
                eq=['m0', 'p0*m0', 'm0/2', '-m0/5'], s=['0', 'p1', 'p2', '1'])])
    out.append(('non symmetric 2d stencil', asym))
    d3 = dict(dim=3, la='LA', params=dict(p0='1/4', p1='7/5', p2='9/10', LA='1'), schemes=[
        dict(vel=[0, 1, 2, 3, 4, 5, 6], poly=['1', 'X', 'Y', 'Z', 'X**2', 'Y**2', 'Z**2'], consm=['m0', 'm1'],
             eq=['m0', 'm1', 'p0*m0*m1', 'm1/5', 'm0/2', 'm1**2/3', 'm0/4'], s=['0', '0', 'p1', 'p2', 'p1', '1', '6/5'])])
    out.append(('D3Q7', d3))
    for n in ('D1Q3 sources', 'D2Q5', 'D2Q4 relative velocity', 'D1Q3 relative velocity and sources', 'velocities 1 -1 2 -3', 'D1Q22 sources', 'D3Q6 source'):
        s = json.loads(json.dumps(dict(out)[n]))
        s['algorithm'] = 'BaseAlgorithm'
        out.append((n + ' with BaseAlgorithm', s))
    # every equilibrium and every relaxation rate at once: arbitrary functions of the conserved moments, free parameters
    gen = []
    for n in STD:
        gen.append((n, std(n)))
    for n, s in out:
        if n in ('D2Q9 permuted', 'D1Q3 relative velocity', 'D2Q5 relative velocity', 'velocities 1 -1 2 -3', 'D1Q22 sources', 'D3Q7'):
            gen.append((n, s))
    for n, s in gen:
        s = json.loads(json.dumps(s))
        k = 0
        free, cons = [], [c for q in s['schemes'] for c in q['consm']]
        for q in s['schemes']:
            for i, e in enumerate(q['eq']):
                if e in cons:
                    continue
                q['eq'][i] = 'E%d(%s)' % (k, ', '.join(cons))
                if k < 7:
                    q['s'][i] = 'p%d' % (k + 3)
                    free.append('p%d' % (k + 3))
                k += 1
        for p in free:
            s['params'].setdefault(p, '7/5')
        s['free'] = free
        if n == 'D1Q22 sources':
            s['schemes'][0]['source'] = {'m0': 'p10 + p11*m1'}
            s['free'] += ['p10', 'p11']
            s['params'].update(p10='1/8', p11='1/3')
        if n in ('D1Q2', 'D1Q3', 'D1Q5', 'D2Q4', 'D2Q5', 'D2Q9', 'D3Q6'):
            t = json.loads(json.dumps(s))
            t['free'] = t['free'] + ['LA']
            out.append((n + ' with arbitrary equilibria, rates and scheme velocity', t))
        out.append((n + ' with arbitrary equilibria and rates', s))
    return out


def make(pid, backend):
    from . import kharness

    def check_case(case):
        return kharness.check(case)

    def cases(tier, rng):
        return kharness.cases(tier, rng, backend)

    def proofs(tier):
        from .kcheck import verify, ROUTINES
        out = []
        fn = ['pylbm.algorithm.base.BaseAlgorithm.*', 'pylbm.algorithm.pull.PullAlgorithm.one_time_step_local', 'pylbm.generator.codegen.make_routine',
              'pylbm.generator.codegen.%s' % ('NumPyCodeGen' if backend == 'numpy' else 'CythonCodeGen'), 'pylbm.generator.printing.%s' % ('pycode' if backend == 'numpy' else 'cython'),
              'pylbm.container.*', 'pylbm.storage.Array.__init__', 'pylbm.symbolic.indexed', 'pylbm.symbolic.space_idx', 'pylbm.symbolic.call_genfunction']
        more = [(n + ' with m in memory', dict(dict(variants(tier))[n], settings=dict(m_local=False, split=False, check_isfluid=False))) for n in ('D1Q3 sources', 'D2Q9', 'D2Q4 relative velocity')] if backend == 'cython' else []
        for name, spec in variants(tier) + more:
            def f(c, spec=spec):
                verify(c, spec, None, backend, case=None if 'E' in json.dumps([q['eq'] for q in spec['schemes']] + [spec.get('rel_vel')]) or spec.get('free') else lambda v: dict(spec=spec, n=[min(max(v.get('n%d' % d, 1), 3), 9) for d in range(spec['dim'])], sorder=None, backend=backend, seed=1))
            out.append(('%s kernels of %s' % (backend, name), f, dict(functions=fn, budget=400, timeout=30)))
        return out
    return check_case, cases, proofs


def is_generic(spec):
    return 'E' in json.dumps([q['eq'] for q in spec['schemes']] + [spec.get('rel_vel')]) or bool(spec.get('free'))


def kernel_proofs(tier, select, routines, backends=('numpy', 'cython')):
    """proof procedures on the routines of the selected schemes"""
    from .kcheck import verify
    out = []
    fn = ['pylbm.algorithm.base.BaseAlgorithm.*', 'pylbm.algorithm.pull.PullAlgorithm.one_time_step_local', 'pylbm.algorithm.ode.euler', 'pylbm.algorithm.transform.*', 'pylbm.symbolic.*', 'pylbm.generator.*', 'pylbm.container.*']
    for backend in backends:
        for name, spec in variants(tier):
            if not select(name, spec):
                continue

            def f(c, spec=spec, backend=backend):
                verify(c, spec, None, backend, routines, case=None if is_generic(spec) else lambda v: dict(spec=spec, n=[min(max(v.get('n%d' % d, 1), 3), 9) for d in range(spec['dim'])], sorder=None, backend=backend, seed=1, routines=routines))
            out.append(('%s %s' % (backend, name), f, dict(functions=fn, budget=200, timeout=30)))
    return out


def kernel_cases(tier, rng, select, routines, source=lambda r: False, rel=lambda r: False):
    from .schemes import random_spec
    for name, s in variants(tier):
        if select(name, s) and not is_generic(s):
            yield dict(spec=s, n=[5, 4, 3][:s['dim']], sorder=None, backend='numpy', seed=3, routines=routines)
    while True:
        r = rng.random()
        s = random_spec(rng, nvmax=None, symmetric=rng.random() < .5, full=True, source=source(r), rel=rel(r), maxv=rng.choice([1, 1, 2]))
        if s.get('rel_vel') and not closed(s, ['1/3', '-2/5', '3/7']):
            continue
        if rng.random() < .3:
            s['algorithm'] = 'BaseAlgorithm'
        yield dict(spec=s, n=[rng.randint(2, 6) for _ in range(s['dim'])], sorder=None, backend='cython' if rng.random() < .05 else 'numpy', seed=rng.randint(1, 10**6), routines=routines)


def closed(spec, u):
    """the polynomials span a space stable by translation on the velocities (otherwise no translation group exists),
    and the conserved ones span a stable subspace"""
    from fractions import Fraction as Fr
    from .kcheck import Ref, inverse
    r = Ref(spec)
    n = r.n
    mat = lambda w: [[r.entry(r.polys[i], r.vel[j], w) if r.pblock[i] == r.block[j] else Fr(0) for j in range(n)] for i in range(n)]
    mul = lambda A, B: [[sum(a * b for a, b in zip(row, col)) for col in zip(*B)] for row in A]
    w = [Fr(x) for x in u[:r.dim]]
    T, Tm = mul(mat(w), r.iM), mul(mat([-x for x in w]), r.iM)
    P = mul(T, Tm)
    return all(P[i][j] == (i == j) for i in range(n) for j in range(n)) and all(T[i][j] == 0 for i in range(r.nc) for j in range(r.nc, n))


