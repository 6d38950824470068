"""C08 storage order: the logical content of the arrays and the simulations do not depend on it"""
import itertools
from fractions import Fraction as Fr


def check_case(case):
    if case['kind'] == 'array':
        return check_array(case)
    if case['kind'] == 'kernel':
        from .. import kharness
        return kharness.check(case)
    return check_sim(case)


def check_array(case):
    import numpy as np
    import sympy as sp
    from pylbm.storage import Array
    n, h, nv, so = case['n'], case['h'], case['nv'], case['sorder']
    from pylbm.mpi_topology import MpiTopology
    dim = len(n)
    a = Array(nv, list(n), list(h), list(so), MpiTopology(dim, [True] * dim))
    shape = tuple([nv] + [x + 2 * y for x, y in zip(n, h)])
    if a[:].shape != shape:
        return ('shape', 'logical shape %s instead of %s' % (a[:].shape, shape))
    if tuple(a.array.shape) != tuple(shape[list(so).index(k)] for k in range(dim + 1)):
        return ('memory shape', 'axis %s of the memory have sizes %s' % (so, a.array.shape))
    v = np.random.default_rng(case['seed']).uniform(size=shape)
    a[:] = v
    s = sp.Symbol('rho')
    a.set_conserved_moments({s: nv - 1})
    if not np.array_equal(a[:], v):
        return ('view', 'written values are not read back')
    for idx in itertools.product(*[range(x) for x in shape]):
        mem = [0] * (dim + 1)
        for k, i in enumerate(idx):
            mem[so[k]] = i
        if a.array[tuple(mem)] != v[idx]:
            return ('layout', 'value of %s is not at %s in memory' % (idx, mem))
    w = np.random.default_rng(case['seed'] + 1).uniform(size=shape[1:])
    a[s] = w
    v[nv - 1] = w
    a[0] = 2 * w
    v[0] = 2 * w
    if not np.array_equal(a[:], v) or not np.array_equal(a[s], v[nv - 1]):
        return ('view', 'component written through the logical view is not read back')
    if not np.array_equal(a._in(s), v[nv - 1][tuple(slice(y, -y) for y in h)]):
        return ('interior view', 'interior of a component')
    return None


def check_sim(case):
    import numpy as np
    import pylbm
    from ..schemes import dico
    spec, n, be, so = case['spec'], case['n'], case['backend'], case['sorder']
    dim = spec['dim']
    dx = .25

    def run(order):
        d = dico(spec)
        d.pop('dim')
        d.pop('name', None)
        lab = case['labels']
        box = {k: [0., n[i] * dx] for i, k in enumerate('xyz'[:dim])}
        box['label'] = list(lab)
        cons = [c for q in d['schemes'] for c in (q['conserved_moments'] if isinstance(q['conserved_moments'], list) else [q['conserved_moments']])]

        def init(k):
            def f(*x):
                r = 1.
                for i, y in enumerate(x):
                    r = r + .1 * (i + 1) * np.sin((k + 1) * y + i)
                return r
            return f
        d.update(box=box, space_step=dx, generator=be, init={c: init(k) for k, c in enumerate(cons)})
        if case.get('elem'):
            cx, r = case['elem']
            cx = [x * dx for x in cx]
            d['elements'] = [{1: None, 2: pylbm.Circle, 3: pylbm.Sphere}[dim](cx, r * dx, label=7)]
        bc = {}
        for l in sorted(set(lab) | ({7} if case.get('elem') else set())):
            if l >= 0:
                m = getattr(pylbm.bc, case['bc'][str(l)])
                bc[l] = {'method': {i: m for i in range(len(d['schemes']))}}
                if case.get('value'):
                    def value(f, m, *x):
                        for k, c in enumerate(cons):
                            m[c] = 1. + .01 * k + sum(.1 * y for y in x)
                    bc[l]['value'] = value
        if bc:
            d['boundary_conditions'] = bc
        sim = pylbm.Simulation(d, **({} if order is None else dict(sorder=list(order))))
        for _ in range(case['nt']):
            sim.one_time_step()
        return np.array(sim.container.F[:]), [np.array(sim.m[c]) for c in sim.scheme.consm], np.array(sim.domain.in_or_out), sim
    f0, m0, io, sim = run(None)
    f1, m1, _, _ = run(so)
    h = sim.domain.stencil.vmax
    inner = tuple(slice(int(x), -int(x)) if x else slice(None) for x in h)
    fl = io[inner] == sim.domain.valin
    for k in range(len(f0)):
        a, b = f0[k][inner][fl], f1[k][inner][fl]
        if not np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True):
            return ('simulation', 'distribution %d after %d steps differs by %g between the order %s and the default one (%s)' % (k, case['nt'], float(np.max(abs(a - b))), so, be))
    for k in range(len(m0)):
        a, b = m0[k][fl], m1[k][fl]
        if not np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True):
            return ('simulation', 'conserved moment %d after %d steps differs between the order %s and the default one (%s)' % (k, case['nt'], so, be))
    return None


SMALL = ['D1Q3', 'D2Q4', 'D3Q6']


def cases(tier, rng):
    from ..schemes import std, random_spec
    for dim in (1, 2, 3):
        for so in itertools.permutations(range(dim + 1)):
            yield dict(kind='array', n=[3, 4, 2][:dim], h=[1, 2, 1][:dim], nv=3, sorder=list(so), seed=1)
            yield dict(kind='sim', spec=std(SMALL[dim - 1]), n=[5, 4, 3][:dim], sorder=list(so), backend='numpy', nt=3, labels=[-1] * (2 * dim), bc={})
    yield dict(kind='sim', spec=std('D2Q9'), n=[7, 6], sorder=[1, 2, 0], backend='cython', nt=4, labels=[0, 0, 1, 1], elem=[[3.2, 2.9], 1.6],
               bc={'0': 'BounceBack', '1': 'Neumann', '7': 'BouzidiBounceBack'}, value=1)
    yield dict(kind='sim', spec=std('D3Q6'), n=[4, 3, 5], sorder=[2, 0, 3, 1], backend='cython', nt=3, labels=[-1, -1, 0, 0, 0, 0], bc={'0': 'BounceBack'})
    B = ['BounceBack', 'AntiBounceBack', 'BouzidiBounceBack', 'BouzidiAntiBounceBack', 'Neumann', 'NeumannX', 'NeumannY', 'NeumannZ']
    while True:
        q = rng.random()
        if q < .2:
            dim = rng.choice([1, 2, 3])
            so = list(range(dim + 1))
            rng.shuffle(so)
            yield dict(kind='array', n=[rng.randint(2, 5) for _ in range(dim)], h=[rng.randint(1, 2) for _ in range(dim)], nv=rng.randint(1, 4), sorder=so, seed=rng.randint(1, 10**6))
            continue
        be = 'cython' if rng.random() < .06 else 'numpy'
        if q < .6:
            s = random_spec(rng, symmetric=True, full=True, source=rng.random() < .3, maxv=rng.choice([1, 1, 2]))
        else:
            s = std(rng.choice(['D1Q2', 'D1Q3', 'D1Q22', 'D2Q4', 'D2Q5', 'D2Q9', 'D2Q44', 'D3Q6']))
        dim = s['dim']
        so = list(range(dim + 1))
        rng.shuffle(so)
        if q < .4:
            yield dict(kind='kernel', spec=s, n=[rng.randint(2, 6) for _ in range(dim)], sorder=so, backend=be, seed=rng.randint(1, 10**6))
            continue
        labels = []
        for d in range(dim):
            labels += [-1, -1] if rng.random() < .4 else [rng.randint(0, 1), rng.randint(0, 1)]
        n = [rng.randint(4, 7) for _ in range(dim)]
        nb = [b for b in B if b[-1] not in 'XYZ' or 'XYZ'.index(b[-1]) < dim]
        yield dict(kind='sim', spec=s, n=n, sorder=so, backend=be, nt=rng.randint(1, 4), labels=labels, bc={l: rng.choice(nb) for l in ('0', '1', '7')},
                   value=rng.choice([0, 1]), elem=([[x / 2. + rng.uniform(-.5, .5) for x in n], rng.uniform(.8, 1.4)] if dim > 1 and rng.random() < .5 else None))


def proofs(tier):
    from vc.core import raw, add, mul, and_, eq, lt, sub, wrap, Unsupported
    from vc.farr import FArr
    from types import SimpleNamespace as NS
    out = []

    def view(dim, so):
        def f(c):
            import pylbm.storage as st
            import sympy as sp
            nv = c.int('nv', lo=1)
            n = [c.int('n%d' % d, lo=1) for d in range(dim)]
            h = [c.int('h%d' % d, lo=1) for d in range(dim)]
            c.case(lambda v: dict(kind='array', n=[min(v['n%d' % d], 6) for d in range(dim)], h=[min(v['h%d' % d], 3) for d in range(dim)], nv=min(v['nv'], 3), sorder=list(so), seed=1))

            class Topo:
                def get_region(self, *m):
                    return [[0, x] for x in m]
                cartcomm = NS(Get_rank=lambda: 0, Get_coords=lambda r: [0] * dim, Get_cart_rank=lambda x: 0)
            old = st.mpi
            st.mpi = NS(COMM_WORLD=NS(), DOUBLE=NS(Create_subarray=lambda *a, **k: NS(Commit=lambda: None)))
            try:
                a = st.Array(nv, list(n), list(h), list(so), Topo())
            finally:
                st.mpi = old
            shape = [raw(nv)] + [add(raw(x), mul(2, raw(y))) for x, y in zip(n, h)]
            for s, t in zip(a[:].shape, shape):
                c.prove('logical shape', eq(raw(s), t))
            for k, s in enumerate(a.array.shape):
                c.prove('memory shape', eq(raw(s), shape[list(so).index(k)]))
            data = FArr.symbolic('data', tuple(shape), 'R')
            one = FArr.symbolic('one', tuple(shape[1:]), 'R')
            two = FArr.symbolic('two', tuple(shape[1:]), 'R')
            a[:] = data
            idx = [c.int('x%d' % i, lo=0) for i in range(dim + 1)]
            for x, s in zip(idx, shape):
                c.assume(lt(raw(x), s))
            idx = [raw(x) for x in idx]
            mem = [0] * (dim + 1)
            for k, i in enumerate(idx):
                mem[so[k]] = i
            c.prove('written values are read back', eq(a[:].at(tuple(idx)), data.at(tuple(idx))))
            c.prove('place in memory', eq(a.array.at(tuple(mem)), data.at(tuple(idx))))
            s = sp.Symbol('rho')
            kc = c.int('kc', lo=0)
            c.assume(kc < nv)
            a.set_conserved_moments({s: kc})
            a[s] = one
            from vc.core import ite
            c.prove('component written by name', eq(a[:].at(tuple(idx)), ite(eq(idx[0], raw(kc)), one.at(tuple(idx[1:])), data.at(tuple(idx)))))
            c.prove('component read by name', eq(a[s].at(tuple(idx[1:])), one.at(tuple(idx[1:]))))
            a[0] = two
            c.prove('component written by number', eq(a[0].at(tuple(idx[1:])), two.at(tuple(idx[1:]))))
            inn = a._in(s)
            y = [c.int('y%d' % d, lo=0) for d in range(dim)]
            for x, m in zip(y, n):
                c.assume(x < m)
            for q, m in zip(inn.shape, n):
                c.prove('shape of the interior view', eq(raw(q), raw(m)))
            c.prove('interior view', eq(inn.at(tuple(raw(x) for x in y)), a[s].at(tuple(add(raw(x), raw(p)) for x, p in zip(y, h)))))
        return f
    F = 'pylbm.storage.'
    for dim in (1, 2, 3):
        for so in itertools.permutations(range(dim + 1)):
            out.append(('view %dd order %s' % (dim, so), view(dim, so), dict(functions=[F + 'Array.__init__', F + 'Array.__getitem__', F + 'Array.__setitem__', F + 'Array._in', F + 'Array.set_conserved_moments'], budget=200, timeout=20)))
    from vc.kcheck import verify
    from vc.schemes import std
    fn = ['pylbm.algorithm.base.BaseAlgorithm.*', 'pylbm.algorithm.pull.PullAlgorithm.one_time_step_local', 'pylbm.symbolic.set_order', 'pylbm.symbolic.space_idx', 'pylbm.symbolic.indexed', 'pylbm.symbolic.call_genfunction', 'pylbm.container.*', 'pylbm.generator.*']
    for backend in ('numpy', 'cython'):
        for dim in (1, 2, 3):
            spec = std(SMALL[dim - 1])
            for so in itertools.permutations(range(dim + 1)):
                def f(c, spec=spec, so=so, backend=backend):
                    verify(c, spec, list(so), backend, case=lambda v: dict(kind='kernel', spec=spec, n=[min(max(v.get('n%d' % d, 1), 2 + d), 9) for d in range(spec['dim'])], sorder=list(so), backend=backend, seed=1))
                out.append(('%s kernels of %s order %s' % (backend, SMALL[dim - 1], so), f, dict(functions=fn, budget=300, timeout=20)))
    return out
