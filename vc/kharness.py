"""concrete runs of the generated kernels against the mathematical scheme (numpy arrays, independent oracle)"""
from fractions import Fraction as Fr


def check(case):
    import numpy as np
    import pylbm
    from types import SimpleNamespace as NS
    from .schemes import dico, sym_env
    from .kcheck import Ref
    spec, n, be = case['spec'], case['n'], case['backend']
    dim = spec['dim']
    rng = np.random.default_rng(case['seed'])
    E = sym_env()
    d = dico(spec)
    d.pop('dim')
    d.pop('name', None)
    dx = float(Fr(case.get('dx', '1/4')))
    box = {k: [0., n[i] * dx] for i, k in enumerate('xyz'[:dim])}
    box['label'] = -1
    d.update(box=box, space_step=dx, generator=be, init={c: 1. for q in d['schemes'] for c in (q['conserved_moments'] if isinstance(q['conserved_moments'], list) else [q['conserved_moments']])})
    if spec.get('algorithm'):
        import pylbm.algorithm
        d['lbm_algorithm'] = {'name': getattr(pylbm.algorithm, spec['algorithm'])}
    kw = {} if case.get('sorder') is None else dict(sorder=list(case['sorder']))
    sim = pylbm.Simulation(d, initialize=False, **kw) if case.get('noinit') else pylbm.Simulation(d, **kw)
    ref = Ref(spec, sim.scheme, exact=False)
    C = sim.container
    shape = tuple([ref.n] + [a + 2 * h for a, h in zip(n, ref.h)])
    if tuple(C.m[:].shape) != shape or tuple(C.F[:].shape) != shape:
        return ('shape', 'shape of the arrays %s instead of %s' % (C.m[:].shape, shape))
    inner = tuple(slice(h, -h) if h else slice(None) for h in ref.h)

    def put():
        C.m[:] = rng.uniform(.5, 1.5, shape)
        C.F[:] = rng.uniform(.5, 1.5, shape)
        if C.Fnew is not C.F:
            C.Fnew[:] = rng.uniform(.5, 1.5, shape)
        return [np.array(a[:]) for a in (C.m, C.F, C.Fnew)]

    def close(a, b):
        return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-9, atol=1e-9)

    def full(x):
        return np.array([y + np.zeros(shape[1:]) for y in x])
    two = C.Fnew is not C.F
    if spec.get('time'):
        sim.t = float(Fr(spec['time']))
        ref.free[E['t']] = sim.t
    dt = sim.dt
    for r in case.get('routines') or ('transport', 'f2m', 'm2f', 'equilibrium', 'relaxation', 'source_term', 'one_time_step', 'conserved'):
        if r == 'source_term' and not ref.src:
            continue
        m, f, g = put()
        sim.algo.call_function('one_time_step' if r == 'conserved' else r, sim)
        mn, fn, gn = [np.array(a[:]) for a in (C.m, C.F, C.Fnew)]
        em, ef, eg = m, f, g
        if not two:
            eg = None
        # f_k(x - v_k) on the interior
        sh = [np.roll(f[k], ref.vel[k], axis=tuple(range(dim))) for k in range(ref.n)]
        if r == 'transport':
            e = g.copy()
            for k in range(ref.n):
                e[k][inner] = sh[k][inner]
            if two:
                eg = e
            else:
                ef = e
        elif r == 'f2m':
            em = full(ref.f2m(f))
        elif r == 'm2f':
            ef = full(ref.m2f(m))
        elif r == 'equilibrium':
            em = full(ref.eq(m))
        elif r == 'relaxation':
            em = full(ref.relax(m))
        elif r == 'conserved':
            if not ref.src:
                mm, m0 = ref.f2m([x[inner] for x in gn]), ref.f2m([x[inner] for x in sh])
                for k in range(ref.nc):
                    if not close(mm[k], m0[k]):
                        return ('conserved', 'conserved moment %d is modified by the collision by %g' % (k, float(np.max(abs(mm[k] - m0[k])))))
            continue
        elif r == 'source_term':
            em = m.copy()
            q = ref.source(list(m), dt)
            for k in range(ref.n):
                em[k][inner] = q[k][inner]
        else:
            e = g.copy()
            q = ref.step([x[inner] for x in sh], dt)
            for k in range(ref.n):
                e[k][inner] = q[k]
            if two:
                eg = e
            else:
                ef = e
            em = mn.copy()
            mask = np.ones(shape, dtype=bool)
            mask[(slice(None),) + inner] = False
            em[mask] = m[mask]
        for nm, a, b in (('m', em, mn), ('f', ef, fn), ('fnew', eg, gn)):
            if b is not None and a is not None and not close(a, b):
                w = np.argwhere(~np.isclose(a, b, rtol=1e-9, atol=1e-9))[0]
                return ('%s %s' % (r, nm), '%s (%s, order %s, sizes %s): %s%s = %r instead of %r' % (r, be, case.get('sorder'), n, nm, tuple(int(x) for x in w), float(b[tuple(w)]), float(a[tuple(w)])))
    return None


def cases(tier, rng, backend):
    from .schemes import random_spec
    from .kprops import variants, closed
    for name, s in variants(tier):
        if 'E' in __import__('json').dumps([q['eq'] for q in s['schemes']] + [s.get('rel_vel')]) or s.get('free'):
            continue
        if backend == 'cython' and tier == 'quick' and name not in ('D2Q4', 'D1Q3 sources', 'D2Q4 relative velocity', 'velocities 1 -1 2 -3', 'D3Q6 source'):
            continue
        yield dict(spec=s, n=[5, 4, 3][:s['dim']], sorder=None, backend=backend, seed=3)
    while True:
        r = rng.random()
        s = random_spec(rng, nvmax=None, symmetric=rng.random() < .5, full=True, source=r < .4, rel=r > .8 or r < .1, maxv=rng.choice([1, 1, 2]))
        if s.get('rel_vel') and not closed(s, ['1/3', '-2/5', '3/7']):
            continue
        so = None
        if rng.random() < .5:
            so = list(range(s['dim'] + 1))
            rng.shuffle(so)
        yield dict(spec=s, n=[rng.randint(2, 6) for _ in range(s['dim'])], sorder=so, backend=backend, seed=rng.randint(1, 10**6))
