"""concrete runs of the boundary conditions against an independent enumeration of the links (C16, C17, C18)"""
from fractions import Fraction as Fr
import itertools

METHODS = ['BounceBack', 'AntiBounceBack', 'BouzidiBounceBack', 'BouzidiAntiBounceBack', 'Neumann', 'NeumannX', 'NeumannY', 'NeumannZ']


def value_function(dim, cons, coef, time, log):
    """user function: sets the conserved moments to polynomials of the coordinates (and of the time)"""
    def terms(i, p, t, e):
        a = coef[i % len(coef)]
        return a[0] + e * sum(b * x for b, x in zip(a[1:], p)) + (a[-1] * t if time else 0) + .01 * p[0] * p[-1]

    if time:
        def func(f, m, t, *args):
            p, e = args[:dim], args[dim:]
            log.append((t, [x.ravel().copy() for x in p], e))
            for i, s in enumerate(cons):
                m[s] = terms(i, p, t, e[0] if e else 1.)
    else:
        def func(f, m, *args):
            p, e = args[:dim], args[dim:]
            log.append((None, [x.ravel().copy() for x in p], e))
            for i, s in enumerate(cons):
                m[s] = terms(i, p, 0., e[0] if e else 1.)
    return func, terms


def build(case):
    import numpy as np
    import pylbm
    from .schemes import dico, ex
    from .geo import make
    from .kcheck import Ref
    spec, n = case['spec'], case['n']
    dim = spec['dim']
    d = dico(spec)
    d.pop('dim')
    d.pop('name', None)
    dx = float(Fr(case.get('dx', '1/4')))
    lo = [float(Fr(a)) for a in case.get('lo', [0] * dim)]
    box = {k: [lo[i], lo[i] + n[i] * dx] for i, k in enumerate('xyz'[:dim])}
    box['label'] = list(case['label'])
    cons = [c for q in d['schemes'] for c in (q['conserved_moments'] if isinstance(q['conserved_moments'], list) else [q['conserved_moments']])]
    bc, values = {}, {}
    for l, b in case['bc'].items():
        l = int(l)
        bc[l] = dict(method={k: getattr(pylbm.bc, m) for k, m in enumerate(b['method'])})
        if b.get('value'):
            log = []
            time = bool(b.get('time'))
            func, terms = value_function(dim, cons, b['value'], time, log)
            e = b.get('extra')
            bc[l]['value'] = func if e is None else (func, (float(Fr(e)),))
            if time:
                bc[l]['time_bc'] = True
            values[l] = (terms, log, time, 1. if e is None else float(Fr(e)))
    d.update(box=box, space_step=dx, generator=case['backend'], boundary_conditions=bc, init={c: 1. for c in cons})
    if case.get('elems'):
        d['elements'] = [make(e) for e in case['elems']]
    kw = {} if case.get('sorder') is None else dict(sorder=list(case['sorder']))
    sim = pylbm.Simulation(d, **kw)
    ref = Ref(spec, sim.scheme, exact=False)
    return sim, ref, values, dx


def links(sim, ref):
    """all (label, K, outside point, inside point, distance, normal), from the flags of the domain"""
    import numpy as np
    dom, dim = sim.domain, sim.dim
    st = dom.stencil
    U = list(zip(*[np.asarray(getattr(st, 'uv' + a)).tolist() for a in 'xyz'[:dim]]))
    out = []
    for u, v in enumerate(U):
        idx = np.argwhere((dom.flag[u] != 999) & (dom.flag[u] >= 0))
        for x in idx:
            x = tuple(int(a) for a in x)
            for K, w in enumerate(ref.vel):
                if tuple(w) == tuple(-a for a in v):
                    out.append((int(dom.flag[u][x]), K, tuple(a + b for a, b in zip(x, v)), x, float(dom.distance[u][x]), tuple(float(a) for a in dom.normal[u][x])))
    return out


def check(case, part):
    import numpy as np
    sim, ref, values, dx = build(case)
    dom, dim = sim.domain, sim.dim
    L = links(sim, ref)
    meth = {int(l): b['method'] for l, b in case['bc'].items()}
    where = {(K, o): (l, x, d, nr) for l, K, o, x, d, nr in L}
    ioo = np.asarray(dom.in_or_out)
    # ---- C16: stored links
    got = {}
    for m in sim.bc.methods:
        nm = type(m).__name__
        I = np.asarray(m.istore)
        n = I.shape[0]
        if not (len(m.ilabel) == len(m.distance) == len(m.normal) == n == m.feq.shape[1] == m.rhs.shape[0]):
            return ('lengths', '%s: arrays of different lengths' % nm)
        for i in range(n):
            e = tuple(int(a) for a in I[i])
            k = (e[0], e[1:])
            if k not in where:
                return ('extra link', '%s: the entry %s is no boundary link' % (nm, e))
            if k in got:
                return ('link twice', '%s: the entry %s is stored twice' % (nm, e))
            l, x, d, nr = where[k]
            if meth[l][ref.block[e[0]]] != nm:
                return ('method', 'the link %s of label %d is given to %s' % (e, l, nm))
            if int(m.ilabel[i]) != l or float(m.distance[i]) != d or tuple(float(a) for a in m.normal[i]) != nr:
                return ('pairing', '%s: label, distance or normal of another link at %s' % (nm, e))
            got[k] = (m, i)
    for l, K, o, x, d, nr in L:
        if (K, o) not in got:
            return ('missing link', 'the link of velocity %s from %s (label %d) is not stored' % (ref.vel[K], x, l))
        if ioo[x] != 999 or ioo[o] != -1:
            return ('link', 'the link from %s to %s does not go from a fluid point to an outside point' % (x, o))
    cons = ref.cons
    sym = [next((j for j in range(ref.n) if ref.block[j] == ref.block[K] and tuple(ref.vel[j]) == tuple(-a for a in ref.vel[K])), None) for K in range(ref.n)]

    def point(x, d, v):
        return [float(dom.coords_halo[i][x[i]]) + d * -v[i] * dx for i in range(dim)]

    def expected_feq(t):
        out = {}
        for k, (l, x, d, nr) in where.items():
            if l not in values:
                out[k] = np.zeros(ref.n)
                continue
            terms, log, time, e = values[l]
            p = point(x, d, ref.vel[k[0]])
            m = np.zeros(ref.n)
            for i, s in enumerate(sim.scheme.consm):
                j = list(ref.cons).index(s)
                m[j] = terms([str(c) for c in CONS(case)].index(str(s)), p, t if time else 0., e)
            # the conserved moments are the first rows
            f = np.array([float(a) for a in ref.m2f([float(a) for a in ref.eq(list(m))])])
            out[k] = f
        return out
    late = None
    if part in ('C17', 'C18'):
        E = expected_feq(0.)
        for k, (m, i) in got.items():
            if not np.allclose(m.feq[:, i], E[k], rtol=1e-9, atol=1e-9):
                return ('feq', '%s: equilibrium at the link %s of label %d is %s instead of %s' % (type(m).__name__, k, where[k][0], m.feq[:, i], E[k]))
        if part == 'C18':
            r = check_points(sim, ref, values, where, got, point)
            if r:
                return r
    rng = np.random.default_rng(case['seed'])
    C = sim.container
    two = C.Fnew is not C.F
    for rep in range(2):
        sim.t = t = 0. if rep == 0 else .75
        C.F[:] = rng.uniform(.5, 1.5, C.F[:].shape)
        C.F.update()
        F = np.array(C.F[:])
        sim.boundary_condition()
        G = np.array(C.F[:])
        E = expected_feq(t)
        if part == 'C18':
            for k, (m, i) in got.items():
                if not np.allclose(m.feq[:, i], E[k], rtol=1e-9, atol=1e-9):
                    return ('feq at time t', '%s: equilibrium at the link %s of label %d at time %g is %s instead of %s' % (type(m).__name__, k, where[k][0], t, m.feq[:, i], E[k]))
        X, skip, known = F.copy(), set(), {}
        for m in sim.bc.methods:
            nm = type(m).__name__
            mine = [k for k, (mm, i) in got.items() if mm is m]
            own, old = set(mine), X.copy()
            for k in mine:
                K, o = k
                l, x, d, nr = where[k]
                v = ref.vel[K]
                s = sym[K]
                at = lambda j, p: old[(j,) + tuple(p)]
                inn = tuple(a + b for a, b in zip(x, v))
                e = E[k]
                reads = []
                if nm == 'BounceBack':
                    r = at(s, x) + (e[K] - e[s])
                elif nm == 'AntiBounceBack':
                    r = -at(s, x) + (e[K] + e[s])
                elif nm in ('BouzidiBounceBack', 'BouzidiAntiBounceBack'):
                    sg = 1 if nm == 'BouzidiBounceBack' else -1
                    b = e[K] - sg * e[s]
                    if d < .5:
                        r = sg * (2 * d * at(s, x) + (1 - 2 * d) * at(s, inn)) + b
                        reads = [(s, inn)]
                        if sg == -1:
                            # listed finding: the sign of the second term
                            known[(K,) + o] = -2 * d * at(s, x) + (1 - 2 * d) * at(s, inn) + b
                    else:
                        r = sg * at(s, x) / (2 * d) + (1 - 1 / (2 * d)) * at(K, x) + b / (2 * d)
                elif nm == 'Neumann':
                    r = at(K, x)
                else:
                    a = 'XYZ'.index(nm[-1])
                    p = tuple(c + (w if i == a else 0) for i, (c, w) in enumerate(zip(o, v)))
                    r = at(K, p)
                    if (K, p) in own:
                        skip.add(k)         # reads an entry of the same method: another wall, not of this direction
                    reads = [(K, p)]
                if any(q in skip for q in reads):
                    skip.add(k)
                X[(K,) + o] = r
                e = (K,) + o
                if e in known and not np.isclose(G[e], r, rtol=1e-9, atol=1e-9) and np.isclose(G[e], known[e], rtol=1e-9, atol=1e-9):
                    late = late or ('anti-bouzidi sign', 'BouzidiAntiBounceBack (%s): entry %s at distance %r: the distribution of the second point is added instead of subtracted: %r instead of %r' % (case['backend'], e, d, float(G[e]), r))
                    X[e] = known[e]
        bad = ~np.isclose(G, X, rtol=1e-9, atol=1e-9)
        for k in skip:
            bad[(k[0],) + k[1]] = False
        if bad.any() and part in ('C16', 'C17'):
            w = tuple(int(a) for a in np.argwhere(bad)[0])
            k = (w[0], w[1:])
            if k not in where:
                return ('frame', 'the entry %s is no boundary link and is modified: %r instead of %r' % (w, float(G[w]), float(X[w])))
            if part == 'C17':
                m, i = got[k]
                return ('formula %s' % type(m).__name__, '%s (%s): entry %s at distance %r, label %d: %r instead of %r' % (type(m).__name__, case['backend'], w, where[k][2], where[k][0], float(G[w]), float(X[w])))
    return late if part == 'C17' else None


def CONS(case):
    return [c for q in case['spec']['schemes'] for c in q['consm']]


def check_points(sim, ref, values, where, got, point):
    """points received by the user functions: one per link of the label, in the order of the stored links"""
    import numpy as np
    for l, (terms, log, time, e) in values.items():
        mine = {}
        for k, (m, i) in got.items():
            if where[k][0] == l:
                mine.setdefault(id(m), []).append((i, k))
        calls = [c for c in log]
        if len(calls) != len(mine):
            return ('calls', 'the function of label %d is called %d times for %d methods' % (l, len(calls), len(mine)))
        want = sorted(tuple(np.round(point(where[k][1], where[k][2], ref.vel[k[0]]), 9).tolist()) for L in mine.values() for i, k in L)
        have = sorted(tuple(np.round([float(x[j]) for x in p], 9).tolist()) for t, p, ex in calls for j in range(len(p[0])))
        if len(want) != len(have) or not np.allclose(np.array(want), np.array(have), atol=1e-6):
            return ('points', 'the points received by the function of label %d are not the points of the wall' % l)
        for t, p, ex in calls:
            if ex != ((e,) if e != 1. or ex else ()):
                return ('arguments', 'extra arguments %s of label %d' % (ex, l))
            if time and t != 0:
                return ('time', 'first call at time %s' % t)
    return None


def random_case(rng, backend=None, value=True):
    from .schemes import random_spec
    from .geo import random_elem, LABELS
    while True:
        s = random_spec(rng, symmetric=True, full=True, maxv=rng.choice([1, 1, 1, 2]), nvmax=None)
        dim = s['dim']
        n = [rng.randint(1 if rng.random() < .2 else 3, {1: 9, 2: 8, 3: 5}[dim]) for _ in range(dim)]
        R = max(max(abs(a) for a in v) for q in s['schemes'] for v in __import__('vc.schemes', fromlist=['x']).vectors(dim, q['vel']))
        if min(n) < R:
            continue
        dx = rng.choice(['1/4', '1/2', '1', '2/5'])
        lab = [rng.choice([-1, 0, 1, 2, 7]) for _ in range(2 * dim)]
        if rng.random() < .4:
            lab = [rng.choice([0, 0, 1, 2]) for _ in range(2 * dim)]
        # a periodic border has its opposite periodic
        for d in range(dim):
            if -1 in lab[2 * d:2 * d + 2]:
                lab[2 * d] = lab[2 * d + 1] = -1
        elems = []
        labels = {l for l in lab if l != -1}
        if dim > 1 and rng.random() < .7:
            for _ in range(rng.choice([1, 1, 2])):
                e = random_elem(rng, dim)
                # around the middle of the box
                size = [float(Fr(dx)) * m for m in n]
                e['args'][0] = [str(Fr(rng.randint(0, 8), 8) * Fr(dx) * m + Fr(rng.randint(1, 9), 97)) for m in n]
                nl = LABELS[e['elem']]
                e['label'] = rng.choice([0, 3, 11, [rng.choice([0, 3, 4, 5]) for _ in range(nl)]])
                e['fluid'] = rng.random() < .15
                elems.append(e)
                labels |= set(e['label'] if isinstance(e['label'], list) else [e['label']])
        ns = len(s['schemes'])
        M = [m for m in METHODS if m[-1] not in 'XYZ'[dim:]]
        bc = {}
        for l in sorted(labels):
            b = dict(method=[rng.choice(M) for _ in range(ns)])
            if value and rng.random() < .6:
                b['value'] = [[round(rng.uniform(.8, 1.2), 3)] + [round(rng.uniform(-.5, .5), 3) for _ in range(dim)] + [round(rng.uniform(-.5, .5), 3)] for _ in range(rng.randint(1, 3))]
                if rng.random() < .4:
                    b['time'] = True
                if rng.random() < .4:
                    b['extra'] = '3/2'
            bc[str(l)] = b
        if not bc:
            continue
        return dict(spec=s, n=n, dx=dx, label=lab, elems=elems, bc=bc, backend=backend or ('cython' if rng.random() < .02 else 'numpy'), seed=rng.randint(1, 10**6))
