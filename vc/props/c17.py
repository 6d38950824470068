"""C17 boundary conditions apply their defining formula on every link"""


def check_case(case):
    from vc import bcase
    return bcase.check(case, 'C17')


def fixed_cases():
    """walls of one label, one method, on the standard stencils; channels of one cell"""
    import random
    from vc import bcase
    from vc.schemes import vectors
    rng = random.Random(5)
    # obstacle with distances less and greater than 1/2, every method
    for m in bcase.METHODS[:5]:
        for name in ('d1q5', 'd2q9', 'd3q7'):
            yield case_of(name, m, 'numpy', None)
    for m in bcase.METHODS:
        for be in ('numpy', 'cython'):
            if m[-1] in 'XYZ':
                continue
            for k in range(40):
                c = bcase.random_case(rng, be)
                if c['spec']['dim'] == 2 and min(c['n']) > 1:
                    break
            R = max(max(abs(a) for a in v) for q in c['spec']['schemes'] for v in vectors(2, q['vel']))
            c['n'] = [R, 4]
            for b in c['bc'].values():
                b['method'] = [m] * len(b['method'])
            yield c


def cases(tier, rng):
    from vc import bcase
    yield from fixed_cases()
    while True:
        yield bcase.random_case(rng)


def proofs(tier):
    from vc.core import CTX, raw, wrap, add, sub, mul, div, neg, eq, ne, and_, or_, not_, implies, lt, ge, real, z
    from vc.farr import FArr
    from vc import bsym
    from types import SimpleNamespace as NS
    from fractions import Fraction as Fr
    B = 'pylbm.boundary.'
    BASE = [B + 'BoundaryMethod.' + n for n in ('__init__', 'fix_iload', '_get_istore_iload_symb', 'update')]

    def formula(cls, name, k, backend, order, half):
        def f(c):
            import pylbm.boundary as PB
            c.ghosts['enumerate'] = True
            ax = 'XYZ'.index(cls[-1]) if cls[-1] in 'XYZ' and cls.startswith('Neumann') else None
            L = bsym.Links(c, name, ax)
            dim, ns = L.dim, L.ns
            so = list(range(dim + 1)) if order == 'first' else [dim] + list(range(dim))
            j = L.fix(k)
            if half is not None:
                c.assume(L.dist(j) < z(Fr(1, 2)) if half else L.dist(j) >= z(Fr(1, 2)))
            c.case(lambda v: case_of(name, cls, backend, v))
            gen = NS(backend=backend.upper(), module=None, add_routine=None)
            m = getattr(PB, cls)(L.istore(), L.constant(7), L.distance(), FArr.symbolic('normal', (L.n, dim), 'R'), bsym.Wrapped(L.st), {7: None}, {7: False}, [ns] + L.shape, gen)
            m.feq = FArr.symbolic('feq', (ns, L.n), 'R')
            feq = m.feq.copy()
            # the order of Simulation.__init__ and _initialize
            m.set_iload()
            mod = bsym.routine(m, backend, so, (cls, dim, ns))
            m.generator = bsym.Generated(backend, mod)
            m.fix_iload()
            m.set_rhs()
            mem = [None] * (dim + 1)
            for a, p in enumerate(so):
                mem[p] = ([ns] + L.shape)[a]
            fa = FArr.symbolic('f', mem, 'R')
            f0 = fa.copy()

            def at(arr, K, x):
                idx = [None] * (dim + 1)
                for a, i in enumerate([K] + list(x)):
                    idx[so[a]] = i
                return arr.at(tuple(idx))
            ff = NS(nspace=[wrap(s) for s in L.shape], array=fa)
            m.update(ff)
            for s in c.ghosts.get('scatters', []):
                s.instance(j)
            row = L.row(j)
            o, x, d = list(row[1:]), L.inner(j), L.dist(j)
            s, v = L.sym[k], L.v[k]
            new = at(fa, k, o)
            F = lambda K, p: at(f0, K, p)
            ek, es = feq.at((k, j)), feq.at((s, j))
            known = None
            if cls == 'BounceBack':
                want = add(F(s, x), sub(ek, es))
            elif cls == 'AntiBounceBack':
                want = add(neg(F(s, x)), add(ek, es))
            elif cls.startswith('Bouzidi'):
                sg = -1 if 'Anti' in cls else 1
                b = sub(ek, mul(sg, es))
                if half:
                    xx = [add(p, q) for p, q in zip(x, v)]
                    want = add(mul(sg, add(mul(mul(2, d), F(s, x)), mul(sub(1, mul(2, d)), F(s, xx)))), b)
                    if sg == -1:
                        known = add(add(neg(mul(mul(2, d), F(s, x))), mul(sub(1, mul(2, d)), F(s, xx))), b)
                else:
                    w = div(Fr(1, 2), d)
                    want = add(mul(mul(sg, w), F(s, x)), add(mul(sub(1, w), F(k, x)), mul(w, b)))
            elif ax is None:
                want = F(k, x)
            else:
                want = F(k, [add(p, v[ax]) if e == ax else p for e, p in enumerate(o)])
            ok = eq(new, want)
            if known is not None:
                # listed finding: either the formula or the listed deviation, nothing else
                ok = or_(ok, eq(new, known))
            c.prove('the entry of the link has the value of the formula', ok, timeout=30)
            # every other entry is kept
            y = [raw(c.int('y%d' % e)) for e in range(dim + 1)]
            g = at(fa, y[0], y[1:])
            for sc in c.ghosts.get('scatters', []):
                for t in sc.terms:
                    r = L.row(t)
                    c.assume(not_(and_(ge(t, 0), lt(t, L.n), *[eq(a, b) for a, b in zip(r, y)])))
            c.prove('the entries which are on no link are kept', eq(g, at(f0, y[0], y[1:])))
        return f
    out = []
    quick = ('d1q3', 'd1q5', 'd1 coupled', 'd2q4', 'd2q9', 'd2 coupled', 'd2 anisotropic', 'd2 x only', 'd3q7', 'd3 flat', 'd3 wide')
    for name in bsym.names():
        if tier == 'quick' and name not in quick:
            continue
        dim = bsym.STENCILS[name][0]
        for cls in ('BounceBack', 'AntiBounceBack', 'BouzidiBounceBack', 'BouzidiAntiBounceBack', 'Neumann') + tuple('Neumann' + a for a in 'XYZ'[:dim]):
            if tier == 'quick' and name == 'd3 wide' and not cls.startswith('Neumann'):
                continue
            parent = {'AntiBounceBack': 'BounceBack', 'BouzidiAntiBounceBack': 'BouzidiBounceBack'}.get(cls, cls)
            FN = BASE + [B + cls + '.' + n for n in ('generate', 'set_rhs', 'function')] + [B + parent + '.set_iload'] + ([B + parent + '.' + '_get_args', B + parent + '.__init__'] if 'Bouzidi' in cls else [B + 'BoundaryMethod._get_args'])
            st = bsym.stencil(name)
            vel = [[int(a) for a in r] for r in st.get_all_velocities()]
            for backend, order in (('numpy', 'first'), ('cython', 'last')):
                ks = [k for k in range(len(vel)) if any(vel[k])]
                for half in ((True, False) if 'Bouzidi' in cls else (None,)):
                    def all_k(c, ks=ks, a=(cls, name), b=(backend, order, half)):
                        # the velocity number of the link: one path per value
                        for k in ks[:-1]:
                            if c.decide(c.bool('velocity%d' % k)):
                                return formula(*a, k, *b)(c)
                        formula(*a, ks[-1], *b)(c)
                    out.append(('%s %s %s%s' % (cls, name, backend, '' if half is None else ' distance < 1/2' if half else ' distance >= 1/2'), all_k, dict(functions=FN, budget=200, timeout=20)))
    return out


def spec_of(name):
    """a scheme on the stencil: monomials, one conserved moment per scheme"""
    from vc.schemes import vectors, basis, mono_str
    from vc.bsym import STENCILS
    dim, vels = STENCILS[name]
    out, i = [], 0
    for l in vels:
        b = basis(dim, vectors(dim, l))
        w = 'm%d' % i
        eq = [w] + ['%d/7*%s' % (1 + a % 3, w) for a in range(len(l) - 1)]
        out.append(dict(vel=list(l), poly=[mono_str(e) for e in b], consm=[w], eq=eq, s=['0'] + ['3/2'] * (len(l) - 1)))
        i += 1
    return dict(dim=dim, la='1', params={}, schemes=out)


def case_of(name, cls, backend, v):
    """harness case of a failed obligation: a box, an obstacle, the method on every label (on the walls normal to the direction for NeumannX, Y, Z)"""
    from vc.bsym import STENCILS
    dim, vels = STENCILS[name]
    n = {1: [6], 2: [9, 8], 3: [7, 6, 7]}[dim]
    ax = 'XYZ'.index(cls[-1]) if cls[-1] in 'XYZ' and cls.startswith('Neumann') else None
    lab = [0] * (2 * dim) if ax is None else [-1] * (2 * ax) + [0, 0] + [-1] * (2 * dim - 2 * ax - 2)
    elems = []
    if ax is None and dim > 1:
        mid = ['67/60', '1'] if dim == 2 else ['51/60', '3/4', '52/60']
        elems = [dict(elem='Circle', args=[mid, '23/60'], label=0, fluid=False) if dim == 2 else dict(elem='Sphere', args=[mid, '23/60'], label=0, fluid=False)]
    bc = {'0': dict(method=[cls] * len(vels), value=[[1.1] + [.3] * dim + [.2], [.9] + [-.2] * dim + [.1]])}
    return dict(spec=spec_of(name), n=n, dx='1/4', label=lab, elems=elems, bc=bc, backend=backend, seed=3)
