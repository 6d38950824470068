"""C10 halo update: ghost points hold their periodic images, nothing else changes"""
import itertools


def image(x, n, h):
    """interior index of the periodic image of the storage index x (n interior points, halo h)"""
    return (x - h) % n + h


def check_case(case):
    import numpy as np
    from pylbm.storage import Array, SOA, AOS
    from pylbm.mpi_topology import MpiTopology
    dim, n, h, nv = case['dim'], case['n'], case['h'], case['nv']
    topo = MpiTopology(dim, case['per'])
    args = (nv, list(n), list(h))
    if case['kind'] == 'SOA':
        a = SOA(*args, topo)
    elif case['kind'] == 'AOS':
        a = AOS(*args, topo)
    else:
        a = Array(nv, list(n), np.array(h) if case.get('np') else list(h), list(case['sorder']), topo)
    shape = tuple([nv] + [x + 2 * y for x, y in zip(n, h)])
    if tuple(a.swaparray.shape) != shape or a.nv != nv or tuple(a.nspace) != shape[1:]:
        return ('shape', 'logical shape %s, expected %s' % (a.swaparray.shape, shape))
    old = (np.arange(np.prod(shape), dtype=float) + 1).reshape(shape)
    a[:] = old
    if not np.array_equal(a[:], old):
        return ('write', 'logical view does not read back what was written')
    for rep in range(case.get('rep', 1)):
        a.update()
    new = np.array(a[:])
    per = case['per']
    for idx in itertools.product(*[range(s) for s in shape]):
        src = [idx[0]]
        for d in range(dim):
            src.append(image(idx[d + 1], n[d], h[d]) if per[d] else idx[d + 1])
        if new[idx] != old[tuple(src)]:
            interior = all(h[d] <= idx[d + 1] < n[d] + h[d] for d in range(dim))
            return ('interior' if interior else 'ghost', 'sizes %s halo %s periodic %s order %s: point %s holds %s instead of %s (image %s)' % (
                n, h, per, case.get('sorder', case['kind']), idx, new[idx], old[tuple(src)], src))
    return None


def cases(tier, rng):
    for dim in (1, 2, 3):
        for per in [[True] * dim]:
            for kind in ('SOA', 'AOS'):
                yield dict(dim=dim, n=[3, 4, 2][:dim], h=[1] * dim, nv=2, per=list(per), kind=kind)
        for so in itertools.permutations(range(dim + 1)):
            yield dict(dim=dim, n=[4, 3, 5][:dim], h=[2, 1, 2][:dim], nv=3, per=[True] * dim, kind='Array', sorder=list(so), np=1)
    while True:
        dim = rng.choice([1, 2, 2, 3])
        h = [rng.randint(1, 3) for _ in range(dim)]
        n = [rng.randint(x, x + 5) for x in h]
        so = list(range(dim + 1))
        rng.shuffle(so)
        yield dict(dim=dim, n=n, h=h, nv=rng.randint(1, 5), per=[True] * dim, kind='Array', sorder=so, rep=rng.choice([1, 1, 2]), np=rng.choice([0, 1]))


def proofs(tier):
    from vc.core import raw, add, sub, mod, and_, or_, eq, ne, ite, lt, ge, le, wrap, z, implies, not_, mul, Unsupported, CTX
    from vc.farr import FArr, generic_index
    import z3

    from vc.mpistub import MPIStub

    def run(c, dim, per, sorder, cls, symh, check):
        import pylbm.storage as st
        mpi = MPIStub(c)

        class Cart:
            def Get_rank(self):
                return 0

            def Get_coords(self, r):
                return [0] * dim

            def Get_cart_rank(self, coords):
                for x, p in zip(coords, per):
                    if not p and not (0 <= x < 1):
                        return mpi.PROC_NULL
                return 0

        class Topo:
            cartcomm = Cart()

            def get_region(self, *n):
                return [[0, x] for x in n]
        nv = c.int('nv', lo=1)
        h = [c.int('h%d' % d, lo=1) if symh else [2, 1, 1][d] for d in range(dim)]
        n = [c.int('n%d' % d, lo=1) for d in range(dim)]
        for a, b in zip(n, h):
            c.assume(a >= b)
        c.case(lambda v: dict(dim=dim, n=[min(v['n%d' % d], 12) for d in range(dim)], h=[min(v['h%d' % d], 4) if symh else h[d] for d in range(dim)], nv=min(v['nv'], 3),
                              per=[True] * dim, kind=cls, sorder=list(sorder)))
        old, st.mpi = st.mpi, mpi
        try:
            if cls == 'Array':
                a = st.Array(nv, list(n), list(h), list(sorder), Topo())
            else:
                a = getattr(st, cls)(nv, list(n), list(h), Topo())
            shape = [raw(nv)] + [add(raw(x), mul(2, raw(y))) for x, y in zip(n, h)]
            check(a, shape, n, h)
        finally:
            st.mpi = old

    def update(dim, per, sorder, cls='Array', symh=True):
        def f(c):
            def check(a, shape, n, h):
                for s, t in zip(a.swaparray.shape, shape):
                    c.prove('logical shape', eq(raw(s), t))
                data = FArr.symbolic('data', tuple(shape), 'R')
                a[:] = data
                a.update()
                idx = [c.int('x%d' % i, lo=0) for i in range(dim + 1)]
                for x, s in zip(idx, shape):
                    c.assume(lt(raw(x), s))
                idx = [raw(x) for x in idx]
                src = [idx[0]]
                for d in range(dim):
                    x, N, H = idx[d + 1], raw(n[d]), raw(h[d])
                    # the image is the interior point at a distance n (unique since n >= h)
                    src.append(ite(lt(x, H), add(x, N), ite(ge(x, add(N, H)), sub(x, N), x)) if per[d] else x)
                inner = and_(*[and_(ge(idx[d + 1], raw(h[d])), lt(idx[d + 1], add(raw(n[d]), raw(h[d])))) for d in range(dim)])
                new = a[:].at(tuple(idx))
                c.prove('interior values are not modified', implies(inner, eq(new, data.at(tuple(idx)))))
                c.prove('every point holds the value of its periodic image', eq(new, data.at(tuple(src))))
            run(c, dim, per, sorder, cls, symh, check)
        return f

    out = []
    F = 'pylbm.storage.'
    fn = [F + 'Array.__init__', F + 'Array._set_subarray', F + 'Array.update', F + 'Array.__getitem__', F + 'Array.__setitem__', F + 'SOA.__init__', F + 'AOS.__init__']
    for dim in (1, 2, 3):
        for per in itertools.product([True, False], repeat=dim):
            out.append(('update %dd periodic %s' % (dim, per), update(dim, per, tuple(range(dim + 1))), dict(functions=fn, budget=300, timeout=30)))
        for cls in ('SOA', 'AOS'):
            so = tuple(range(dim + 1)) if cls == 'SOA' else (dim,) + tuple(range(dim))
            out.append(('update %dd %s' % (dim, cls), update(dim, (True,) * dim, so, cls), dict(functions=fn, budget=300, timeout=30)))
        for so in itertools.permutations(range(dim + 1)):
            out.append(('update %dd order %s' % (dim, so), update(dim, (True,) * dim, so), dict(functions=fn, budget=300, timeout=30)))
    return out
