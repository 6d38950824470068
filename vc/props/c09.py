"""C09 partition over processes"""
from vc.util import SymList

# ------------------------------------------------------------------ runtime contract


class FakeCart:
    def __init__(self, topo, coords):
        self.topo, self.coords = list(topo), list(coords)

    def Get_topo(self):
        return (self.topo, [1] * len(self.topo), self.coords)

    def Get_rank(self):
        if not all(isinstance(c, int) for c in self.coords + self.topo):
            return self         # symbolic: an opaque rank
        r = 0
        for p, c in zip(self.topo, self.coords):
            r = r * p + c
        return r

    def Get_coords(self, rank):
        if rank is self:
            return list(self.coords)
        out = []
        for p in reversed(self.topo):
            out.append(rank % p)
            rank //= p
        return out[::-1]

    def Get_dim(self):
        return len(self.topo)

    def __getattr__(self, n):
        dims = {'dims': self.topo, 'coords': self.coords, 'dim': len(self.topo), 'rank': self.Get_rank()}
        if n in dims:
            return dims[n]
        if n in ('Get_size',):
            s = 1
            for p in self.topo:
                s *= p
            return lambda: s
        raise AttributeError(n)


def make(topo, coords):
    from pylbm.mpi_topology import MpiTopology
    import numpy as np
    t = object.__new__(MpiTopology)
    t.dim = len(topo)
    t.split = np.asarray(topo)
    t.cartcomm = FakeCart(topo, coords)
    t.comm = t.cartcomm
    return t


def check_case(case):
    topo, ns = case['topo'], case['n']
    import itertools
    lists = make(topo, [0] * len(topo)).get_region_indices(*ns)
    if len(lists) != len(ns):
        return ('count', 'expected %d directions' % len(ns))
    for p, n, l in zip(topo, ns, lists):
        l = [int(x) for x in l]
        if len(l) != p + 1 or l[0] != 0 or l[-1] != n:
            return ('cover', 'n=%d p=%d: region indices %s do not go from 0 to n in p steps' % (n, p, l))
        d = [b - a for a, b in zip(l, l[1:])]
        if min(d) < 0 or max(d) - min(d) > 1:
            return ('balance', 'n=%d p=%d: region sizes %s' % (n, p, d))
    cells = []
    coords = list(itertools.product(*[range(p) for p in topo]))
    if len(coords) > 40:
        coords = [coords[i] for i in range(0, len(coords), max(1, len(coords) // 40))]
    for c in coords:
        r = make(topo, c).get_region(*ns)
        for d in range(len(ns)):
            if [int(x) for x in r[d]] != [int(lists[d][c[d]]), int(lists[d][c[d] + 1])]:
                return ('region', 'process %s of %s, n=%s: region %s' % (c, topo, ns, r))
    return None


def cases(tier, rng):
    for n in range(0, 14):
        for p in range(1, 9):
            yield dict(topo=[p], n=[n])
    for i in range(400 if tier == 'quick' else 5000):
        dim = rng.choice([1, 2, 2, 3, 3])
        topo = [rng.randint(1, 6) for _ in range(dim)]
        yield dict(topo=topo, n=[rng.choice([rng.randint(0, 40), rng.randint(0, 10**6)]) for _ in range(dim)])


# ------------------------------------------------------------------ contracts
def proofs(tier):
    from vc.core import (CTX, SInt, wrap, raw, add, mul, sub, floordiv, mod, mn, mx, eq, le, lt, ge, and_, z)
    import z3
    from vc.load import LoopSpec

    def bound(i, q, m):
        """closed form of the i-th region index"""
        return add(mul(i, q), mn(i, m))

    def loop_spec(it, env):
        lists = [k for k, v in env.items() if isinstance(v, list) and len(v) == 1 and raw(v[0]) == 0]
        if len(lists) != 1 or 'n' not in CTX.ghost:
            return None
        name = lists[0]
        q, m = CTX.ghost['q'], CTX.ghost['m']

        def at(k, entry):
            return {name: SymList(add(k, 1), lambda i: bound(i, q, m))}

        def check(exp, act, prove):
            e, a = exp[name], act[name]
            if isinstance(a, list):
                prove('length', eq(e.length(), len(a)))
                for i, x in enumerate(a):
                    prove('elements', eq(raw(x), e.elem(i)))
            else:
                prove('length', eq(e.length(), a.length()))
                i = CTX.fresh('i', 'I')
                CTX.add(z3.And(i >= 0, i < z(e.length())))
                prove('elements', eq(e.elem(i), a.elem(i)))
        return LoopSpec('partition loop', at, check)

    def setup(c, dim):
        c.ghost = {}
        topo = [c.int('p%d' % d, lo=1) for d in range(dim)]
        coords = []
        for d in range(dim):
            x = c.int('c%d' % d, lo=0)
            c.assume(x < topo[d])
            coords.append(x)
        return topo, coords

    def one_direction(c):
        topo, coords = setup(c, 1)
        n = c.int('n', lo=0)
        c.case(lambda v: dict(topo=[min(v['p0'], 10**6)], n=[v['n']]))
        p = topo[0]
        # n = p * q + m,  0 <= m < p
        q, m = raw(n // p), raw(n % p)
        c.lemma('euclidean division', and_(eq(raw(n), add(mul(raw(p), q), m)), ge(m, 0), lt(m, raw(p)), ge(q, 0)))
        # abstract the quotient (it satisfies the lemma above)
        c.ghost = dict(q=q, m=m, n=n)
        for k in range(4):
            for fn in ('get_region_indices_', 'get_region_indices'):
                c.loop_specs['pylbm.mpi_topology.MpiTopology.%s#%d' % (fn, k)] = loop_spec
        t = make(topo, coords)
        r = t.get_region_indices_(n, 0)
        from vc.core import Unsupported
        if not hasattr(r, 'elem'):
            raise Unsupported('result is not the list built by the loop')
        c.prove('one bound more than processes', eq(r.length(), add(raw(p), 1)))
        c.prove('first index is 0', eq(r.elem(0), 0))
        c.prove('last index is n', eq(r.elem(raw(p)), raw(n)))
        i = c.int('i', lo=0)
        c.assume(i < p)
        j = c.int('j', lo=0)
        c.assume(j < p)
        si = sub(r.elem(add(raw(i), 1)), r.elem(raw(i)))
        sj = sub(r.elem(add(raw(j), 1)), r.elem(raw(j)))
        c.prove('sizes are n div p or one more', and_(ge(si, q), le(si, add(q, 1))))
        c.prove('sizes differ by at most one', le(sub(si, sj), 1))

    def region(dim):
        def f(c):
            topo, coords = setup(c, dim)
            ns = [c.int('n%d' % d, lo=0) for d in range(dim)]
            c.case(lambda v: dict(topo=[v['p%d' % d] for d in range(dim)], n=[v['n%d' % d] for d in range(dim)]))
            from pylbm.mpi_topology import MpiTopology
            fun = z3.Function('bounds', *([z3.IntSort()] * 4))     # contract of the callee: (n, p, i) -> index
            called = []

            def stub(self, n, axis=0):
                p = self.cartcomm.Get_topo()[0][axis]
                called.append(axis)
                return SymList(add(raw(p), 1), lambda i: fun(z(raw(n)), z(raw(p)), z(i)))
            old = MpiTopology.get_region_indices_
            MpiTopology.get_region_indices_ = stub
            try:
                r = make(topo, coords).get_region(*ns)
            finally:
                MpiTopology.get_region_indices_ = old
            c.prove('one interval per direction', len(r) == dim)
            for d in range(dim):
                a, b = raw(r[d][0]), raw(r[d][1])
                n, p, x = raw(ns[d]), raw(topo[d]), raw(coords[d])
                c.prove('interval starts at the bound of the process coordinate', eq(a, fun(z(n), z(p), z(x))))
                c.prove('interval ends at the next bound', eq(b, fun(z(n), z(p), z(x + 1))))
        return f
    F = 'pylbm.mpi_topology.MpiTopology.'
    out = [('get_region_indices_: loop invariant and cover', one_direction, dict(functions=[F + 'get_region_indices_'], budget=60))]
    for d in (1, 2, 3):
        out.append(('get_region %dd' % d, region(d), dict(functions=[F + 'get_region', F + 'get_region_indices', F + 'get_coords'], budget=60)))
    return out
