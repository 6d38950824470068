"""C03 the stencil describes exactly the requested velocities"""
import itertools

NAMES = ('vx', 'vy', 'vz')
_VEC = {}


def vec(dim, n):
    """reference: number -> vector, from the numbering of C01"""
    if (dim, n) not in _VEC:
        from pylbm.stencil import Velocity
        _VEC[dim, n] = [int(x) for x in Velocity(dim=dim, num=n).v]
    return _VEC[dim, n]


def check_case(case):
    import numpy as np
    from pylbm.stencil import Stencil
    dim, sch = case['dim'], case['schemes']
    d = {'dim': dim, 'schemes': [{'velocities': list(v)} for v in sch]}
    if case.get('box'):
        del d['dim']
        d['box'] = {n: [0., 1.] for n in 'xyz'[:dim]}
    s = Stencil(d, need_validation=False)
    if s.dim != dim:
        return ('dim', 'dimension %s instead of %s' % (s.dim, dim))
    if s.nstencils != len(sch) or len(s) != len(sch) or list(s.nv) != [len(v) for v in sch]:
        return ('counts', 'nstencils %s nv %s for %s' % (s.nstencils, list(s.nv), sch))
    ptr = [0]
    for v in sch:
        ptr.append(ptr[-1] + len(v))
    if [int(x) for x in s.nv_ptr] != ptr:
        return ('offsets', 'nv_ptr %s for %s' % (list(s.nv_ptr), sch))
    allv = []
    for k, v in enumerate(sch):
        ref = [vec(dim, n) for n in v]
        allv += ref
        if [int(x) for x in s.num[k]] != list(v) or [int(x.num) for x in s.v[k]] != list(v):
            return ('order', 'scheme %d of %s: numbers %s' % (k, sch, list(s.num[k])))
        if [[int(y) for y in x.v] for x in s.v[k]] != ref:
            return ('vectors', 'scheme %d of %s: vectors differ' % (k, sch))
        for i, nm in enumerate(NAMES[:dim]):
            if [int(x) for x in getattr(s, nm)[k]] != [r[i] for r in ref]:
                return ('component', 'scheme %d of %s: %s = %s' % (k, sch, nm, list(getattr(s, nm)[k])))
        if np.asarray(s.get_all_velocities(k)).tolist() != ref:
            return ('scheme velocities', 'get_all_velocities(%d) of %s' % (k, sch))
    if np.asarray(s.get_all_velocities()).tolist() != allv:
        return ('all velocities', 'get_all_velocities() of %s' % (sch,))
    if [int(x) for x in s.num2index] != [n for v in sch for n in v]:
        return ('num2index', 'num2index %s of %s' % (list(s.num2index), sch))
    u = [int(x) for x in s.unum]
    if sorted(set(u)) != sorted(u) or set(u) != {n for v in sch for n in v}:
        return ('unique', 'unique numbers %s of %s' % (u, sch))
    if s.unvtot != len(u) or len(s.unique_velocities) != len(u):
        return ('unique count', 'unvtot %s of %s' % (s.unvtot, sch))
    for i, n in enumerate(u):
        if int(s.unum2index[n]) != i:
            return ('unum2index', 'unum2index[%d] = %s of %s' % (n, s.unum2index[n], sch))
        w = [int(getattr(s, c)[i]) for c in ('uvx', 'uvy', 'uvz')[:dim]]
        if w != vec(dim, n) or [int(x) for x in s.unique_velocities[i].v] != w:
            return ('unique components', 'unique velocity %d of %s is %s' % (n, sch, w))
    mx = [max(abs(v[i]) for v in allv) for i in range(dim)]
    mi = [min(v[i] for v in allv) for i in range(dim)]
    if [int(x) for x in s.vmax] != mx or [int(x) for x in s.vmin] != mi or [int(x) for x in s.vmax_full] != mx + [0] * (3 - dim):
        return ('extrema', 'vmin %s vmax %s vmax_full %s of %s' % (s.vmin, s.vmax, s.vmax_full, sch))
    return None


def cases(tier, rng):
    for dim, n in ((1, 3), (2, 9), (3, 19)):
        yield dict(dim=dim, schemes=[list(range(n))])
        yield dict(dim=dim, schemes=[list(range(n))[::-1]], box=1)
        yield dict(dim=dim, schemes=[list(range(1, n)), list(range(n)), [0, 2, 1]])
    for k in range(1, 4):
        for p in itertools.permutations(range(5), k):
            yield dict(dim=1, schemes=[list(p)])
    for _ in range(400 if tier == 'quick' else 6000):
        dim = rng.choice([1, 1, 2, 2, 3])
        top = rng.choice({1: [3, 9, 40], 2: [5, 9, 49, 120], 3: [7, 27, 60]}[dim])
        sch = []
        for _ in range(rng.randint(1, 4)):
            sch.append(rng.sample(range(top), rng.randint(1, min(top, 9))))
        yield dict(dim=dim, schemes=sch, box=rng.choice([0, 1]))


def proofs(tier):
    from vc.core import raw, and_, or_, eq, ne, le, ge, wrap, z, implies, neg, mx as mx_, abs_
    import z3

    def stencil(dim, layout):
        """layout: number of velocities of each scheme; the numbers are symbolic, arbitrary (overlapping or not)"""
        def f(c):
            from pylbm.stencil import Stencil, Velocity
            c.object_arrays = True
            F = [z3.Function('coord%d' % d, z3.IntSort(), z3.IntSort()) for d in range(dim)]

            def stub(self):          # contract of the numbering (C01): the vector is a function of the number
                assert self.dim == dim
                for d in range(3):
                    setattr(self, NAMES[d], wrap(F[d](z(raw(self.num)))) if d < dim else None)
            old = Velocity._set_coord
            Velocity._set_coord = stub
            old2 = Stencil.is_symmetric
            Stencil.is_symmetric = lambda self: None     # logs only
            old3 = Stencil.__str__
            Stencil.__str__ = lambda self: ''            # logs only
            try:
                nums = [[c.int('n%d_%d' % (k, i), lo=0) for i in range(n)] for k, n in enumerate(layout)]
                for ns in nums:
                    for a, b in itertools.combinations(ns, 2):
                        c.assume(a != b)
                c.case(lambda v: dict(dim=dim, schemes=[[min(v['n%d_%d' % (k, i)], 400) for i in range(n)] for k, n in enumerate(layout)]))
                s = Stencil({'dim': dim, 'schemes': [{'velocities': list(ns)} for ns in nums]}, need_validation=False)
                flat = [x for ns in nums for x in ns]
                vecs = [[F[d](z(raw(x))) for d in range(dim)] for x in flat]
                c.prove('number of schemes', s.nstencils == len(layout) and len(s) == len(layout))
                c.prove('sizes', [int(x) for x in s.nv] == list(layout))
                ptr = [0]
                for n in layout:
                    ptr.append(ptr[-1] + n)
                c.prove('offsets', [int(x) for x in s.nv_ptr] == ptr)
                c.prove('number table of all velocities', and_(len(s.num2index) == len(flat), *[eq(raw(a), raw(b)) for a, b in zip(s.num2index, flat)]))
                for k, ns in enumerate(nums):
                    c.prove('requested numbers in the requested order', and_(len(s.num[k]) == len(ns), *[eq(raw(a), raw(b)) for a, b in zip(s.num[k], ns)]))
                    for d in range(dim):
                        comp = getattr(s, NAMES[d])[k]
                        c.prove('component of each velocity', and_(*[eq(raw(comp[i]), vecs[ptr[k] + i][d]) for i in range(len(ns))]))
                av = s.get_all_velocities()
                c.prove('concatenation of the vectors', and_(tuple(av.shape) == (len(flat), dim), *[eq(raw(av[i, d]), vecs[i][d]) for i in range(len(flat)) for d in range(dim)]))
                u = [raw(x) for x in s.unum]
                c.prove('unique: each once', and_(*[ne(a, b) for a, b in itertools.combinations(u, 2)]))
                c.prove('unique: only requested ones', and_(*[or_(*[eq(a, raw(x)) for x in flat]) for a in u]))
                c.prove('unique: all requested ones', and_(*[or_(*[eq(a, raw(x)) for a in u]) for x in flat]))
                c.prove('unique: count', s.unvtot == len(u))
                for i, a in enumerate(u):
                    c.prove('index table of the unique velocities', eq(raw(s.unum2index[wrap(a)]), i))
                    for d, nm in enumerate(('uvx', 'uvy', 'uvz')[:dim]):
                        c.prove('components of the unique velocities', eq(raw(getattr(s, nm)[i]), F[d](z(a))))
                vmax, vmin = s.vmax, s.vmin
                for d in range(dim):
                    m, mi = raw(vmax[d]), raw(vmin[d])
                    c.prove('largest magnitude', and_(or_(*[eq(m, abs_(v[d])) for v in vecs]), *[ge(m, abs_(v[d])) for v in vecs]))
                    c.prove('minimal component', and_(or_(*[eq(mi, v[d]) for v in vecs]), *[le(mi, v[d]) for v in vecs]))
            finally:
                Velocity._set_coord = old
                Stencil.is_symmetric = old2
                Stencil.__str__ = old3
        return f
    out = []
    lay = [(1, (2,)), (1, (3,)), (1, (1, 2)), (2, (2, 2)), (2, (3,)), (3, (2, 1)), (2, (1, 1, 1))]
    if tier != 'quick':
        lay += [(3, (3,)), (2, (2, 1, 1)), (1, (4,)), (3, (1, 1, 2))]
    for dim, l in lay:
        out.append(('Stencil %dd sizes %s' % (dim, l), stencil(dim, l), dict(functions=['pylbm.stencil.Stencil.__init__', 'pylbm.stencil.Stencil.get_all_velocities', 'pylbm.stencil.OneStencil', 'pylbm.stencil.Stencil.unum', 'pylbm.stencil.Stencil.vmax', 'pylbm.stencil.Stencil.vmin'], budget=200)))
    return out
