"""C02 symmetric velocities and symmetric index maps"""
import itertools

NAMES = ('vx', 'vy', 'vz')


def sym(v, axis):
    return [-x if (axis is None or d != axis) else x for d, x in enumerate(v)]


_NUM = {}


def numbers(dim):
    """vector -> number by the real constructor from the number (independent of get_symmetric)"""
    if dim not in _NUM:
        from pylbm.stencil import Velocity
        n = {1: 13, 2: 169, 3: 343}[dim]
        _NUM[dim] = {}
        for k in range(n):
            _NUM[dim][tuple(Velocity(dim=dim, num=k).v)] = k
    return _NUM[dim]


def check_case(case):
    from pylbm.stencil import Velocity, Stencil
    if 'v' in case:
        v = case['v']
        u = Velocity(**dict(zip(NAMES, v)))
        for axis in [None] + list(range(len(v))):
            s = u.get_symmetric(axis) if axis is not None else u.get_symmetric()
            if list(s.v) != sym(v, axis):
                return ('components', 'symmetric of %s about %s is %s' % (v, axis, s.v))
            if list(s.get_symmetric(axis).v) != list(v):
                return ('involution', 'symmetric of the symmetric of %s about %s' % (v, axis))
            if s.num != Velocity(**dict(zip(NAMES, sym(v, axis)))).num:
                return ('number', 'number of the symmetric of %s' % (v,))
            if list(u.v) != list(v):
                return ('frame', 'the velocity itself was changed')
        for bad in (-1, len(v)):
            try:
                u.get_symmetric(bad)
            except ValueError:
                continue
            return ('axis', 'axis %d accepted in dimension %d' % (bad, len(v)))
        return None
    dim = case['dim']
    s = Stencil({'dim': dim, 'schemes': [{'velocities': list(v)} for v in case['schemes']]}, need_validation=False)
    inv = {n: v for v, n in numbers(dim).items()}
    allv, blk = [], []
    for b, ns in enumerate(case['schemes']):
        for n in ns:
            allv.append(list(inv[n]))
            blk.append(b)
    for axis in [None] + list(range(dim)):
        try:
            k = s.get_symmetric(axis)
        except ValueError:
            if closed(allv, blk, axis):
                return ('missing', 'stencil %s: no symmetric index for axis %s' % (case['schemes'], axis))
            continue
        if not closed(allv, blk, axis):
            continue
        if len(k) != len(allv):
            return ('length', 'symmetric index map of %s has %d entries' % (case['schemes'], len(k)))
        for i, j in enumerate(k):
            if not (0 <= j < len(allv)) or blk[j] != blk[i] or allv[j] != sym(allv[i], axis):
                return ('map', 'stencil %s axis %s: velocity %d %s is sent to %d' % (case['schemes'], axis, i, allv[i], j))
    return None


def closed(allv, blk, axis):
    return all((sym(v, axis), b) in [(w, c) for w, c in zip(allv, blk)] for v, b in zip(allv, blk))


def cases(tier, rng):
    for dim, R in ((1, 8), (2, 4), (3, 1)):
        for v in itertools.product(*[range(-R, R + 1)] * dim):
            yield dict(v=list(v))
    for _ in range(200 if tier == 'quick' else 3000):
        dim = rng.choice([1, 2, 2])
        M = 500
        yield dict(v=[rng.randint(-M, M) for _ in range(dim)])
    full = {1: [3, 5, 7], 2: [5, 9, 25, 49], 3: [7, 15, 19, 27]}
    for dim in (1, 2, 3):
        for n in full[dim]:
            yield dict(dim=dim, schemes=[list(range(n))])
    for _ in range(200 if tier == 'quick' else 2000):
        dim = rng.choice([1, 2, 2, 3])
        top = {1: 6, 2: 3, 3: 1}[dim]
        schemes = []
        for _ in range(rng.randint(1, 3)):
            vs = set()
            for _ in range(rng.randint(1, 5)):
                v = tuple(rng.randint(-top, top) for _ in range(dim))
                if rng.random() < .6:
                    orb = {tuple(s * x for s, x in zip(sg, v)) for sg in itertools.product((1, -1), repeat=dim)}
                else:
                    orb = {v, tuple(-x for x in v)}
                vs |= orb
            ns = [numbers(dim)[v] for v in sorted(vs)]
            rng.shuffle(ns)
            schemes.append(ns)
        yield dict(dim=dim, schemes=schemes)


def proofs(tier):
    from vc.core import raw, and_, or_, eq, neg, not_, implies, wrap, ModeledError, ne
    import numpy as np
    import z3

    def with_num(c, dim):
        """contract of _set_num (C01): the number is an injective function of the vector"""
        from pylbm.stencil import Velocity
        F = z3.Function('number', *([z3.IntSort()] * (dim + 1)))

        def stub(self):
            from vc.core import z
            assert self.dim == dim
            self.num = wrap(F(*[z(raw(x)) for x in [self.vx, self.vy, self.vz][:dim]]))
        old = Velocity._set_num
        Velocity._set_num = stub
        return Velocity, F, lambda: setattr(Velocity, '_set_num', old)

    def vel(dim):
        def f(c):
            Velocity, F, undo = with_num(c, dim)
            try:
                x = [c.int(n) for n in NAMES[:dim]]
                c.case(lambda v: dict(v=[v[n] for n in NAMES[:dim]]))
                u = Velocity(**dict(zip(NAMES, x)))
                for axis in [None] + list(range(dim)):
                    s = u.get_symmetric(axis)
                    e = [raw(y) if axis is not None and d == axis else neg(raw(y)) for d, y in enumerate(x)]
                    c.prove('dimension kept', s.dim == dim)
                    c.prove('components about %s' % axis, and_(*[eq(raw(a), b) for a, b in zip(s.v, e)]))
                    c.prove('involution about %s' % axis, and_(*[eq(raw(a), raw(b)) for a, b in zip(s.get_symmetric(axis).v, x)]))
                    c.prove('number of the symmetric about %s' % axis, eq(raw(s.num), F(*[e_ if not isinstance(e_, int) else z3.IntVal(e_) for e_ in e])))
                    c.prove('frame: the velocity is not changed', and_(*[eq(raw(a), raw(b)) for a, b in zip(u.v, x)]))
                for bad in (-1, dim, dim + 1):
                    try:
                        u.get_symmetric(bad)
                        c.prove('axis out of range is rejected', False)
                    except ValueError:
                        c.prove('axis out of range is rejected', True)
            finally:
                undo()
        return f

    def stencil(dim, layout, perm):
        """schemes given by generators: 0 the null velocity, 1 / -1 a symbolic velocity and its opposite, 2 / -2 another"""
        def f(c):
            from pylbm.stencil import Stencil
            Velocity, F, undo = with_num(c, dim)
            try:
                gen = {0: [0] * dim, 1: [c.int('a%d' % d) for d in range(dim)], 2: [c.int('b%d' % d) for d in range(dim)]}
                vec = lambda g: [(1 if g >= 0 else -1) * x for x in gen[abs(g)]]
                flat = [g for sch in layout for g in sch]
                # precondition: the vectors of one scheme are distinct; contract of the numbering: injective
                allg = sorted(set(flat) | {-g for g in flat})
                for g, h in itertools.combinations(allg, 2):
                    vg, vh = vec(g), vec(h)
                    same = and_(*[eq(raw(p), raw(q)) for p, q in zip(vg, vh)])
                    ng, nh = [Velocity(**dict(zip(NAMES, w))).num for w in (vg, vh)]
                    c.assume(implies(not_(same), ne(raw(ng), raw(nh))))
                    for sch in layout:
                        if g in sch and h in sch:
                            c.assume(not_(same))
                for g in (1, 2):
                    if g in flat:
                        c.assume(or_(*[ne(raw(x), 0) for x in vec(g)]))
                s = list.__new__(Stencil)
                s.dim, s.nstencils = dim, len(layout)
                s.v = [np.array([Velocity(**dict(zip(NAMES, vec(g)))) for g in sch], dtype=object) for sch in layout]
                s.nv = [len(sch) for sch in layout]
                s.nv_ptr = np.cumsum([0] + s.nv)
                s.num2index = [v.num for vs in s.v for v in vs]
                k = s.get_symmetric()
                blk = [b for b, sch in enumerate(layout) for _ in sch]
                c.prove('one index per velocity', len(k) == len(flat))
                for i in range(len(flat)):
                    j = int(k[i])
                    c.prove('index in the same scheme', 0 <= j < len(flat) and blk[j] == blk[i])
                    c.prove('opposite velocity', and_(*[eq(raw(p), neg(raw(q))) for p, q in zip(vec(flat[j]), vec(flat[i]))]))
            finally:
                undo()
        return f
    out = []
    for dim in (1, 2, 3):
        out.append(('get_symmetric %dd' % dim, vel(dim), dict(functions=['pylbm.stencil.Velocity.get_symmetric', 'pylbm.stencil.Velocity.v'], budget=60)))
    lay = [[[0, 1, -1]], [[-1, 0, 1]], [[1, -1, 0]], [[0, 1, -1], [-2, 2]], [[1, -1], [2, 0, -2]], [[-1, 1], [1, -1]], [[0], [1, 2, -2, -1]], [[2, 1, -1, -2, 0]]]
    for dim in (1, 2, 3):
        for l in lay:
            out.append(('Stencil.get_symmetric %dd %s' % (dim, l), stencil(dim, l, None), dict(functions=['pylbm.stencil.Stencil.get_symmetric'], budget=60)))
    return out
