"""C11 grid coordinates"""
from fractions import Fraction as Fr
import itertools


def check_case(case):
    import numpy as np
    import pylbm
    from vc.dom import dico, velocities
    dim, n, dx = case['dim'], case['n'], Fr(case['dx'])
    mn = [Fr(x) for x in case['min']]
    box = [[float(a), float(a + k * dx)] for a, k in zip(mn, n)]
    if 'off' in case:
        # not a multiple: the length is n + off cells in the direction d
        d, off = case['dir'], Fr(case['off'])
        box[d][1] = float(mn[d] + (n[d] + off) * dx)
        try:
            pylbm.Domain(dico(dim, case['vels'], box, float(dx)))
        except SystemExit:
            return None
        return ('multiple', 'a box of %s cells is accepted silently (dx = %s)' % (n[d] + off, dx))
    dom = pylbm.Domain(dico(dim, case['vels'], box, float(dx), case.get('label')))
    V = velocities(dim, case['vels'])
    h = [max(abs(v[d]) for v in V) for d in range(dim)]
    names = 'xyz'
    tol = 1e-9
    for d in range(dim):
        want = np.array([float(mn[d] + (i + Fr(1, 2)) * dx) for i in range(-h[d], n[d] + h[d])])
        sc = 1 + np.max(np.abs(want))
        for what, got, w in (('coords_halo', dom.coords_halo[d], want), ('coords', dom.coords[d], want[h[d]:n[d] + h[d]]),
                             (names[d] + '_halo', getattr(dom, names[d] + '_halo'), want), (names[d], getattr(dom, names[d]), want[h[d]:n[d] + h[d]])):
            got = np.asarray(got)
            if got.shape != w.shape:
                return ('count', '%d points in %s along %s instead of %d (n=%s halo=%s)' % (got.size, what, names[d], w.size, n, h))
            if np.max(np.abs(got - w)) > tol * sc:
                return ('position', '%s along %s: %s instead of %s' % (what, names[d], got, w))
    full = [a + 2 * b for a, b in zip(n, h)]
    for what, got, w in (('shape_halo', dom.shape_halo, full), ('shape_in', dom.shape_in, n), ('in_or_out', dom.in_or_out.shape, full),
                         ('distance', dom.distance.shape, [len(V)] + full), ('flag', dom.flag.shape, [len(V)] + full),
                         ('normal', dom.normal.shape, [len(V)] + full + [dim]), ('global_size', dom.global_size, n)):
        if [int(x) for x in got] != list(w):
            return ('shape', 'shape of %s: %s instead of %s' % (what, list(got), list(w)))
    lo, hi = dom.get_bounds()
    lh, hh = dom.get_bounds_halo()
    for d in range(dim):
        w = [float(mn[d] + (i + Fr(1, 2)) * dx) for i in (0, n[d] - 1, -h[d], n[d] - 1 + h[d])]
        if max(abs(a - b) for a, b in zip([lo[d], hi[d], lh[d], hh[d]], w)) > tol * (1 + max(map(abs, w))):
            return ('bounds', 'corners of the domain along %s: %s instead of %s' % (names[d], [lo[d], hi[d], lh[d], hh[d]], w))
    return None


def cases(tier, rng):
    from vc.dom import STENCILS
    for name, (dim, vels) in STENCILS.items():
        n = [7, 5, 6][:dim]
        yield dict(dim=dim, vels=vels, n=n, dx='1/4', min=['0', '-1/2', '3'][:dim])
        for d in range(dim):
            for off in ('1/2', '2/5', '-3/10'):
                yield dict(dim=dim, vels=vels, n=n, dx='1/8', min=['0'] * dim, dir=d, off=off)
    while True:
        dim, vels = STENCILS[rng.choice(list(STENCILS))]
        n = [rng.randint(3, 12 if dim < 3 else 6) for _ in range(dim)]
        c = dict(dim=dim, vels=vels, n=n, dx=rng.choice(['1/4', '1/10', '1/3', '2', '1/100', '7/5', '1/64']), min=[rng.choice(['0', '-1', '1/3', '-7/10', '100']) for _ in range(dim)])
        if rng.random() < .3:
            c['label'] = [rng.choice([-1, 0, 1, 2]) for _ in range(2 * dim)]
        if rng.random() < .2:
            c.update(dx=rng.choice(['1/8', '1/10', '1/20', '1/100']), dir=rng.randrange(dim), off=rng.choice(['1/2', '1/4', '-1/3', '1/5']))
            c.pop('label', None)
        yield c


def proofs(tier):
    from vc.core import raw, add, sub, mul, eq, ge, gt, lt, le, and_, or_, implies, real, abs_, wrap, Unsupported
    from vc.dom import STENCILS, SymDomain, Topo, build, dico, velocities
    from vc.poly import prove_equal
    half = Fr(1, 2)
    D = 'pylbm.domain.Domain.'
    FN = [D + 'create_coords', D + '__init__', D + 'shape_halo', D + 'shape_in', D + 'get_bounds', D + 'get_bounds_halo', 'pylbm.geometry.get_box', 'pylbm.geometry.Geometry.__init__']

    def coords(name, sides):
        def f(c):
            S = SymDomain(c, name, sides, labels=False)
            S.case(c)
            import pylbm.domain as dm
            old = dm.Domain._Domain__add_init, dm.Domain.clean
            # the walls are the subject of C12: frame of __add_init and clean: the coordinates are not assigned
            dm.Domain._Domain__add_init = lambda self, label: None
            dm.Domain.clean = lambda self: None
            try:
                dom = S.build()
            finally:
                dm.Domain._Domain__add_init, dm.Domain.clean = old
            c.prove('the region of the process is asked for the number of cells', and_(*[eq(raw(a), raw(b)) for a, b in zip(S.topo.asked, S.n)]))
            V = [len(S.V)]
            for d in range(S.dim):
                h, size = S.h[d], raw(S.size[d])
                full = add(size, 2 * h)
                for what, arr, off, cnt in (('coords_halo', dom.coords_halo[d], h, full), ('coords', dom.coords[d], 0, size),
                                            ('x_halo', getattr(dom, 'xyz'[d] + '_halo'), h, full), ('x', getattr(dom, 'xyz'[d]), 0, size)):
                    c.prove('number of points of %s' % what, eq(raw(arr.size), cnt))
                    i = c.fresh('i', 'I')
                    c.add(and_(ge(i, 0), lt(i, cnt)))
                    want = add(raw(S.min[d]), mul(add(real(add(raw(S.r0[d]), i)), half - off), raw(S.dx)))
                    prove_equal(c, 'position of the points of %s' % what, arr.at((i,)), want)
                c.prove('shape_halo', eq(raw(dom.shape_halo[d]), full))
                c.prove('shape_in', eq(raw(dom.shape_in[d]), size))
                for what, s in (('in_or_out', dom.in_or_out.shape), ('distance', dom.distance.shape[1:]), ('flag', dom.flag.shape[1:]), ('normal', dom.normal.shape[1:-1])):
                    c.prove('shape of %s' % what, len(s) == S.dim and eq(raw(s[d]), full))
                c.prove('shapes of the link arrays', [int(dom.distance.shape[0]), int(dom.flag.shape[0]), int(dom.normal.shape[0]), int(dom.normal.shape[-1])] == V * 3 + [S.dim])
                for what, (lo, hi), off in (('get_bounds', dom.get_bounds(), 0), ('get_bounds_halo', dom.get_bounds_halo(), h)):
                    first = add(raw(S.min[d]), mul(add(real(raw(S.r0[d])), half - off), raw(S.dx)))
                    last = add(raw(S.min[d]), mul(add(real(raw(S.r1[d])), -half + off), raw(S.dx)))
                    prove_equal(c, 'first corner of %s' % what, raw(lo[d]), first)
                    prove_equal(c, 'last corner of %s' % what, raw(hi[d]), last)
        return f

    def multiple(c):
        """any length: accepted only when the number of cells is within dx of an integer, which is then the number of cells"""
        dx, a, q = c.real('dx'), c.real('min0'), c.real('q')
        c.assume(dx > 0)
        c.assume(q >= 1)
        b = wrap(add(raw(a), mul(raw(q), raw(dx))))
        c.div_hints = [q]
        import pylbm.domain as dm
        from vc.core import floor
        k = floor(raw(q))
        fr = sub(raw(q), real(k))
        near = or_(eq(fr, 0), lt(fr, raw(dx)), lt(sub(1, fr), raw(dx)))

        def case(v):
            # a length of q cells
            Q = Fr(v['q'])
            return dict(dim=1, vels=[[0, 1, 2]], n=[int(Q)], dx=str(v['dx']), min=[str(v['min0'])], dir=0, off=str(Q - int(Q)))
        c.case(case)

        class Any:
            def get_region(self, n):
                self.n = n
                return [[0, n]]
        t = Any()
        old = dm.Domain._Domain__add_init, dm.Domain.clean
        dm.Domain._Domain__add_init = lambda self, label: None
        dm.Domain.clean = lambda self: None
        stopped = False
        try:
            build(dico(1, [[0, 1, 2]], [[a, b]], dx), t)
        except SystemExit:
            stopped = True
        finally:
            dm.Domain._Domain__add_init, dm.Domain.clean = old
        if stopped:
            c.prove('a multiple of the space step is accepted', implies(eq(fr, 0), False))
        else:
            c.prove('a box which is not a multiple is reported', near)
            c.prove('the number of cells is the nearest integer', le(abs_(sub(real(raw(t.n)), raw(q))), half))
    out = [('multiple of the space step', multiple, dict(functions=[D + 'create_coords'], budget=90))]
    for name, (dim, vels) in STENCILS.items():
        sides = [[(True, True)] * dim]
        if name in ('d1q3', 'd1q5', 'd2q9', 'd2q13', 'd3q19'):
            sides.append([(False, False)] * dim)
            sides.append([(True, False)] + [(False, True)] * (dim - 1))
        for s in sides:
            out.append(('coordinates %s %s' % (name, ''.join('|' if x else ':' for p in s for x in p)), coords(name, s), dict(functions=FN, budget=120, timeout=15)))
    return out
