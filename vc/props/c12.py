"""C12 walls of the box: distance, label and normal of the links"""
import itertools
from fractions import Fraction as Fr


def links(v, x, n, label):
    """sides of the box met by the displacement v from the interior point x: (t, label, direction, sign)"""
    out = []
    for d, s in enumerate(v):
        if s < 0 and x[d] + s < 0:
            out.append((Fr(2 * x[d] + 1, 2 * -s), label[2 * d], d, -1))
        if s > 0 and x[d] + s > n[d] - 1:
            out.append((Fr(2 * (n[d] - 1 - x[d]) + 1, 2 * s), label[2 * d + 1], d, 1))
    return out


def check_case(case):
    import numpy as np
    import pylbm
    from vc.dom import dico, velocities, Topo, build
    dim, n, label = case['dim'], case['n'], case['label']
    dx = .25
    V = velocities(dim, case['vels'])
    h = [max(abs(v[d]) for v in V) for d in range(dim)]
    dd = dico(dim, case['vels'], [[0., a * dx] for a in n], dx, label)
    if case.get('region'):
        # part of the box owned by one process
        reg = case['region']
        dom = build(dd, Topo(reg))
        n = [b - a for a, b in reg]
        lab = [(-2 if (reg[i // 2][i % 2] != (0 if i % 2 == 0 else case['n'][i // 2])) else l) for i, l in enumerate(label)]
    else:
        dom = pylbm.Domain(dd)
        lab = label
    U = list(zip(*[np.asarray(getattr(dom.stencil, 'uv' + a)).tolist() for a in 'xyz'[:dim]]))
    inner = tuple(slice(a, a + m) for a, m in zip(h, n))
    io = np.full(dom.in_or_out.shape, -1.)
    io[inner] = 999
    if not np.array_equal(dom.in_or_out, io):
        return ('in_or_out', 'in_or_out does not separate the box from its halo (n=%s halo=%s)' % (n, h))
    for k, v in enumerate(U):
        dist, flag, normal = np.full(io.shape, 999.), np.full(io.shape, 999), np.zeros(io.shape + (dim,))
        for x in itertools.product(*[range(a) for a in n]):
            L = [l for l in links(v, x, n, lab) if l[1] != -2]
            L = [l for l in L if l[1] != -1] or L
            p = tuple(a + b for a, b in zip(x, h))
            t = min([l[0] for l in L], default=999)
            where = 'velocity %s from the point %s of a box of %s cells, labels %s' % (v, x, n, lab)
            if abs(dom.distance[(k,) + p] - float(t)) > 1e-12:
                return ('distance', '%s: distance %s instead of %s' % (where, dom.distance[(k,) + p], t))
            ok = [l for l in L if l[0] == t]
            nv = list(dom.normal[(k,) + p])
            if ok and not any(dom.flag[(k,) + p] == l[1] and nv == [l[3] if e == l[2] else 0 for e in range(dim)] for l in ok):
                return ('label', '%s: label %s, normal %s instead of %s' % (where, dom.flag[(k,) + p], nv, [(l[1], 'xyz'[l[2]], l[3]) for l in ok]))
            if not ok and (dom.flag[(k,) + p] != 999 or any(nv)):
                return ('default', '%s: label %s, normal %s on a link which stays in the box' % (where, dom.flag[(k,) + p], nv))
            dist[p], flag[p], normal[p] = dom.distance[(k,) + p], dom.flag[(k,) + p], dom.normal[(k,) + p]
        for what, a, b in (('distance', dom.distance[k], dist), ('label', dom.flag[k], flag), ('normal', dom.normal[k], normal)):
            if not np.array_equal(a, b):
                return ('halo', 'velocity %s: %s set on a point of the halo (n=%s)' % (v, what, n))
    return None


def cases(tier, rng):
    from vc.dom import STENCILS, velocities
    for name, (dim, vels) in STENCILS.items():
        n = [7, 5, 6][:dim]
        yield dict(dim=dim, vels=vels, n=n, label=[3, 7, 1, 2, 4, 5][:2 * dim])
        if dim < 3:
            for per in itertools.product((0, 1), repeat=2 * dim):
                if any(per):
                    yield dict(dim=dim, vels=vels, n=n, label=[-1 if p else i for i, p in enumerate(per)])
    while True:
        dim, vels = STENCILS[rng.choice(list(STENCILS))]
        V = velocities(dim, vels)
        h = [max(abs(v[d]) for v in V) for d in range(dim)]
        n = [max(rng.randint(1, 8 if dim < 3 else 4), a) for a in h]
        c = dict(dim=dim, vels=vels, n=n, label=[rng.choice([-1, 0, 1, 2, 3]) for _ in range(2 * dim)])
        if rng.random() < .3:
            n = [a + 6 for a in n]
            lo = [rng.randint(0, m - max(a, 1)) for m, a in zip(n, h)]
            c['n'] = n
            c['region'] = [[a, rng.randint(a + max(b, 1), m)] for a, b, m in zip(lo, h, n)]
        yield c


def proofs(tier):
    from vc.core import raw, add, sub, mul, eq, ne, ge, gt, lt, le, and_, or_, not_, implies, real, div, ite
    from vc.dom import STENCILS, SymDomain
    D = 'pylbm.domain.Domain.'
    FN = [D + '_Domain__add_init', D + '__init__', D + 'clean', D + 'create_coords', D + 'shape_halo', 'pylbm.geometry.Geometry.__init__', 'pylbm.geometry.get_box']

    def walls(name, sides, per):
        def f(c):
            S = SymDomain(c, name, sides, labels=False)
            dim, n = S.dim, [raw(s) for s in S.size]
            # labels: periodic (-1) or any wall label but 999, the value of the links without wall
            S.label = []
            for i in range(2 * dim):
                if per[i]:
                    S.label.append(-1)
                else:
                    l = c.int('label%d' % i, lo=0)
                    c.assume(l != 999)
                    S.label.append(l)
            x = [c.int('x%d' % d, lo=0) for d in range(dim)]
            for d in range(dim):
                c.assume(x[d] < S.size[d])
            y = [c.int('y%d' % d, lo=0) for d in range(dim)]
            for d in range(dim):
                c.assume(y[d] < S.size[d] + 2 * S.h[d])

            def case(v):
                # the same box, cut around the point
                reg = []
                n = []
                for d in range(dim):
                    m = int(v['n%d' % d])
                    a = 0 if S.sides[d][0] else int(v['r%d0' % d])
                    b = m if S.sides[d][1] else int(v['r%d1' % d])
                    size = min(b - a, 8)
                    a0 = 0 if S.sides[d][0] else 2
                    reg.append([a0, a0 + size])
                    n.append(a0 + size + (0 if S.sides[d][1] else 2))
                r = dict(dim=dim, vels=S.vels, n=n, label=[-1 if per[i] else min(int(v['label%d' % i]), 60) for i in range(2 * dim)])
                if any(not s for p in S.sides for s in p):
                    r['region'] = reg
                return r
            c.case(case)
            dom = S.build()
            X = [raw(a) for a in x]
            P = [add(a, h) for a, h in zip(X, S.h)]
            Y = [raw(a) for a in y]
            lab = [raw(l) if s else -2 for l, s in zip(S.label, [s for p in S.sides for s in p])]
            st = dom.stencil
            for k in range(len(S.V)):
                v = [int(a[k]) for a in (st.uvx, st.uvy, st.uvz)[:dim]]
                walls_, perio = [], []
                for d in range(dim):
                    s = v[d]
                    if s < 0 and lab[2 * d] != -2 if isinstance(lab[2 * d], int) else s < 0:
                        w = (lt(add(X[d], s), 0), div(add(real(X[d]), Fr(1, 2)), -s), lab[2 * d], d, -1)
                        (perio if per[2 * d] else walls_).append(w)
                    if s > 0 and (lab[2 * d + 1] != -2 if isinstance(lab[2 * d + 1], int) else True):
                        w = (gt(add(X[d], s), sub(n[d], 1)), div(add(sub(real(n[d]), real(X[d])), Fr(-1, 2)), s), lab[2 * d + 1], d, 1)
                        (perio if per[2 * d + 1] else walls_).append(w)
                dist = dom.distance.at([k] + P)
                flag = dom.flag.at([k] + P)
                nv = [dom.normal.at([k] + P + [e]) for e in range(dim)]

                def first(L, w):
                    """w is met, and not after another one of L"""
                    return and_(w[0], *[implies(o[0], le(w[1], o[1])) for o in L if o is not w])

                def is_(w):
                    return and_(eq(dist, w[1]), eq(flag, w[2]), *[eq(nv[e], w[4] if e == w[3] else 0) for e in range(dim)])

                def dist_is(w):
                    return eq(dist, w[1])
                nowall = and_(*[not_(w[0]) for w in walls_])
                tag = str(tuple(v))
                for w in walls_:
                    c.prove('distance of the first wall %s' % tag, implies(first(walls_, w), dist_is(w)))
                if walls_:
                    c.prove('label and normal of a first wall %s' % tag, or_(nowall, *[and_(first(walls_, w), is_(w)) for w in walls_]))
                for w in perio:
                    c.prove('distance of the first periodic border %s' % tag, implies(and_(nowall, first(perio, w)), dist_is(w)))
                if perio:
                    c.prove('label and normal of a first periodic border %s' % tag, implies(nowall, or_(and_(*[not_(w[0]) for w in perio]), *[and_(first(perio, w), is_(w)) for w in perio])))
                c.prove('default on a link staying in the box %s' % tag, implies(and_(nowall, *[not_(w[0]) for w in perio]),
                        and_(eq(dist, 999), eq(flag, 999), *[eq(a, 0) for a in nv])))
                out = or_(*[or_(lt(b, h), ge(b, add(h, m))) for b, h, m in zip(Y, S.h, n)])
                c.prove('default on the points of the halo %s' % tag, implies(out, and_(eq(dom.distance.at([k] + Y), 999), eq(dom.flag.at([k] + Y), 999),
                        *[eq(dom.normal.at([k] + Y + [e]), 0) for e in range(dim)])))
            out = or_(*[or_(lt(b, h), ge(b, add(h, m))) for b, h, m in zip(Y, S.h, n)])
            c.prove('in_or_out', eq(dom.in_or_out.at(Y), ite(out, -1, 999)))
        return f
    out = []
    for name, (dim, vels) in STENCILS.items():
        masks = [[0] * 2 * dim, [1] * 2 * dim, [0, 0, 1, 1, 0, 1][:2 * dim], [1, 1, 0, 0, 1, 1][:2 * dim], [1, 0, 0, 1, 0, 0][:2 * dim]]
        if dim < 3:
            masks = [list(m) for m in itertools.product((0, 1), repeat=2 * dim)]
        whole = [(True, True)] * dim
        todo = [(whole, m) for m in (masks if tier == 'thorough' or dim < 3 and name in ('d1q3', 'd2q9', 'd2q13') else masks[:1] + masks[-2:])]
        todo += [(s, m) for s in ([(False, True)] * dim, [(True, False)] + [(False, True)] * (dim - 1)) for m in (masks[0], masks[-2])]
        for sides, m in todo:
            out.append(('walls %s %s %s' % (name, ''.join('|' if x else ':' for p in sides for x in p), ''.join('wp'[x] for x in m)), walls(name, sides, m),
                        dict(functions=FN, budget=200, timeout=15)))
    return out
