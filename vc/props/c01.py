"""C01 velocity numbering"""


def check_case(case):
    from pylbm.stencil import Velocity
    names = ('vx', 'vy', 'vz')
    if 'v' in case:
        v = case['v']
        n = Velocity(**dict(zip(names, v))).num
        if int(n) != n or n < 0:
            return ('number', 'velocity %s has number %s' % (v, n))
        w = Velocity(dim=len(v), num=n).v
        if list(w) != list(v):
            return ('roundtrip', 'velocity %s has number %s, which is the velocity %s' % (v, n, w))
        if (n == 0) != all(x == 0 for x in v):
            return ('null', 'velocity %s has number %s' % (v, n))
        if case.get('dim') or True:
            u = Velocity(dim=len(v), **dict(zip(names, v)))
            if u.num != n or list(u.v) != list(v):
                return ('dim', 'velocity %s: number %s with dim given, %s without' % (v, u.num, n))
        if 'w' in case:
            m = Velocity(**dict(zip(names, case['w']))).num
            a, b = max(map(abs, v)), max(map(abs, case['w']))
            if (a < b and not n < m) or (b < a and not m < n) or (n == m) != (list(v) == list(case['w'])):
                return ('order', 'velocities %s and %s have numbers %s and %s' % (v, case['w'], n, m))
    if 'num' in case:
        n, dim = case['num'], case['dim']
        u = Velocity(dim=dim, num=n)
        v = u.v
        if len(v) != dim or any(x is None or int(x) != x for x in v):
            return ('vector', 'number %d in dimension %d is the velocity %s' % (n, dim, v))
        m = Velocity(**dict(zip(names, v))).num
        if m != n:
            return ('roundtrip', 'number %d in dimension %d is the velocity %s, whose number is %s' % (n, dim, v, m))
        if list(u.v_full) != list(v) + [0] * (3 - dim):
            return ('full', 'v_full of number %d is %s' % (n, u.v_full))
    return None


def cases(tier, rng):
    for v in range(-60, 61):
        yield dict(v=[v], w=[rng.randint(-60, 60)])
        yield dict(num=abs(v), dim=1)
    R = 9 if tier == 'quick' else 40
    for x in range(-R, R + 1):
        for y in range(-R, R + 1):
            yield dict(v=[x, y], w=[rng.randint(-R, R), rng.randint(-R, R)])
    for n in range((2 * R + 1) ** 2):
        yield dict(num=n, dim=2)
    R = 3 if tier == 'quick' else 6
    for x in range(-R, R + 1):
        for y in range(-R, R + 1):
            for z in range(-R, R + 1):
                yield dict(v=[x, y, z], w=[rng.randint(-R, R), rng.randint(-R, R), rng.randint(-R, R)])
    for n in range((2 * R + 1) ** 3):
        yield dict(num=n, dim=3)
    for _ in range(400 if tier == 'quick' else 5000):
        M = rng.choice([20, 300, 10**6])
        yield dict(v=[rng.randint(-M, M), rng.randint(-M, M)], w=[rng.randint(-M, M), rng.randint(-M, M)])
        yield dict(num=rng.randint(0, M * M), dim=2)
        yield dict(num=rng.randint(0, M), dim=1)
        yield dict(v=[rng.randint(-M, M)], w=[rng.randint(-M, M)])
    for _ in range(12 if tier == 'quick' else 60):
        M = 12
        yield dict(v=[rng.randint(-M, M) for _ in range(3)], w=[rng.randint(-M, M) for _ in range(3)])


def proofs(tier):
    from vc.core import raw, and_, or_, ge, le, eq, add, sub, mul, abs_, ite, lt, gt, mx, implies, not_, CTX, ne, wrap, real
    import z3

    def num1(x):
        return ite(gt(x, 0), sub(mul(2, x), 1), mul(-2, x))

    def one_num(c):
        from pylbm.stencil import Velocity
        x = c.int('x')
        c.case(lambda v: dict(v=[v['x']]))
        n = raw(Velocity(vx=x).num)
        c.prove('closed form 2|x| - (x > 0)', eq(n, num1(raw(x))))
        n2 = raw(Velocity(dim=1, vx=x).num)
        c.prove('same with the dimension given', eq(n2, n))

    def one_coord(c):
        from pylbm.stencil import Velocity
        n = c.int('n', lo=0)
        c.case(lambda v: dict(num=v['n'], dim=1))
        u = Velocity(dim=1, num=n)
        x = raw(u.vx)
        c.prove('number of the vector of n is n', eq(num1(x), raw(n)))
        c.prove('v_full pads with zeros', and_(eq(raw(u.v_full[0]), x), len(u.v_full) == 3, u.v_full[1] == 0, u.v_full[2] == 0))

    def one_lemmas(c):
        x, y = raw(c.int('x')), raw(c.int('y'))
        c.case(lambda v: dict(v=[v['x']], w=[v['y']]))
        c.prove('injective', implies(eq(num1(x), num1(y)), eq(x, y)))
        c.prove('monotone in the norm', implies(lt(abs_(x), abs_(y)), lt(num1(x), num1(y))))
        c.prove('non negative, 0 only for the null vector', and_(ge(num1(x), 0), implies(eq(num1(x), 0), eq(x, 0))))

    sq = lambda e: mul(e, e)

    def octant(c, form):
        """all non null vectors: (+-m, +-k), (+-k, +-m) with 0 <= k < m, and (+-m, +-m)"""
        a, b, sa, sb = form
        m = c.int('m', lo=1)
        k = c.int('k', lo=0)
        c.assume(k < m)
        val = {'m': m, 'k': k}
        x, y = sa * val[a], sb * val[b]
        c.case(lambda v: dict(v=[sa * v[a], sb * v[b]], w=[sa * v[a] + 1, sb * v[b]]))
        return m, x, y

    def roots(c, num, m):
        """root bounds of a number of the shell m: n = trunc((sqrt(num) + 1) / 2) = m"""
        s = CTX.sqrt(z3.simplify(z3.ToReal(num)))
        M = raw(m)
        c.lemma('lower root bound', ge(s, real(sub(mul(2, M), 1))))
        c.lemma('upper root bound', lt(s, real(add(mul(2, M), 1))))
        c.int_hints = [M]

    def two(form):
        """number of (x, y), then the vector of that number: exact inverse"""
        def f(c):
            from pylbm.stencil import Velocity
            m, x, y = octant(c, form)
            num = raw(Velocity(vx=x, vy=y).num)
            M = raw(m)
            c.lemma('number in the shell of its norm', and_(ge(num, sq(sub(mul(2, M), 1))), lt(num, sq(add(mul(2, M), 1)))))
            roots(c, num, m)
            w = Velocity(dim=2, num=wrap(num))
            c.prove('inverse', and_(eq(raw(w.vx), raw(x)), eq(raw(w.vy), raw(y))))
        return f

    def two_null(c):
        from pylbm.stencil import Velocity
        c.case(lambda v: dict(v=[0, 0]))
        c.prove('null vector has number 0', eq(raw(Velocity(vx=0, vy=0).num), 0))
        w = Velocity(dim=2, num=0)
        c.prove('number 0 is the null vector', and_(eq(raw(w.vx), 0), eq(raw(w.vy), 0)))
        x, y = raw(c.int('x')), raw(c.int('y'))
        m = mx(abs_(x), abs_(y))
        k = ite(eq(abs_(x), m), abs_(y), abs_(x))
        c.prove('the eight octants and diagonals cover the plane', implies(or_(ne(x, 0), ne(y, 0)), and_(ge(m, 1), ge(k, 0), le(k, m),
            or_(*[and_(eq(x, mul(sx, p)), eq(y, mul(sy, q))) for sx in (1, -1) for sy in (1, -1) for p, q in ((m, k), (k, m), (m, m))]))))

    def two_onto(r):
        """every number of the shell m, (2m-1)^2 + r + 8 j, has a vector whose number it is"""
        def f(c):
            from pylbm.stencil import Velocity
            m = c.int('m', lo=1)
            j = c.int('j', lo=0)
            c.assume(j < m)
            num = (2 * m - 1) * (2 * m - 1) + 8 * j + r
            c.case(lambda v: dict(num=(2 * v['m'] - 1) ** 2 + 8 * v['j'] + r, dim=2))
            N, M = raw(num), raw(m)
            c.lemma('number in the shell', and_(ge(N, sq(sub(mul(2, M), 1))), lt(N, sq(add(mul(2, M), 1)))))
            roots(c, N, m)
            w = Velocity(dim=2, num=num)
            u = Velocity(vx=w.vx, vy=w.vy)
            c.prove('number of the vector of n is n', eq(raw(u.num), N))
        return f

    def shells(c):
        """lemma: the shells [(2m-1)^2, (2m+1)^2) are increasing and cover the positive integers (induction step)"""
        a, b = raw(c.int('a', lo=0)), raw(c.int('b', lo=0))
        sq = lambda e: mul(e, e)
        c.prove('disjoint and increasing', implies(lt(a, b), le(sq(add(mul(2, a), 1)), sq(sub(mul(2, b), 1)))))
        n = raw(c.int('n', lo=1))
        m = raw(c.int('m', lo=1))
        inn = lambda n, m: and_(ge(n, sq(sub(mul(2, m), 1))), lt(n, sq(add(mul(2, m), 1))))
        c.prove('cover: base', inn(1, 1))
        c.prove('cover: step', implies(inn(n, m), or_(inn(add(n, 1), m), inn(add(n, 1), add(m, 1)))))
    F = ['pylbm.stencil.Velocity._set_num', 'pylbm.stencil.Velocity._set_coord', 'pylbm.stencil.Velocity.__init__', 'pylbm.stencil.cmp']
    out = [('1d number', one_num, dict(functions=F)), ('1d vector', one_coord, dict(functions=F + ['pylbm.stencil.Velocity.v_full'])),
           ('1d lemmas', one_lemmas, {}), ('2d null and cover', two_null, dict(functions=F)), ('2d shells', shells, {})]

    def all_two(c0):
        pass
    for a, b in (('m', 'k'), ('k', 'm'), ('m', 'm')):
        for sa in (1, -1):
            for sb in (1, -1):
                out.append(('2d number then vector (%s%s, %s%s)' % ('+-'[sa < 0], a, '+-'[sb < 0], b), two((a, b, sa, sb)), dict(functions=F, budget=60)))
    for r in range(8):
        out.append(('2d vector then number, residue %d' % r, two_onto(r), dict(functions=F, budget=60)))
    return out
