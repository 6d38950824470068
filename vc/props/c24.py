"""C24 hsl_to_rgb"""
from fractions import Fraction as Fr


def ref(h, s, l):
    """textbook conversion: chroma / sector form"""
    C = (1 - abs(2 * l - 1)) * s
    H = (h % 1) * 6
    X = C * (1 - abs(H % 2 - 1))
    k = int(H)
    r, g, b = [(C, X, 0), (X, C, 0), (0, C, X), (0, X, C), (X, 0, C), (C, 0, X)][k % 6]
    m = l - C / 2
    return r + m, g + m, b + m


def check_case(case):
    from pylbm.utils import hsl_to_rgb
    h, s, l = [Fr(*case[k]) for k in 'hsl']
    out = hsl_to_rgb(float(h), float(s), float(l))
    exp = ref(h, s, l)
    for a, b in zip(out, exp):
        if not (-1e-12 <= a <= 1 + 1e-12):
            return ('range', 'hsl_to_rgb(%s, %s, %s) = %s' % (h, s, l, out))
        if abs(a - float(b)) > 1e-9:
            return ('value', 'hsl_to_rgb(%s, %s, %s) = %s, expected %s' % (h, s, l, out, [float(x) for x in exp]))
    return None


def cases(tier, rng):
    for h in range(0, 13):
        for s in (0, 1, 2):
            for l in (0, 1, 2, 3, 4):
                yield dict(h=[h, 12], s=[s, 2], l=[l, 4])
    for _ in range(500 if tier == 'quick' else 20000):
        d = rng.choice([7, 100, 997, 360])
        yield dict(h=[rng.randint(0, d), d], s=[rng.randint(0, d), d], l=[rng.randint(0, d), d])


def proofs(tier):
    from vc.core import raw, and_, ge, le, eq, add, sub, mul, abs_, ite, lt, mod, implies, floor

    def p(c):
        from pylbm.utils import hsl_to_rgb
        h, s, l = (c.real(n, 0, 1) for n in 'hsl')
        c.case(lambda v: {k: [Fr(v[k]).numerator, Fr(v[k]).denominator] for k in 'hsl'})
        rgb = [raw(x) for x in hsl_to_rgb(h, s, l)]
        H, S, L = raw(h), raw(s), raw(l)
        for n, x in zip('rgb', rgb):
            c.prove('%s in [0, 1]' % n, and_(ge(x, 0), le(x, 1)))
            c.prove('%s: no saturation is grey' % n, implies(eq(S, 0), eq(x, L)))
            c.prove('%s: black' % n, implies(eq(L, 0), eq(x, 0)))
            c.prove('%s: white' % n, implies(eq(L, 1), eq(x, 1)))
        # reference conversion
        C = mul(sub(1, abs_(sub(mul(2, L), 1))), S)
        H6 = mul(ite(eq(H, 1), 0, H), 6)
        X = mul(C, sub(1, abs_(sub(sub(H6, mul(2, ite(lt(H6, 2), 0, ite(lt(H6, 4), 1, 2)))), 1))))
        m = sub(L, mul(C, Fr(1, 2)))
        secs = [(C, X, 0), (X, C, 0), (0, C, X), (0, X, C), (X, 0, C), (C, 0, X)]
        for j, n in enumerate('rgb'):
            e = secs[5][j]
            for k in range(4, -1, -1):
                e = ite(lt(H6, k + 1), secs[k][j], e)
            c.prove('%s is the standard conversion' % n, eq(rgb[j], add(e, m)))
    return [('hsl_to_rgb', p, dict(functions=['pylbm.utils.hsl_to_rgb'], budget=120))]
