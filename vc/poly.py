"""Polynomial normal form of engine terms: decides equalities of polynomials in uninterpreted atoms, with a tolerance on
the coefficients that accounts for the rounding of float constants printed with 15 digits."""
from fractions import Fraction as Fr
import time
import z3
from . import core as K

TOL = Fr(1, 10**12)


class NotPoly(Exception):
    pass


def poly(e, cache, limit=20000):
    if not K.is_z3(e):
        f = Fr(e)
        return {(): f} if f else {}
    k = e.get_id()
    if k in cache:
        return cache[k][0]
    r = _poly(e, cache, limit)
    if len(r) > limit:
        raise NotPoly('too many monomials')
    cache[k] = (r, e)
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, k in n:
        d[a] = d.get(a, 0) + k
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def pmul(a, b, limit):
    if len(a) * len(b) > limit * 4:
        raise NotPoly('too many monomials')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def _atom(e, cache, limit=20000):
    if e.num_args() and z3.is_real(e) and e.decl().name().startswith('uf_'):
        # congruence: applications of a function to the same polynomials are the same atom
        key = (e.decl().name(),) + tuple(frozenset(poly(x, cache, limit).items()) for x in e.children())
        t = cache.setdefault('apps', {})
        if key in t:
            return {((t[key], 1),): Fr(1)}
        t[key] = e.get_id()
        cache.setdefault('atoms', {})[e.get_id()] = e
        return {((e.get_id(), 1),): Fr(1)}
    s = z3.simplify(e)
    i = s.get_id()
    cache.setdefault('atoms', {})[i] = s
    return {((i, 1),): Fr(1)}


def _poly(e, cache, limit):
    if z3.is_int_value(e) or z3.is_rational_value(e):
        f = Fr(e.as_long()) if z3.is_int_value(e) else Fr(e.numerator_as_long(), e.denominator_as_long())
        return {(): f} if f else {}
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        r = {}
        for x in ch:
            r = padd(r, poly(x, cache, limit))
        return r
    if d == z3.Z3_OP_SUB:
        r = poly(ch[0], cache, limit)
        for x in ch[1:]:
            r = padd(r, poly(x, cache, limit), -1)
        return r
    if d == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in poly(ch[0], cache, limit).items()}
    if d == z3.Z3_OP_MUL:
        r = {(): Fr(1)}
        for x in ch:
            r = pmul(r, poly(x, cache, limit), limit)
        return r
    if d == z3.Z3_OP_TO_REAL:
        return poly(ch[0], cache, limit)
    if d == z3.Z3_OP_DIV:
        b = poly(ch[1], cache, limit)
        if set(b) == {()}:
            return {m: c / b[()] for m, c in poly(ch[0], cache, limit).items()}
        if len(b) == 1:
            (m, x), = b.items()
            if all(a in cache.get('nonzero', ()) for a, _ in m):
                return pmul(poly(ch[0], cache, limit), {tuple((a, -k) for a, k in m): 1 / x}, limit)
        # 1 / b as an atom, the same for proportional polynomials
        lead = b[min(b)]
        key = ('inv', frozenset((m, c / lead) for m, c in b.items()))
        t = cache.setdefault('apps', {})
        if key not in t:
            t[key] = -1 - len(t)
        return pmul(poly(ch[0], cache, limit), {((t[key], 1),): 1 / lead}, limit)
    if d == z3.Z3_OP_POWER:
        n = z3.simplify(ch[1])
        if (z3.is_int_value(n) or z3.is_rational_value(n)):
            q = Fr(n.as_fraction() if z3.is_rational_value(n) else n.as_long())
            if q.denominator == 1 and 0 <= q <= 20:
                r = {(): Fr(1)}
                for _ in range(int(q)):
                    r = pmul(r, poly(ch[0], cache, limit), limit)
                return r
        raise NotPoly('power')
    if d == z3.Z3_OP_ITE:
        raise NotPoly('conditional')
    if d in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ARRAY_MAP) or z3.is_const(e):
        return _atom(e, cache, limit)
    raise NotPoly(str(e.decl()))


def compare(a, b, cache=None):
    """0: equal as polynomials, 1: equal up to the rounding of the coefficients, None otherwise"""
    cache = {} if cache is None else cache
    try:
        p, q = poly(a, cache), poly(b, cache)
    except NotPoly:
        return None
    d = padd(p, q, -1)
    if not d:
        return 0
    sc = max([abs(c) for c in p.values()] + [abs(c) for c in q.values()] + [Fr(1)])
    return 1 if max(abs(c) for c in d.values()) <= TOL * sc else None


def resolve(c, e, rounds=4):
    """replace the conditions of the conditionals of e that are decided by the assumptions of the path"""
    for _ in range(rounds):
        if not K.is_z3(e):
            return e
        conds, seen, st = {}, set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                conds[x.arg(0).get_id()] = x.arg(0)
            st.extend(x.children())
        if not conds:
            return e
        sub = []
        for g in conds.values():
            if c.entails(g):
                sub.append((g, z3.BoolVal(True)))
            elif c.entails(z3.Not(g)):
                sub.append((g, z3.BoolVal(False)))
        if not sub:
            return e
        e = z3.simplify(z3.substitute(e, *sub))
    return e


def prove_equal(c, name, a, b, cond=True, timeout=None):
    """obligation cond => a = b, first by polynomial normal form"""
    a, b = K.raw(a), K.raw(b)
    t0 = time.time()
    if not (isinstance(a, bool) or isinstance(b, bool)):
        nz = lambda: {'nonzero': getattr(c, 'nonzero', ())}
        r = compare(a, b, nz())
        if r is None:
            a, b = resolve(c, a), resolve(c, b)
            r = compare(a, b, nz())
        if r is not None:
            c.obligations.append(K.Obligation(name, 'proved', '' if r == 0 else 'up to the rounding of printed constants', None, time.time() - t0,
                                              'polynomial normal form' + (' (rounded constants)' if r else '')))
            return True
    return c.prove(name, K.implies(cond, K.eq(a, b)), timeout=timeout)


PRIME = (1 << 61) - 1


class Evaluator:
    """values of terms at a random point of the atoms, modulo a prime (used to guess identities, which are then checked)"""
    def __init__(self, seed):
        import random
        self.rng = random.Random(seed)
        self.memo, self.atoms, self.keep = {}, {}, []

    def __call__(self, e):
        if not K.is_z3(e):
            f = Fr(e)
            return f.numerator * pow(f.denominator, -1, PRIME) % PRIME
        i = e.get_id()
        if i not in self.memo:
            self.memo[i] = self._ev(e)
            self.keep.append(e)
        return self.memo[i]

    def atom(self, key):
        if key not in self.atoms:
            self.atoms[key] = self.rng.randrange(1, PRIME)
        return self.atoms[key]

    def _ev(self, e):
        if z3.is_int_value(e):
            return e.as_long() % PRIME
        if z3.is_rational_value(e):
            return e.numerator_as_long() * pow(e.denominator_as_long(), -1, PRIME) % PRIME
        d, ch = e.decl().kind(), e.children()
        if d == z3.Z3_OP_ADD:
            return sum(self(x) for x in ch) % PRIME
        if d == z3.Z3_OP_SUB:
            return (self(ch[0]) - sum(self(x) for x in ch[1:])) % PRIME
        if d == z3.Z3_OP_UMINUS:
            return -self(ch[0]) % PRIME
        if d == z3.Z3_OP_MUL:
            r = 1
            for x in ch:
                r = r * self(x) % PRIME
            return r
        if d == z3.Z3_OP_DIV and z3.is_real(e):
            b = self(ch[1])
            return self(ch[0]) * pow(b, -1, PRIME) % PRIME if b else self.atom(('div', e.get_id()))
        if d == z3.Z3_OP_TO_REAL:
            return self(ch[0])
        if d == z3.Z3_OP_POWER:
            n = z3.simplify(ch[1])
            if z3.is_rational_value(n) or z3.is_int_value(n):
                f = Fr(n.as_fraction() if z3.is_rational_value(n) else n.as_long())
                if f.denominator == 1 and 0 <= f <= 20:
                    return pow(self(ch[0]), int(f), PRIME)
        if ch and d == z3.Z3_OP_UNINTERPRETED and all(z3.is_arith(x) for x in ch):
            return self.atom((e.decl().name(),) + tuple(self(x) for x in ch))
        return self.atom(e.get_id())


def ratio(e, cache, limit=20000):
    """(numerator, denominator) polynomials of a rational term; denominators are taken non zero"""
    k = ('ratio', e.get_id()) if K.is_z3(e) else None
    if k in cache:
        return cache[k][0]
    one = {(): Fr(1)}
    if not K.is_z3(e):
        return poly(e, cache, limit), one
    d, ch = e.decl().kind(), e.children()

    def plus(a, b, s=1):
        if a[1] == b[1]:
            return padd(a[0], b[0], s), a[1]
        return padd(pmul(a[0], b[1], limit), pmul(b[0], a[1], limit), s), pmul(a[1], b[1], limit)
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = ratio(ch[0], cache, limit)
        for x in ch[1:]:
            r = plus(r, ratio(x, cache, limit), 1 if d == z3.Z3_OP_ADD else -1)
    elif d == z3.Z3_OP_UMINUS:
        n, q = ratio(ch[0], cache, limit)
        r = {m: -c for m, c in n.items()}, q
    elif d == z3.Z3_OP_MUL:
        r = one, one
        for x in ch:
            n, q = ratio(x, cache, limit)
            r = pmul(r[0], n, limit), pmul(r[1], q, limit)
    elif d == z3.Z3_OP_DIV and z3.is_real(e):
        n, q = ratio(ch[0], cache, limit)
        n2, q2 = ratio(ch[1], cache, limit)
        if not n2:
            raise NotPoly('division by 0')
        r = pmul(n, q2, limit), pmul(q, n2, limit)
    elif d == z3.Z3_OP_ITE:
        r = _atom(e, cache, limit), one
    else:
        r = _poly(e, cache, limit), one
    if len(r[0]) > limit or len(r[1]) > limit:
        raise NotPoly('too many monomials')
    cache[k] = (r, e)
    return r


class Cut:
    """Generalisation of an obligation: every maximal term (or side of a comparison) which is an affine function k p + k0 of
    one of the given polynomials or rational functions p is replaced by k x + k0 with a variable x standing for p. What is proved
    for all values of the variables holds for the terms. Assumptions that mention other symbols than the goal's are dropped."""
    def __init__(self, c, only=True):
        self.cache = {}
        self.table = []
        self.memo = {}
        self.vars = []
        self.only = only
        self.c = c
        self.ev = [Evaluator(k) for k in range(3)]
        self.opaque, self.keep = set(), []

    def var(self, name, term):
        """variable standing for the term"""
        t = K.raw(term)
        if not K.is_z3(t):
            return t
        t = K.z(K.real(t))
        vals = [ev(t) for ev in self.ev]
        if vals[0] == vals[1] == vals[2]:
            x = self.match(t)
            if x is not None:
                return K.norm(z3.simplify(x))
        for x, t2, v2 in self.table:
            if v2 == vals and self.same(t, t2, Fr(1), Fr(0)):
                return x
        x = z3.FreshReal('cut_' + name)
        self.table.append((x, t, vals))
        self.vars.append(x)
        self.memo.clear()
        return x

    def hide(self, *terms):
        """symbols of definitions which are kept arbitrary in the obligations"""
        self.opaque |= {K.z(K.raw(x)).get_id() for x in terms}
        self.keep += [K.z(K.raw(x)) for x in terms]

    def hide_below(self, term):
        """keep the definition of the named value, hide those of the values it is made of"""
        t = K.z(K.raw(term))
        d = self.c.letdefs.get(t.get_id())
        if d is not None:
            self.opaque |= consts(d[1])

    def same(self, e, t, k, k0):
        """e = k t + k0 as rational functions"""
        try:
            a, b = ratio(e, self.cache)
            n, d = ratio(t, self.cache) if t is not None else ({}, {(): Fr(1)})
            n = padd({m: c * k for m, c in n.items()}, {m: c * k0 for m, c in d.items()})
            return not padd(a, n, -1) if b == d else not padd(pmul(a, d, 20000), pmul(n, b, 20000), -1)
        except NotPoly:
            return False

    @staticmethod
    def guess(x):
        """small fraction equal to x modulo the prime"""
        a, b, u, v = PRIME, x % PRIME, 0, 1
        while b * b > PRIME // 4:
            q = a // b
            a, b, u, v = b, a - q * b, v, u - q * v
        return Fr(b, v) if v and abs(v) * abs(b) < 1 << 58 else None

    def match(self, e):
        v = [ev(e) for ev in self.ev]
        if v[0] == v[1] == v[2]:
            k0 = self.guess(v[0])
            if k0 is not None and self.same(e, None, Fr(0), k0):
                return K.z(K.real(k0))
            return None
        for x, t, s in self.table:
            if s[0] == s[1]:
                continue
            k = (v[0] - v[1]) * pow(s[0] - s[1], -1, PRIME) % PRIME
            k0 = (v[0] - k * s[0]) % PRIME
            if (k * s[2] + k0 - v[2]) % PRIME:
                continue
            k, k0 = self.guess(k), self.guess(k0)
            if k is None or k0 is None or not self.same(e, t, k, k0):
                continue
            return K.z(K.add(K.mul(K.real(k), x), K.real(k0)))
        return None

    def rw(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self._rw(e)
        self.memo[i] = (r, e)
        return r

    def _rw(self, e):
        ch = e.children()
        if any(e is x or e.eq(x) for x in self.vars):
            return e
        if not ch:
            m = self.match(e) if z3.is_real(e) else None
            return e if m is None else m
        d = e.decl().kind()
        if d in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_real(ch[0]):
            m = self.match(ch[0] - ch[1])
            if m is not None:
                o = K.z(Fr(0))
                return {z3.Z3_OP_LE: m <= o, z3.Z3_OP_GE: m >= o, z3.Z3_OP_LT: m < o, z3.Z3_OP_GT: m > o, z3.Z3_OP_EQ: m == o, z3.Z3_OP_DISTINCT: m != o}[d]
        elif z3.is_real(e):
            m = self.match(e)
            if m is not None:
                return m
            if d == z3.Z3_OP_ADD and len(ch) > 2:
                # the part of the sum without conditional terms
                named = lambda x: K.has_ite(x) or consts(x) & self.c.letdefs.keys() or has_div(x)
                plain = [x for x in ch if not named(x)]
                rest = [x for x in ch if named(x)]
                if 1 < len(plain) and rest:
                    m = self.match(z3.Sum(plain))
                    if m is not None:
                        return z3.Sum([m] + [self.rw(x) for x in rest])
        return e.decl()(*[self.rw(x) for x in ch])

    def problem(self, pc, facts, goal):
        g = self.rw(goal)
        fs = [self.rw(f) for f in facts]
        # definitions of the named values
        defs = {i: x == t for i, (x, t) in self.c.letdefs.items()}
        own = {d.get_id() for d in defs.values()}
        if defs:
            for a, r in self.c.sqrts.values():
                defs[r.get_id()] = z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))
        st, seen = [g] + fs, set()
        while st and defs:
            for i in consts(st.pop()):
                if i in defs and i not in seen and i not in self.opaque:
                    seen.add(i)
                    fs.append(self.rw(defs[i]))
                    st.append(fs[-1])
        ok = consts(g) | {x.get_id() for x in self.vars}
        for f in fs:
            ok |= consts(f)
        out = list(fs)
        for a in pc:
            if a.get_id() in own:
                continue
            b = self.rw(a)
            if consts(b) <= ok:
                out.append(b)
        return out, g


def has_div(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
            return True
        st.extend(x.children())
    return False


def consts(e):
    r, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(x.get_id())
        st.extend(x.children())
    return r
