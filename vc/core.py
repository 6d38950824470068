"""Symbolic values, path exploration and obligations.

A *proof procedure* is a Python function ``p(c)`` which creates symbolic inputs, states preconditions with
``c.assume``, calls the real (instrumented) code of /repo and states postconditions with ``c.prove``.  It is
re-executed once per feasible path; every obligation is discharged on every path where it arises.

Mathematical reading: Python ints are exact (as in CPython); floats are read as real numbers.
"""
import os
import sys
import sys, time, itertools, traceback
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Unsupported(Exception):
    """the engine cannot execute this construct symbolically: the proof is undecided."""


class PathEnd(BaseException):
    """the current path stops (infeasible, or cut by a loop invariant)."""


class ModeledError(Exception):
    """an exception that the real program would raise on this path (modelled by the engine)."""


# ------------------------------------------------------------------ raw values
# raw value: python bool / int / Fraction, or a z3 expression (Int, Real, Bool)

def rationalize(f):
    """Reading of a float constant as a real: the nearest simple rational if there is one
    within rounding, its shortest decimal form otherwise."""
    fr = Fraction(f).limit_denominator(100000)
    if fr != 0 and abs(float(fr) - f) <= 4e-16 * abs(f):
        return fr
    if f == 0:
        return Fraction(0)
    return Fraction(repr(float(f)))


def raw(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, (bool, int, Fraction)):
        return x
    if isinstance(x, z3.ExprRef):
        return x
    import numpy as np
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf constant')
        return rationalize(f)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return raw(x.item())
    try:
        import sympy
        if isinstance(x, sympy.Rational):
            return Fraction(int(x.p), int(x.q)) if x.q != 1 else int(x.p)
        if isinstance(x, sympy.Float):
            return rationalize(float(x))
    except ImportError:
        pass
    raise Unsupported('no symbolic reading of %r' % type(x))


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def kind(x):
    """'B', 'I' or 'R'"""
    if isinstance(x, bool):
        return 'B'
    if isinstance(x, int):
        return 'I'
    if isinstance(x, Fraction):
        return 'R'
    if z3.is_bool(x):
        return 'B'
    return 'I' if z3.is_int(x) else 'R'


def z(x):
    """raw -> z3"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def num(x):
    """booleans as 0/1 integers"""
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def real(x):
    x = num(x)
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def norm(t):
    """fold a z3 numeral back to python"""
    if is_z3(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.as_fraction()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def both(a, b):
    a, b = num(a), num(b)
    if kind(a) == 'R' or kind(b) == 'R':
        return real(a), real(b)
    return a, b


def conc(a, b):
    return not is_z3(a) and not is_z3(b)


def simp(t):
    return norm(z3.simplify(t)) if is_z3(t) else t


def add(a, b):
    a, b = both(a, b)
    if conc(a, b):
        return a + b
    if not is_z3(a) and a == 0:
        return b
    if not is_z3(b) and b == 0:
        return a
    r = z(a) + z(b)
    return simp(r) if kind(a) == 'I' else r


def neg(a):
    a = num(a)
    if not is_z3(a):
        return -a
    return simp(-a) if kind(a) == 'I' else -a


def sub(a, b):
    a, b = both(a, b)
    if conc(a, b):
        return a - b
    if not is_z3(b) and b == 0:
        return a
    r = z(a) - z(b)
    return simp(r) if kind(a) == 'I' else r


def mul(a, b):
    a, b = both(a, b)
    if conc(a, b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if not is_z3(p):
            if p == 0:
                return p
            if p == 1:
                return q
    r = z(a) * z(b)
    return simp(r) if kind(a) == 'I' else r


def div(a, b):
    a, b = real(a), real(b)
    if conc(a, b):
        if b == 0:
            raise Unsupported('division by the constant 0')
        return a / b
    if not is_z3(b):
        if b == 0:
            raise Unsupported('division by the constant 0')
        return mul(a, 1 / b)
    if CTX.div_hints:
        from .poly import compare
        for h in CTX.div_hints:     # a = h b: the quotient is h (b is not 0 where a division is defined)
            if compare(a, mul(real(raw(h)), b)) == 0:
                return real(raw(h))
    return z(a) / z(b)


def floor(a):
    a = num(a)
    if kind(a) == 'I':
        return a
    if not is_z3(a):
        return a.numerator // a.denominator
    return simp(z3.ToInt(a))


def trunc(a):
    a = num(a)
    if kind(a) == 'I':
        return a
    if not is_z3(a):
        return int(a)
    return ite(ge(a, 0), floor(a), neg(floor(neg(a))))


def floordiv(a, b):
    a, b = both(a, b)
    if conc(a, b):
        return a // b if kind(a) == 'I' else Fraction(a // b)
    if kind(a) == 'I':
        if not is_z3(b):
            return simp(z(a) / z(b)) if b > 0 else simp((-z(a)) / z(-b))
        return ite(b > 0, z(a) / b, (-z(a)) / (-b))
    return real(floor(div(a, b)))


def mod(a, b):
    a, b = both(a, b)
    if conc(a, b):
        return a % b
    if kind(a) == 'I' and not is_z3(b) and b > 0:
        return simp(z(a) % z(b))
    return sub(a, mul(b, floordiv(a, b)))


def ite_pc(c, a, b):
    d = CTX.entails(c)
    return a if d is True else b if d is False else ite(c, a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if kind(a) != kind(b):
        a, b = both(a, b)
    if conc(a, b) and a == b and kind(a) == kind(b):
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    if kind(a) == 'B':
        if a is True and b is False:
            return c
        if a is False and b is True:
            return z3.Not(c)
        if a is True:
            return z3.Or(c, z(b))
        if b is False:
            return z3.And(c, z(a))
        if a is False:
            return z3.And(z3.Not(c), z(b))
        if b is True:
            return z3.Or(z3.Not(c), z(a))
    return z3.If(c, z(a), z(b))


def _cmp(op):
    def f(a, b):
        a, b = both(a, b)
        if conc(a, b):
            return op(a, b)
        if is_z3(a) and is_z3(b) and a.eq(b):
            return op(0, 0)
        return simp(op(z(a), z(b)))
    return f


import operator as _o
lt, le, gt, ge = _cmp(_o.lt), _cmp(_o.le), _cmp(_o.gt), _cmp(_o.ge)


def eq(a, b):
    if kind(a) == 'B' and kind(b) == 'B':
        if conc(a, b):
            return a == b
        return simp(z(a) == z(b))
    return _cmp(_o.eq)(a, b)


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    a = tobool(a)
    if isinstance(a, bool):
        return not a
    return norm(z3.Not(a)) if not z3.is_not(a) else a.arg(0)


def tobool(a):
    if kind(a) == 'B':
        return a
    if not is_z3(a):
        return a != 0
    return ne(a, 0)


def and_(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def mn(a, b):
    return ite(le(a, b), a, b)


def mx(a, b):
    return ite(ge(a, b), a, b)


def abs_(a):
    a = num(a)
    if not is_z3(a):
        return abs(a)
    return ite(ge(a, 0), a, neg(a))


FLIP = {z3.Z3_OP_LE: lambda x, y: y >= x, z3.Z3_OP_GE: lambda x, y: y <= x, z3.Z3_OP_LT: lambda x, y: y > x,
        z3.Z3_OP_GT: lambda x, y: y < x, z3.Z3_OP_EQ: lambda x, y: y == x}
_ite = {}


def has_ite(e):
    i = e.get_id()
    if i not in _ite:
        _ite[i] = (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(x) for x in e.children()), e)
    return _ite[i][0]


def sqrt_(a):
    """non-negative root; the argument must be >= 0 (otherwise the value is unconstrained)."""
    a = real(a)
    if not is_z3(a):
        import math
        n, d = math.isqrt(a.numerator) if a >= 0 else 0, math.isqrt(a.denominator)
        if a >= 0 and n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
    else:
        t = z3.simplify(a)
        if z3.is_rational_value(t):
            return sqrt_(t.as_fraction())
        a = t
    return CTX.sqrt(z(a))


def pow_(a, n):
    n = norm(n) if is_z3(n) else n
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, int) and not isinstance(n, bool):
        if n < 0:
            return div(1, pow_(a, -n))
        if n == 0:
            return 1 if kind(a) != 'R' else Fraction(1)
        if n <= 64:
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return r
    if isinstance(n, Fraction) and n == Fraction(1, 2):
        return sqrt_(a)
    return CTX.ufun('pow', real(a), real(n))


# ------------------------------------------------------------------ wrappers
def wrap(t):
    """raw -> python number or Sym"""
    if isinstance(t, (bool, int)):
        return t
    if isinstance(t, Fraction):
        return SReal(z(t))
    if z3.is_bool(t):
        t = norm(t)
        return t if isinstance(t, bool) else SBool(t)
    if z3.is_int(t):
        t = norm(t)
        return t if isinstance(t, int) else SInt(t)
    return SReal(t)


def _other(x):
    """raw of an operand, or None when numpy / FArr must handle the operation"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, (bool, int, float, Fraction)):
        return raw(x)
    import numpy as np
    if isinstance(x, np.generic):
        return raw(x)
    return None


def _inf(x):
    import numpy as np
    return isinstance(x, (float, np.floating)) and x in (float('inf'), float('-inf'))


def _bin(f, swap=False):
    def m(self, o):
        if _inf(o):
            if f in (add, sub, mul) or f is div and swap:
                raise Unsupported('arithmetic with infinity')
            if f is div:
                return 0.0
            pos = o > 0
            res = {lt: pos, le: pos, gt: not pos, ge: not pos, eq: False, ne: True}.get(f)
            if res is None:
                raise Unsupported('operation with infinity')
            return res
        r = _other(o)
        if r is None:
            if swap and type(o).__name__ == 'ndarray':
                # ndarray op scalar: numpy defers to the scalar
                import numpy as np
                out = np.empty(o.shape, dtype=object)
                for i in np.ndindex(o.shape):
                    out[i] = m(self, o[i])
                return out
            return NotImplemented
        if f in (div, floordiv, mod):
            CTX.check_div(self.t if swap else r)
        return wrap(f(r, self.t) if swap else f(self.t, r))
    return m


class Sym:
    __slots__ = ('t',)
    __array_priority__ = 10

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin(add), _bin(add, True)
    __sub__, __rsub__ = _bin(sub), _bin(sub, True)
    __mul__, __rmul__ = _bin(mul), _bin(mul, True)
    __truediv__, __rtruediv__ = _bin(div), _bin(div, True)
    __floordiv__, __rfloordiv__ = _bin(floordiv), _bin(floordiv, True)
    __mod__, __rmod__ = _bin(mod), _bin(mod, True)
    __lt__, __le__, __gt__, __ge__ = _bin(lt), _bin(le), _bin(gt), _bin(ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _bin(eq)(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return _bin(ne)(self, o)

    def __pow__(self, n, mod=None):
        r = _other(n)
        if r is None:
            return NotImplemented
        return wrap(pow_(self.t, r))

    def __rpow__(self, b):
        r = _other(b)
        if r is None:
            return NotImplemented
        if is_z3(self.t):
            return wrap(CTX.ufun('pow', real(r), real(self.t)))
        return wrap(pow_(r, self.t))

    def __neg__(self):
        return wrap(neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        d = CTX.entails(ge(num(self.t), 0)) if CTX.active else None
        if d is not None:
            return self if d else -self
        return wrap(abs_(self.t))

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return CTX.decide(tobool(self.t))

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        toks = CTX.ghosts.get('tokens') if CTX.active else None
        if toks is not None:
            # text of a symbolic number: a name, resolved by the contract
            for i, t in enumerate(toks):
                if t is self.t or (isinstance(t, z3.ExprRef) and isinstance(self.t, z3.ExprRef) and t.eq(self.t)):
                    break
            else:
                i = len(toks)
                toks.append(self.t)
            return '\u27e6%d\u27e7' % i
        return '<%s>' % str(self.t)[:80].replace('\n', ' ')

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        if kind(self.t) == 'R':
            raise TypeError('real used as an index')
        try:
            return CTX.concretize(num(self.t))
        except BaseException as e:      # numpy swallows exceptions of __index__
            CTX.swallowed = e
            raise

    def __int__(self):
        return CTX.concretize(trunc(self.t))

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round with digits')
        t = self.t
        if kind(t) != 'R':
            return wrap(num(t))
        f = floor(t)
        d = sub(t, f)
        half = Fraction(1, 2)
        return wrap(ite(lt(d, half), f, ite(gt(d, half), add(f, 1), ite(eq(mod(f, 2), 0), f, add(f, 1)))))

    def __trunc__(self):
        return wrap(trunc(self.t))

    def __floor__(self):
        return wrap(floor(self.t))

    def __ceil__(self):
        return wrap(neg(floor(neg(self.t))))

    # numpy object ufuncs call these methods
    def sqrt(self):
        return wrap(sqrt_(self.t))

    def rint(self):
        return wrap(real(raw(self.__round__())))

    def floor(self):
        return wrap(real(floor(self.t)))

    def ceil(self):
        return wrap(real(neg(floor(neg(self.t)))))

    def sin(self):
        return wrap(CTX.ufun('sin', real(self.t)))

    def cos(self):
        return wrap(CTX.ufun('cos', real(self.t)))

    def exp(self):
        return wrap(CTX.ufun('exp', real(self.t)))

    def log(self):
        return wrap(CTX.ufun('log', real(self.t)))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self

    def item(self):
        return self


class SInt(Sym):
    __slots__ = ()


class SReal(Sym):
    __slots__ = ()

    def is_integer(self):
        return wrap(eq(real(floor(self.t)), self.t))


class SBool(Sym):
    __slots__ = ()

    def __and__(self, o):
        r = _other(o)
        return NotImplemented if r is None else wrap(and_(self.t, r))

    __rand__ = __and__

    def __or__(self, o):
        r = _other(o)
        return NotImplemented if r is None else wrap(or_(self.t, r))

    __ror__ = __or__

    def __xor__(self, o):
        r = _other(o)
        return NotImplemented if r is None else wrap(ne(self.t, tobool(r)))

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(not_(self.t))

    def logical_not(self):
        return wrap(not_(self.t))


# ------------------------------------------------------------------ context
class Obligation:
    __slots__ = ('name', 'status', 'detail', 'model', 'time', 'backend')

    def __init__(self, name, status, detail='', model=None, time=0., backend=''):
        self.name, self.status, self.detail = name, status, detail
        self.model, self.time, self.backend = model, time, backend


class Ctx:
    def __init__(self):
        self.let_reads, self.ghosts, self.object_arrays = False, {}, False
        self.reset_all()

    def reset_all(self, timeout=20, max_paths=4000, deadline=None):
        self.timeout = timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = []
        self.solver_time = 0.
        self.queries = 0
        self.active = False
        self.paths = 0
        self.cut_paths = 0
        self.proved_cache = {}
        self.ends = 0

    # --- path handling
    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.pending = []
        self.counters = {}
        self.inputs = {}
        self.case_fn = None
        self.sqrts = {}
        self._sqev = None
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.univ = []
        self.check_scalar_div = True
        self.active = True
        self.decide_cache = {}
        self.loop_specs = {}
        self.swallowed = None
        self.int_hints = []
        self.div_hints = []
        self.ghosts = {}
        self.object_arrays = False
        self.let_reads, self.letmap, self.letdefs, self._known = False, {}, {}, (-1, None)

    def _check(self, *conds):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t0 = time.time()
        self.queries += 1
        r = self.solver.check(*conds)
        self.solver_time += time.time() - t0
        return r

    def fresh(self, name, sort='I'):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        nm = name if n == 0 else '%s!%d' % (name, n)
        return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[sort](nm)

    def int(self, name, lo=None, hi=None):
        t = self.fresh(name, 'I')
        self.inputs[str(t)] = t
        if lo is not None:
            self.assume(t >= raw(lo))
        if hi is not None:
            self.assume(t <= raw(hi))
        return SInt(t)

    def real(self, name, lo=None, hi=None, pos=False):
        t = self.fresh(name, 'R')
        self.inputs[str(t)] = t
        if pos:
            self.assume(t > 0)
        if lo is not None:
            self.assume(ge(t, raw(lo)))
        if hi is not None:
            self.assume(le(t, raw(hi)))
        return SReal(t)

    def bool(self, name):
        t = self.fresh(name, 'B')
        self.inputs[str(t)] = t
        return SBool(t)

    def ufun(self, name, *args, sort='R'):
        args = [real(a) for a in args]
        f = z3.Function('uf_' + name, *([z3.RealSort()] * len(args)), dict(R=z3.RealSort(), I=z3.IntSort(), B=z3.BoolSort())[sort])
        return f(*[z(a) for a in args])

    def sqrt(self, a):
        k = a.get_id()
        if k not in self.sqrts and self.let_reads and not has_ite(a):
            from .poly import Evaluator, compare
            self._sqev = getattr(self, '_sqev', None) or Evaluator(5)
            v = self._sqev(a)
            for a2, s in list(self.sqrts.values()):
                if not has_ite(a2) and self._sqev(a2) == v and compare(a, a2) == 0:
                    self.sqrts[k] = (a2, s)
                    return s
        if k not in self.sqrts:
            s = self.fresh('sqrt', 'R')
            self.sqrts[k] = (a, s)
            self.add(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
        return self.sqrts[k][1]

    def check_div(self, d):
        """division by a scalar: ZeroDivisionError path for python ints, obligation-free for reals"""
        if not is_z3(d):
            if d == 0:
                raise ModeledError('ZeroDivisionError')
            return
        if not self.check_scalar_div:
            return
        if self.decide(eq(d, 0)):
            raise ModeledError('ZeroDivisionError')

    def add(self, cond):
        cond = raw(cond)
        if cond is True:
            return
        self.pc.append(z(cond))
        self.solver.add(z(cond))

    def reduce(self, e):
        """the term where the literals of the path are replaced by true"""
        if self._known[0] != len(self.pc):
            st, out = list(self.pc), []
            while st:
                a = st.pop()
                if z3.is_and(a):
                    st.extend(a.children())
                    continue
                neg_ = z3.is_not(a)
                b = a.children()[0] if neg_ else a
                d = b.decl().kind()
                if d in FLIP and len(b.children()) == 2:
                    out.append((FLIP[d](*b.children()), z3.BoolVal(not neg_)))
                    out.append((b, z3.BoolVal(not neg_)))
                elif not b.children():
                    out.append((b, z3.BoolVal(not neg_)))
            self._known = len(self.pc), out
        return z3.substitute(e, *self._known[1]) if self._known[1] else e

    def define(self, t):
        """name of a conditional value (read in an array), with its definition on the path"""
        k = t.get_id()
        if k in self.letmap:
            return self.letmap[k][1]
        r = z3.simplify(self.reduce(t))
        if has_ite(r):
            i = r.get_id()
            if i in self.letmap:
                r = self.letmap[i][1]
            else:
                x = z3.FreshConst(r.sort(), 'val')
                self.letdefs[x.get_id()] = (x, r)
                self.letmap[i] = (r, x)
                self.add(x == r)
                r = x
        self.letmap[k] = (t, r)
        return r

    def assume(self, cond):
        """precondition of the contract (or a contract of a callee)"""
        cond = raw(cond)
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        self.add(cond)

    def decide(self, cond):
        cond = raw(cond)
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        k = cond.get_id()
        if k in self.decide_cache:
            return self.decide_cache[k][1]
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if d[0] == 'b':
                self.add(cond if d[1] else z3.Not(cond))
                self.decide_cache[k] = (cond, d[1])
                return d[1]
            # forced decision
            self.decide_cache[k] = (cond, d[1])
            return d[1]
        t = self._check(cond)
        f = self._check(z3.Not(cond))
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd()
        if t == z3.unsat or f == z3.unsat:
            v = f == z3.unsat
            self.trace.append(('f', v))
            self.decide_cache[k] = (cond, v)
            return v
        self.pending.append(self.trace + [('b', False)])
        self.trace.append(('b', True))
        self.add(cond)
        self.decide_cache[k] = (cond, True)
        return True

    def entails(self, cond):
        """True / False when the path condition decides cond, None otherwise (no fork)"""
        cond = simp(raw(cond))
        if isinstance(cond, bool):
            return cond
        k = cond.get_id()
        if k in self.decide_cache:
            return self.decide_cache[k][1]
        if self._check(z3.Not(cond)) == z3.unsat:
            self.decide_cache[k] = (cond, True)
            return True
        if self._check(cond) == z3.unsat:
            self.decide_cache[k] = (cond, False)
            return False
        return None

    def to_int(self, t):
        """truncation, replaced by a hinted integer when the path condition proves it equal"""
        for h in self.int_hints:
            h = raw(h)
            if kind(t) == 'R' and self.entails(and_(ge(t, 0), ge(t, real(h)), lt(t, real(add(h, 1))))) is True:
                return h
        return trunc(t)

    def concretize(self, t, limit=64):
        """fork over the feasible integer values of t"""
        t = simp(t)
        if not is_z3(t):
            return int(t)
        if not z3.is_const(t):
            aux = self.fresh('ix', 'I')
            self.add(aux == t)
            t = aux
        for _ in range(limit):
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.trace.append(d)
                if d[0] == 'v':
                    self.add(t == d[1])
                    return d[1]
                if d[0] == 'n':
                    self.add(t != d[1])
                    continue
                raise Unsupported('non deterministic re-execution')
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Unsupported('cannot enumerate an index')
            v = self.solver.model().eval(t, model_completion=True).as_long()
            self.pending.append(self.trace + [('n', v)])
            self.trace.append(('v', v))
            self.add(t == v)
            return v
        raise Unsupported('index with too many values')

    # --- obligations
    def prove(self, name, cond, timeout=None, tactics=None, facts=(), cut=None):
        cond = raw(cond)
        if self.univ:
            facts = list(facts) + list(self.univ)
        if cut is not None and is_z3(cond):
            # generalised obligation: the polynomials of the cut are replaced by new variables
            pc, goal = cut.problem(self.pc, [z(raw(f)) for f in facts], z(cond))
            res = discharge(self, name, pc, goal, timeout or self.timeout, tactics, ())
            if res.status == 'proved':
                res.backend += ' (cut)'
                self.obligations.append(res)
                return True
            if cut.only:
                if os.environ.get('VC_DUMP') and res.status != 'proved':
                    print('DUMP', name, '\nPC', *pc, '\nGOAL', goal, sep='\n', file=sys.stderr)
                    sl = z3.Solver(); sl.add(*pc); sl.add(z3.Not(goal)); print(sl.check(), sl.model() if sl.check() == z3.sat else '', file=sys.stderr)
                res.status, res.model = 'unknown', None
                self.obligations.append(res)
                return False
        res = discharge(self, name, self.pc, cond, timeout or self.timeout, tactics, facts)
        self.obligations.append(res)
        if res.status == 'refuted':
            res.detail += self.case_text(res)
        return res.status == 'proved'

    def lemma(self, name, cond, **k):
        """prove, then use as an assumption on the rest of the path"""
        if self.prove(name, cond, **k):
            self.add(cond)
            return True
        return False

    def fail(self, name, detail):
        """an obligation that is refuted on the current (feasible) path"""
        m = None
        r = self._check()
        if r == z3.unsat:
            return
        if r == z3.sat:
            m = self.extract(self.solver.model())
            self.obligations.append(Obligation(name, 'refuted', detail, m, 0., 'z3'))
        else:
            self.obligations.append(Obligation(name, 'unknown', detail))

    def extract(self, model):
        out = {}
        for n, t in self.inputs.items():
            v = model.eval(t, model_completion=True)
            v = norm(v)
            if isinstance(v, Fraction):
                out[n] = [v.numerator, v.denominator]
            elif isinstance(v, (bool, int)):
                out[n] = v
            elif z3.is_algebraic_value(v):
                w = v.approx(20).as_fraction()
                out[n] = [w.numerator, w.denominator]
            else:
                out[n] = str(v)
        return out

    def case_text(self, res):
        return ''

    def case(self, fn):
        """fn(values: dict name -> int/Fraction/bool) -> JSON case for the runtime-contract harness"""
        self.case_fn = fn


CTX = Ctx()


def _free(cond):
    return z(cond)


def discharge(ctx, name, pc, cond, timeout, tactics=None, facts=()):
    t0 = time.time()
    if cond is True:
        return Obligation(name, 'proved', backend='simplifier')
    goal = [z(c) for c in facts] + [z3.Not(z(cond))] if cond is not False else [z(c) for c in facts]
    key = None
    backend = ''
    # 1. z3 default, growing timeouts; 2. nlsat; 3. cvc5
    status, model, why = 'unknown', None, ''
    base = list(pc) + goal
    attempts = tactics or ['simp', 'z3', 'nl', 'cvc5']
    for att in attempts:
        if ctx.deadline and time.time() > ctx.deadline:
            why = 'time budget exhausted'
            break
        try:
            if att == 'simp':
                g = z3.simplify(z(cond), som=True) if is_z3(cond) else z(cond)
                if z3.is_true(g):
                    status, backend = 'proved', 'z3-simplify'
                    break
                continue
            if att == 'z3':
                s = z3.Solver()
                s.set('timeout', int(1000 * min(timeout, 10)))
            elif att == 'nl':
                if not any(kind_of_real(x) for x in base):
                    continue
                s = z3.Then(z3.With('simplify', som=False), 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'smt').solver() \
                    if False else z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', int(1000 * timeout))
            elif att == 'cvc5':
                r = cvc5_check(base, timeout)
                if r == 'unsat':
                    status, backend = 'proved', 'cvc5'
                    break
                continue
            else:
                s = z3.Tactic(att).solver()
                s.set('timeout', int(1000 * timeout))
            s.add(*base)
            r = s.check()
            if r == z3.unsat:
                status, backend = 'proved', 'z3' if att == 'z3' else 'z3-' + att
                break
            if r == z3.sat:
                status, backend = 'refuted', 'z3'
                model = ctx.extract(s.model())
                break
            why = s.reason_unknown()
        except z3.Z3Exception as e:
            why = str(e)
    dt = time.time() - t0
    ctx.solver_time += dt
    ctx.queries += 1
    return Obligation(name, status, why if status == 'unknown' else '', model, dt, backend)


def kind_of_real(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_real(x):
            return True
        st.extend(x.children())
    return False


def cvc5_check(base, timeout):
    import subprocess, tempfile, os
    s = z3.Solver()
    s.add(*base)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % int(1000 * timeout), f.name], capture_output=True, text=True, timeout=timeout + 5)
        return out.stdout.split('\n')[0].strip()
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return 'unknown'
    finally:
        os.unlink(f.name)


# ------------------------------------------------------------------ driver of one proof procedure
class ProofResult:
    def __init__(self, name):
        self.name = name
        self.obligations = {}
        self.paths = 0
        self.reason = ''
        self.refuted = []
        self.time = 0.
        self.queries = 0
        self.solver_time = 0.
        self.complete = True


def run_proof(name, fn, timeout=20, max_paths=3000, budget=120):
    """explore all paths of the proof procedure; returns a ProofResult"""
    t0 = time.time()
    CTX.reset_all(timeout=timeout, max_paths=max_paths, deadline=t0 + budget)
    res = ProofResult(name)
    work = [[]]
    while work:
        prefix = work.pop()
        if res.paths >= max_paths or time.time() - t0 > budget:
            res.complete = False
            res.reason = 'path or time budget exhausted (%d paths)' % res.paths
            break
        CTX.start_path(prefix)
        n0 = len(CTX.obligations)
        res.paths += 1
        try:
            fn(CTX)
            CTX.ends += 1
        except PathEnd:
            pass
        except Unsupported as e:
            res.complete = False
            res.reason = 'unsupported: %s' % e
            res.trace = traceback.format_exc()[-1500:]
        except ModeledError as e:
            CTX.fail(name + ': no exception', 'path raises %s' % e)
        except Exception as e:                       # noqa
            if isinstance(CTX.swallowed, PathEnd):
                pass
            elif CTX.swallowed is not None:
                res.complete = False
                res.reason = 'unsupported: %s' % CTX.swallowed
            elif raised_by_repo(e):
                CTX.fail(name + ': no exception', 'path raises %s: %s' % (type(e).__name__, e))
            else:
                res.complete = False
                res.reason = 'engine: %s: %s' % (type(e).__name__, e)
                res.trace = traceback.format_exc()[-1500:]
        CTX.active = False
        for ob in CTX.obligations[n0:]:
            if ob.model is not None and CTX.case_fn is not None:
                try:
                    vals = {k: (Fraction(*v) if isinstance(v, list) else v) for k, v in ob.model.items()}
                    ob.model = {'values': ob.model, 'case': CTX.case_fn(vals)}
                except Exception as e:               # noqa
                    ob.model = {'values': ob.model, 'case': None, 'case_error': repr(e)}
            elif ob.model is not None:
                ob.model = {'values': ob.model, 'case': None}
        work.extend(CTX.pending)
        if not res.complete:
            break
    for ob in CTX.obligations:
        cur = res.obligations.get(ob.name)
        rank = {'refuted': 3, 'unknown': 2, 'proved': 1}
        if cur is None or rank[ob.status] > rank[cur['status']]:
            res.obligations[ob.name] = dict(status=ob.status, detail=ob.detail, model=ob.model,
                                            backend=ob.backend, count=(cur or {}).get('count', 0) + 1,
                                            time=(cur or {}).get('time', 0.) + ob.time)
        else:
            cur['count'] += 1
            cur['time'] += ob.time
    if not res.complete:
        # a proof that did not explore every path proves nothing
        for o in res.obligations.values():
            if o['status'] == 'proved':
                o['status'] = 'unknown'
                o['detail'] = res.reason
        if not res.obligations:
            res.obligations[name] = dict(status='unknown', detail=res.reason, model=None, backend='', count=1, time=0.)
    elif CTX.ends == 0 and not CTX.obligations:
        # vacuous: no path reaches the end
        res.obligations[name + ': reachable'] = dict(status='unknown', detail='vacuous: no path reaches a postcondition', model=None, backend='', count=1, time=0.)
    res.time = time.time() - t0
    res.queries = CTX.queries
    res.solver_time = CTX.solver_time
    return res


def raised_by_repo(e):
    """exception raised by an explicit raise statement of the code under contract"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    if not fn.startswith('/repo/') and '<generated' not in fn:
        return False
    if isinstance(e, AssertionError):
        return True
    import linecache
    line = linecache.getline(fn, last.tb_lineno).strip()
    return line.startswith('raise')
