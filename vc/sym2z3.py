"""sympy expressions to engine values (z3 reals)"""
from fractions import Fraction as Fr
import sympy as sp


def conv(e, env):
    """raw engine value of the sympy expression; env maps symbols (or sub-expressions) to raw values"""
    from . import core as k
    if e in env:
        return env[e]
    if isinstance(e, (int, Fr)):
        return e
    if isinstance(e, float):
        return k.rationalize(e)
    if e.is_Integer:
        return int(e)
    if e.is_Rational:
        return Fr(int(e.p), int(e.q))
    if e.is_Float:
        return k.rationalize(float(e))
    if e.is_Add:
        r = 0
        for a in e.args:
            r = k.add(r, conv(a, env))
        return r
    if e.is_Mul:
        n, d = 1, None
        for a in e.args:
            if a.is_Pow and a.exp.is_Integer and a.exp < 0:
                x = k.pow_(conv(a.base, env), int(-a.exp))
                d = x if d is None else k.mul(d, x)
            else:
                n = k.mul(n, conv(a, env))
        return n if d is None else k.div(k.real(n), k.real(d))
    if e.is_Pow:
        b = conv(e.base, env)
        if e.exp.is_Integer:
            n = int(e.exp)
            return k.pow_(b, n) if n >= 0 else k.div(1, k.real(k.pow_(b, -n)))
        if e.exp == sp.Rational(1, 2):
            return k.sqrt_(b)
        if e.exp == -sp.Rational(1, 2):
            return k.div(1, k.sqrt_(b))
        return k.CTX.ufun('pow', b, conv(e.exp, env))
    if isinstance(e, sp.Piecewise):
        r = None
        for v, c in reversed(e.args):
            x = conv(v, env)
            r = x if r is None else k.ite(cond(c, env), x, r)
        return r
    if isinstance(e, sp.Abs):
        return k.abs_(conv(e.args[0], env))
    if isinstance(e, (sp.Max, sp.Min)):
        xs = [conv(a, env) for a in e.args]
        r = xs[0]
        for x in xs[1:]:
            r = (k.mx if isinstance(e, sp.Max) else k.mn)(r, x)
        return r
    if e.is_Function:
        return k.CTX.ufun(type(e).__name__, *[conv(a, env) for a in e.args])
    if e is sp.pi:
        return k.rationalize(float(sp.pi))
    if e.is_number:
        return k.rationalize(float(e))
    if e.is_Symbol or e.is_Indexed if hasattr(e, 'is_Indexed') else e.is_Symbol:
        raise k.Unsupported('symbol %s without a value' % e)
    raise k.Unsupported('expression %s' % sp.srepr(e)[:80])


def cond(c, env):
    from . import core as k
    if c in (True, sp.true):
        return True
    if c in (False, sp.false):
        return False
    if isinstance(c, sp.And):
        return k.and_(*[cond(a, env) for a in c.args])
    if isinstance(c, sp.Or):
        return k.or_(*[cond(a, env) for a in c.args])
    if isinstance(c, sp.Not):
        return k.not_(cond(c.args[0], env))
    ops = {sp.Lt: k.lt, sp.Le: k.le, sp.Gt: k.gt, sp.Ge: k.ge, sp.Eq: k.eq, sp.Ne: k.ne}
    for t, f in ops.items():
        if isinstance(c, t):
            return f(conv(c.lhs, env), conv(c.rhs, env))
    raise k.Unsupported('condition %s' % c)


def identity(c, name, a, b, env, facts=()):
    """obligation: the rational functions a and b are equal wherever both are defined (cross-multiplied)"""
    from . import core as k
    na, da = sp.fraction(sp.together(a))
    nb, db = sp.fraction(sp.together(b))
    c.prove(name, k.eq(k.mul(conv(na, env), conv(db, env)), k.mul(conv(nb, env), conv(da, env))), facts=facts)
