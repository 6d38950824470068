"""Mechanical extraction of the code under contract: an import hook that loads every module of the package `pylbm`
from /repo's current source, rewriting only

* `for` statements: cut by an invariant when the iterable is symbolic and a loop contract is registered;
* the names numpy / math.sqrt / builtins int, float, range, min, max, round, len, isinstance in the module
  namespaces, rebound to versions that accept symbolic values and defer to the originals otherwise.

Nothing else of the source is changed or dropped.
"""
import ast, sys, os, builtins, importlib.abc, importlib.util, math, types
from .core import *
from . import core as K
from . import farr
from .farr import FArr, Masked, IndexSet
from .npshim import np as NPSHIM, is_sym
import numpy as _np

REPO = os.environ.get('VC_REPO', '/repo')


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._vc_real):
            return True
        return isinstance(x, cls._vc_sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._vc_real)

    def __eq__(cls, o):
        return o is cls or o is cls._vc_real

    def __hash__(cls):
        return hash(cls._vc_real)

    def __getattr__(cls, n):
        return getattr(cls._vc_real, n)


class int_(metaclass=_Meta):
    _vc_real = int
    _vc_sym = SInt
    __name__ = 'int'

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return wrap(CTX.to_int(num(x.t)))
        if isinstance(x, FArr) and x.ndim == 0:
            return wrap(trunc(num(x.at(()))))
        return int(x, *a)


class float_(metaclass=_Meta):
    _vc_real = float
    _vc_sym = SReal
    __name__ = 'float'

    def __new__(cls, x=0., *a):
        if isinstance(x, Sym):
            return wrap(real(x.t))
        return float(x, *a)


class bool_(metaclass=_Meta):
    _vc_real = bool
    _vc_sym = SBool
    __name__ = 'bool'

    def __new__(cls, x=False):
        if isinstance(x, Sym):
            return wrap(tobool(x.t))
        return bool(x)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        # concretize: enumerate when the bounds have finitely many values
        lo = CTX.concretize(raw(self.start), 40) if isinstance(self.start, Sym) else self.start
        i = lo
        n = 0
        while True:
            if not CTX.decide(lt(i, raw(self.stop))):
                return
            yield i
            i += self.step
            n += 1
            if n > 60:
                raise Unsupported('loop over a symbolic range without a loop contract')


class range_(metaclass=_Meta):
    _vc_real = range
    _vc_sym = SymRange

    def __new__(cls, *a):
        if any(isinstance(x, Sym) for x in a):
            start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            if not isinstance(step, int) or step <= 0:
                raise Unsupported('range step')
            return SymRange(start, stop, step)
        return range(*a)


def min_(*a, **k):
    if len(a) > 1 and not k and any(isinstance(x, Sym) for x in a) and not any(isinstance(x, (FArr, Masked)) for x in a):
        r = raw(a[0])
        for x in a[1:]:
            r = ite_pc(le(r, raw(x)), r, raw(x))
        return wrap(r)
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and is_sym(a[0]) and not k:
        return min_(*a[0]) if len(a[0]) > 1 else a[0][0]
    return min(*a, **k)


def max_(*a, **k):
    if len(a) > 1 and not k and any(isinstance(x, Sym) for x in a) and not any(isinstance(x, (FArr, Masked)) for x in a):
        r = raw(a[0])
        for x in a[1:]:
            r = ite_pc(ge(r, raw(x)), r, raw(x))
        return wrap(r)
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and is_sym(a[0]) and not k:
        return max_(*a[0]) if len(a[0]) > 1 else a[0][0]
    return max(*a, **k)


def isinstance_(x, t):
    """native isinstance with numbers and ndarrays read symbolically"""
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        c = getattr(c, '_vc_real', c)
        if c is int and (isinstance(x, SInt) or isinstance(x, int)):
            return True
        if c is float and (isinstance(x, SReal) or isinstance(x, float)):
            return True
        if c is _np.ndarray and isinstance(x, (FArr, Masked)):
            return True
        if c is bool and isinstance(x, (SBool, bool)):
            return True
        if isinstance(c, tuple):
            if isinstance_(x, c):
                return True
        elif isinstance(x, c):
            return True
    return False


BUILTINS = dict(vars(builtins))
BUILTINS.update(int=int_, float=float_, bool=bool_, range=range_, min=min_, max=max_, isinstance=isinstance_)


# ------------------------------------------------------------------ loops
class LoopSpec:
    """Contract of a loop over a symbolic range.

    at(k, env): given the (raw) iteration counter and the entry values of the variables, the values of the
    variables at the start of iteration k  (dict).  check(env_expected, env_actual, prove): obligations.
    """

    def __init__(self, name, at, check):
        self.name, self.at, self.check = name, at, check


class LoopRun:
    def __init__(self, spec, it, env):
        self.spec, self.it, self.env = spec, it, env

    def lo(self):
        return raw(self.it.start)

    def n(self):
        d = sub(raw(self.it.stop), raw(self.it.start))
        if self.it.step != 1:
            d = floordiv(add(d, self.it.step - 1), self.it.step)
        return mx(d, 0)

    def begin(self):
        """base case, then an arbitrary iteration (True) or the exit (False)"""
        sp = self.spec
        self.entry = dict(self.env)
        sp.check(sp.at(0, self.entry), self.env, lambda nm, c: CTX.prove('%s: %s holds initially' % (sp.name, nm), c))
        if CTX.bool('loop %s: iteration' % sp.name):
            k = CTX.fresh('k', 'I')
            CTX.add(z3.And(k >= 0, k < z(self.n())))
            self.k = k
            self.vals = sp.at(k, self.entry)
            return True
        self.vals = sp.at(self.n(), self.entry)
        return False

    def item(self):
        return wrap(add(self.lo(), mul(self.k, self.it.step)))

    def end(self, env):
        sp = self.spec
        sp.check(sp.at(add(self.k, 1), self.entry), env, lambda nm, c: CTX.prove('%s: %s is preserved' % (sp.name, nm), c))
        raise PathEnd()


def vc_loop(loc, it, env):
    """None: run natively"""
    if not CTX.active or not isinstance(it, SymRange):
        return None
    spec = CTX.loop_specs.get(loc)
    if callable(spec):
        spec = spec(it, env)
    if spec is None:
        return None
    return LoopRun(spec, it, env)


class Instr(ast.NodeTransformer):
    """for T in IT: BODY [else: E]   ->   cut version when IT is symbolic and a loop contract is registered"""

    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.count = [0]
        self.locals = [set()]

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.count.append(0)
        a = n.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        st = list(n.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(x.name)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
            st.extend(ast.iter_child_nodes(x))
        self.locals.append(loc)
        self.generic_visit(n)
        self.locals.pop()
        self.count.pop()
        self.stack.pop()
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_For(self, n):
        idx = self.count[-1]
        self.count[-1] += 1
        self.generic_visit(n)
        if not self.stack:
            return n
        loc = '%s.%s#%d' % (self.mod, '.'.join(self.stack), idx)
        return self.rewrite(n, loc)

    def rewrite(self, n, loc):
        if n.orelse or not isinstance(n.target, ast.Name):
            return n
        stored = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name)} & self.locals[-1])
        u = 'vc__%d_%d' % (n.lineno, self.count[-1])
        src_assign = ast.parse('''
{u}_it = None
{u} = __vc_loop__({loc!r}, {u}_it, locals())
if {u} is None:
    pass
elif {u}.begin():
    pass
else:
    pass
'''.format(u=u, loc=loc))
        a_it, a_loop, a_if = src_assign.body
        a_it.value = n.iter
        # native loop
        native = ast.For(target=n.target, iter=ast.Name(u + '_it', ast.Load()), body=n.body, orelse=[])
        hav = ast.parse('\n'.join('if %r in %s.vals: %s = %s.vals[%r]' % (v, u, v, u, v) for v in stored) or 'pass').body
        import copy
        begin = a_if.orelse[0]
        item = ast.parse('%s = %s.item()' % (n.target.id, u)).body
        cut = ast.For(target=ast.Name(u + '_x', ast.Store()), iter=ast.parse('(0,)', mode='eval').body,
                      body=copy.deepcopy(n.body), orelse=ast.parse('%s.end(locals())' % u).body)
        a_if.body = [native]
        begin.body = copy.deepcopy(hav) + item + [cut]
        begin.orelse = copy.deepcopy(hav)
        out = [a_it, a_loop, a_if]
        for o in out:
            ast.copy_location(o, n)
            for x in ast.walk(o):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.expr, ast.stmt)):
                    ast.copy_location(x, n)
            ast.fix_missing_locations(o)
        return out


def compile_module(path, modname):
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


NP_MODULES = True


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        g = module.__dict__
        code = compile_module(self.path, module.__name__)
        g['__builtins__'] = BUILTINS
        g['__vc_loop__'] = vc_loop
        g['__file__'] = self.path
        exec(code, g)
        for k, v in list(g.items()):
            if v is _np:
                g[k] = NPSHIM
            elif v is math:
                g[k] = MATH
            elif v is math.sqrt:
                g[k] = NPSHIM.sqrt
            elif v is math.fabs:
                g[k] = abs
            elif v is _np.sqrt:
                g[k] = NPSHIM.sqrt


class _Math:
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, Sym) for x in a):
                if n == 'sqrt':
                    return a[0].sqrt()
                if n == 'floor':
                    return wrap(floor(num(a[0].t)))
                if n == 'ceil':
                    return a[0].__ceil__()
                if n in ('fabs',):
                    return abs(a[0])
                if n in ('sin', 'cos', 'exp', 'log'):
                    return getattr(a[0], n)()
                raise Unsupported('math.%s' % n)
            return f(*a)
        return g


MATH = _Math()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'pylbm' and not name.startswith('pylbm.'):
            return None
        rel = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            p = os.path.join(rel, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[rel])
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(name, rel + '.py', loader=Loader(rel + '.py'))
        return None


def install():
    sys.argv = sys.argv[:1]
    for m in [m for m in sys.modules if m == 'pylbm' or m.startswith('pylbm.')]:
        del sys.modules[m]
    sys.meta_path.insert(0, Finder())
