"""Stand-in for the `numpy` name inside instrumented modules: numpy itself for concrete arguments, functional
arrays when a symbolic array or a symbolic shape is involved, Unsupported for anything not modelled."""
import numpy as _np
from .core import *
from . import core as K
from .farr import *
from .farr import lift, _isinf
from . import farr as F


def is_sym(x):
    if isinstance(x, (Sym, FArr, Masked, IndexSet)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(e) for e in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return any(isinstance(e, Sym) for e in x.ravel())
    if isinstance(x, slice):
        return is_sym(x.start) or is_sym(x.stop)
    return False


def all_small(a):
    n = 1
    for s in a._shape:
        if not isinstance(s, int):
            return False
        n *= s
    return n <= 16


def has_arr(x):
    if isinstance(x, (FArr, Masked, IndexSet)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_arr(e) for e in x)
    return False


def unshim(x):
    """builtin shims back to the builtins (dtype arguments)"""
    if isinstance(x, type) and hasattr(x, '_vc_real'):
        return x._vc_real
    if isinstance(x, tuple):
        return tuple(unshim(e) for e in x)
    return x


def shape_of(s):
    if isinstance(s, (Sym, int, _np.integer)):
        s = (s,)
    if isinstance(s, FArr):
        s = list(s)
    return tuple(raw(e) for e in s)


def objarr(x):
    """object ndarray of symbolic scalars"""
    return _np.asarray(x, dtype=object)


class _Linalg:
    def __getattr__(self, n):
        f = getattr(_np.linalg, n)
        if n == 'norm':
            return norm2
        if n == 'inv':
            return inv
        return guard(f)


def norm2(x, ord=None, axis=None, **k):
    if not is_sym(x):
        return _np.linalg.norm(x, ord, axis, **k)
    if ord not in (None, 2):
        raise Unsupported('norm order')
    if has_arr(x):
        x = lift(x)
        if axis is None:
            raise Unsupported('norm')
        return sqrt(sum_(x * x, axis=axis))
    x = objarr(x)
    if axis is not None and x.ndim > 1:
        return _np.sqrt((x * x).sum(axis=axis))
    return wrap(sqrt_(raw(sum((e * e for e in x.ravel()), 0))))


def inv(a):
    if not is_sym(a):
        return _np.linalg.inv(a)
    a = objarr(a)
    n = a.shape[0]
    m = [[raw(a[i, j]) for j in range(n)] for i in range(n)]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        r = 0
        for j in range(len(m)):
            c = mul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]]))
            r = add(r, c) if j % 2 == 0 else sub(r, c)
        return r
    d = det(m)
    if CTX.decide(eq(d, 0)):
        raise ModeledError('LinAlgError: Singular matrix')
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mi = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            c = det(mi) if n > 1 else 1
            out[i, j] = wrap(div(c if (i + j) % 2 == 0 else neg(c), d))
    return out


def guard(f):
    """a numpy function applied to concrete arguments only"""
    def g(*a, **k):
        a = tuple(unshim(x) for x in a)
        k = {n: unshim(v) for n, v in k.items()}
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            raise Unsupported('numpy.%s on symbolic values' % getattr(f, '__name__', f))
        return f(*a, **k)
    g.__name__ = getattr(f, '__name__', 'np')
    return g


def sqrt(x):
    if has_arr(x):
        return unary(sqrt_, x)
    if isinstance(x, Sym):
        return x.sqrt()
    if K.CTX is not None and K.CTX.let_reads and _np.ndim(x) == 0:
        return wrap(sqrt_(Fraction(float(x))))
    return _np.sqrt(x)


def absolute(x):
    if has_arr(x):
        return abs(x) if not isinstance(x, (list, tuple)) else abs(lift(x))
    if isinstance(x, Sym):
        return abs(x)
    return _np.abs(x)


def sum_(x, axis=None, dtype=None, **k):
    if not is_sym(x):
        return _np.sum(x, axis=axis, **k)
    if has_arr(x):
        x = lift(x)
        if axis is None:
            if all(isinstance(s, int) for s in x._shape):
                raise Unsupported('sum')
            raise Unsupported('sum over a symbolic dimension')
        axis = axis % x.ndim
        n = x._shape[axis]
        if not isinstance(n, int):
            raise Unsupported('sum over a symbolic dimension')
        r = x.reader()
        sh = x._shape[:axis] + x._shape[axis + 1:]

        def get(idx):
            t = 0
            for j in range(n):
                t = add(t, r(idx[:axis] + (j,) + idx[axis:]))
            return t
        return FArr.make(sh, get, 'R' if x.sort == 'R' else 'I')
    return objarr(x).sum(axis=axis)


def prod_(x, axis=None, **k):
    if not is_sym(x):
        return _np.prod(x, axis=axis, **k)
    if has_arr(x):
        raise Unsupported('prod')
    return objarr(x).prod(axis=axis)


class NP:
    """module-like"""
    __name__ = 'numpy'
    inf = _np.inf
    nan = _np.nan
    newaxis = None
    linalg = _Linalg()
    sqrt = staticmethod(sqrt)
    abs = absolute = fabs = staticmethod(absolute)
    sum = staticmethod(sum_)
    prod = staticmethod(prod_)

    def __getattr__(self, n):
        v = getattr(_np, n)
        if isinstance(v, type) or not callable(v):
            return v
        return guard(v)

    @property
    def pi(self):
        return _np.pi

    def errstate(self, **k):
        return _np.errstate(**k)

    # constructors
    @staticmethod
    def _dt(dtype):
        return sort_of_dtype(unshim(dtype))

    def _const(self, shape, v, dtype, **k):
        shape = shape_of(shape)
        return FArr.const(shape, v, self._dt(dtype))

    def zeros(self, shape, dtype=float, **k):
        if is_sym(shape):
            return self._const(shape, 0, dtype)
        if CTX.active and getattr(CTX, 'object_arrays', False):
            return _np.full(shape, 0, dtype=object)
        return _np.zeros(shape, dtype=unshim(dtype), **k)

    def ones(self, shape, dtype=float, **k):
        if is_sym(shape):
            return self._const(shape, 1, dtype)
        if CTX.active and getattr(CTX, 'object_arrays', False):
            return _np.full(shape, 1, dtype=object)
        return _np.ones(shape, dtype=unshim(dtype), **k)

    def empty(self, shape, dtype=float, **k):
        if is_sym(shape):
            return FArr.symbolic('empty', shape_of(shape), self._dt(dtype))
        if CTX.active and getattr(CTX, 'object_arrays', False):
            return _np.full(shape, 0, dtype=object)
        return _np.empty(shape, dtype=unshim(dtype), **k)

    def full(self, shape, fill_value, dtype=None, **k):
        if is_sym(shape) or is_sym(fill_value):
            if _isinf(fill_value):
                raise Unsupported('array of infinities')
            d = None if dtype is None else self._dt(dtype)
            return FArr.const(shape_of(shape), raw(fill_value), d)
        return _np.full(shape, fill_value, dtype=unshim(dtype), **k)

    def _like(self, a, v, dtype):
        a = lift(a)
        return FArr.const(a._shape, v, a.sort if dtype is None else self._dt(dtype))

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, 0, dtype) if is_sym(a) else _np.zeros_like(a, dtype=unshim(dtype))

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, 1, dtype) if is_sym(a) else _np.ones_like(a, dtype=unshim(dtype))

    def full_like(self, a, v, dtype=None, **k):
        return self._like(a, raw(v), dtype) if is_sym(a) or is_sym(v) else _np.full_like(a, v, dtype=unshim(dtype))

    def empty_like(self, a, dtype=None, **k):
        if is_sym(a):
            a = lift(a)
            return FArr.symbolic('empty', a._shape, a.sort if dtype is None else self._dt(dtype))
        return _np.empty_like(a, dtype=unshim(dtype))

    def asarray(self, x, dtype=None, **k):
        dtype = unshim(dtype)
        if isinstance(x, FArr):
            return x if dtype is None else x.astype(dtype)
        if isinstance(x, (Masked, IndexSet)):
            if dtype is None or isinstance(x, Masked):
                return x
            raise Unsupported('asarray(index set)')
        if has_arr(x):
            if any(isinstance(e, Masked) for e in x):
                raise Unsupported('asarray of selections')
            es = [lift(e) for e in x]
            if any(e.ndim != es[0].ndim for e in es) or not CTX.decide(and_(*[eq(raw(a), raw(b)) for e in es[1:] for a, b in zip(e._shape, es[0]._shape)])):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            r = stack(list(x))
            return r if dtype is None else r.astype(dtype)
        if is_sym(x):
            return self._obj_dtype(objarr(x), dtype)
        return _np.asarray(x, dtype=dtype, **k)

    @staticmethod
    def _obj_dtype(a, dtype):
        """conversion of an object array of symbolic scalars"""
        if dtype is None or dtype is object:
            return a
        s = sort_of_dtype(dtype)
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            x = num(raw(a[i]))
            out[i] = wrap(real(x) if s == 'R' else (CTX.to_int(x) if s == 'I' else tobool(x)))
        return out

    def ascontiguousarray(self, x, dtype=None, **k):
        if isinstance(x, FArr):
            return x.copy() if dtype is None else x.astype(unshim(dtype))
        return _np.ascontiguousarray(x, dtype=unshim(dtype), **k)

    def array(self, x, dtype=None, **k):
        if isinstance(x, FArr):
            return x.copy() if dtype is None else x.astype(unshim(dtype))
        if is_sym(x):
            if has_arr(x):
                return self.asarray(x, dtype)
            return self._obj_dtype(_np.array(x, dtype=object), unshim(dtype))
        return _np.array(x, dtype=unshim(dtype), **k)

    def copy(self, x):
        return x.copy()

    def arange(self, *a, dtype=None, **k):
        if any(is_sym(x) for x in a):
            a = [raw(x) for x in a]
            start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            if any(kind(x) != 'I' for x in (start, stop)) or step != 1:
                raise Unsupported('arange')
            return FArr.make((mx(sub(stop, start), 0),), lambda idx: add(start, idx[0]), 'I')
        return _np.arange(*a, dtype=unshim(dtype), **k)

    def linspace(self, start, stop, num_=50, endpoint=True, **k):
        n = k.pop('num', num_)
        if is_sym((start, stop, n)):
            if k:
                raise Unsupported('linspace options')
            a, b, n = real(raw(start)), real(raw(stop)), raw(n)
            if CTX.decide(lt(n, 0)):
                raise ModeledError('ValueError: number of samples')
            d = sub(n, 1) if endpoint else n
            if CTX.decide(eq(d, 0)):
                return FArr.make((n,), lambda idx: a, 'R')
            h = div(sub(b, a), real(d))
            return FArr.make((n,), lambda idx: add(a, mul(real(idx[0]), h)), 'R')
        return _np.linspace(start, stop, n, endpoint=endpoint, **k)

    def meshgrid(self, *xs, indexing='xy', sparse=False, **k):
        if not is_sym(xs):
            return _np.meshgrid(*xs, indexing=indexing, sparse=sparse, **k)
        if indexing != 'ij' or any(lift(x).ndim != 1 for x in xs) or k:
            raise Unsupported('meshgrid')
        xs = [lift(x) for x in xs]
        n = len(xs)
        out = []
        for d, x in enumerate(xs):
            r = x.reader()
            sh = tuple(x._shape[0] if j == d else (1 if sparse else xs[j]._shape[0]) for j in range(n))
            out.append(FArr.make(sh, lambda idx, r=r, d=d: r((idx[d],)), x.sort))
        return out

    def ix_(self, *xs):
        raise Unsupported('ix_')

    # logic
    def _logic(f, name):
        def m(self, a, b, **k):
            if is_sym(a) or is_sym(b):
                if isinstance(a, Masked):
                    return a.apply(f, b)
                if isinstance(b, Masked):
                    return b.apply(lambda x, y: f(y, x), a)
                if has_arr(a) or has_arr(b):
                    return elementwise(f, a, b)
                if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                    return elementwise(f, a, b)
                return wrap(f(raw(a), raw(b)))
            return getattr(_np, name)(a, b, **k)
        return m
    logical_and = _logic(lambda a, b: and_(a, b), 'logical_and')
    logical_or = _logic(lambda a, b: or_(a, b), 'logical_or')
    logical_xor = _logic(lambda a, b: ne(tobool(a), tobool(b)), 'logical_xor')
    minimum = _logic(lambda a, b: mn(a, b), 'minimum')
    maximum = _logic(lambda a, b: mx(a, b), 'maximum')
    equal = _logic(lambda a, b: eq(a, b), 'equal')
    not_equal = _logic(lambda a, b: ne(a, b), 'not_equal')
    less = _logic(lambda a, b: lt(a, b), 'less')
    less_equal = _logic(lambda a, b: le(a, b), 'less_equal')
    greater = _logic(lambda a, b: gt(a, b), 'greater')
    greater_equal = _logic(lambda a, b: ge(a, b), 'greater_equal')
    add = _logic(lambda a, b: K.add(a, b), 'add')
    subtract = _logic(lambda a, b: K.sub(a, b), 'subtract')
    multiply = _logic(lambda a, b: K.mul(a, b), 'multiply')
    del _logic

    def logical_not(self, a, **k):
        if is_sym(a):
            return unary(not_, a) if has_arr(a) else wrap(not_(raw(a)))
        return _np.logical_not(a, **k)

    invert = logical_not

    def square(self, a):
        return a * a

    def negative(self, a):
        return -a

    def sign(self, a):
        f = lambda x: ite(gt(x, 0), 1, ite(lt(x, 0), -1, 0))
        if has_arr(a):
            return unary(f, a)
        return wrap(f(raw(a))) if is_sym(a) else _np.sign(a)

    def where(self, c, *ab):
        if not is_sym(c) and not is_sym(ab):
            return _np.where(c, *ab)
        if not ab:
            if isinstance(c, Masked):
                return c.nonzero()
            c = lift(c)
            return c.nonzero()
        return elementwise(lambda c, a, b: ite(tobool(c), a, b), c, *ab)

    def nonzero(self, c):
        return c.nonzero() if is_sym(c) else _np.nonzero(c)

    def concatenate(self, xs, axis=0, **k):
        if any(has_arr(x) for x in xs):
            return concatenate(list(xs), axis)
        return _np.concatenate([objarr(x) if is_sym(x) else x for x in xs], axis=axis, **k)

    def hstack(self, xs):
        return self.concatenate(xs)

    def stack(self, xs, axis=0):
        return stack(xs, axis) if has_arr(xs) else _np.stack(xs, axis)

    def isinf(self, a):
        if has_arr(a):
            return unary(lambda x: False, a)
        return False if isinstance(a, Sym) else _np.isinf(a)

    isnan = isinf

    def isfinite(self, a):
        return unary(lambda x: True, a) if has_arr(a) else (True if isinstance(a, Sym) else _np.isfinite(a))

    def transpose(self, a, axes=None):
        if has_arr(a):
            return a.transpose(*(axes if axes is not None else ()))
        return _np.transpose(a, axes)

    def broadcast(self, *xs):
        if not any(is_sym(x) for x in xs):
            return _np.broadcast(*xs)
        from types import SimpleNamespace
        sh = bshape(*[lift(x)._shape for x in xs])
        return SimpleNamespace(shape=tuple(wrap(s) for s in sh), ndim=len(sh), nd=len(sh))

    def broadcast_to(self, a, shape):
        if is_sym(a) or is_sym(shape):
            a = lift(a)
            sh = shape_of(shape)
            return FArr.make(sh, broadcast_reader(a, sh), a.sort)
        return _np.broadcast_to(a, shape)

    def dot(self, a, b):
        if has_arr(a) or has_arr(b):
            return matdot(a, b)
        if is_sym(a) or is_sym(b):
            return objarr(a).dot(objarr(b)) if _np.ndim(a) and _np.ndim(b) else a * b
        return _np.dot(a, b)

    def inner(self, a, b):
        if has_arr(a) or has_arr(b):
            raise Unsupported('inner')
        if is_sym(a) or is_sym(b):
            return _np.inner(objarr(a), objarr(b))
        return _np.inner(a, b)

    def outer(self, a, b):
        if has_arr(a) or has_arr(b):
            raise Unsupported('outer')
        return _np.outer(a, b)

    def cross(self, a, b, **k):
        if is_sym(a) or is_sym(b):
            a, b = objarr(a), objarr(b)
            if a.shape != (3,) or b.shape != (3,):
                raise Unsupported('cross')
            return _np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)
        return _np.cross(a, b, **k)

    def clip(self, a, lo, hi):
        if is_sym(a) or is_sym(lo) or is_sym(hi):
            return elementwise(lambda x, l, h: mn(mx(x, l), h), a, lo, hi) if has_arr(a) else wrap(mn(mx(raw(a), raw(lo)), raw(hi)))
        return _np.clip(a, lo, hi)

    def _red(name, pick):
        def m(self, a, axis=None, **k):
            if not is_sym(a):
                return getattr(_np, name)(a, axis=axis, **k)
            if has_arr(a):
                if isinstance(a, (list, tuple)) and axis == 0:
                    r = lift(a[0])
                    for x in a[1:]:
                        r = elementwise(pick, r, x)
                    return r
                raise Unsupported('reduction of a symbolic array')
            a = objarr(a)
            if axis is None:
                r = None
                for x in a.ravel():
                    r = raw(x) if r is None else pick(r, raw(x))
                return wrap(r)
            a = _np.moveaxis(a, axis, 0)
            out = a[0].copy() if isinstance(a[0], _np.ndarray) else a[0]
            for x in a[1:]:
                out = _np.frompyfunc(lambda p, q: wrap(pick(raw(p), raw(q))), 2, 1)(out, x)
            return out
        return m
    min = amin = _red('min', mn)
    max = amax = _red('max', mx)
    del _red

    def floor(self, a):
        if has_arr(a):
            return unary(lambda x: real(floor(x)), a)
        return a.floor() if isinstance(a, Sym) else _np.floor(a)

    def ceil(self, a):
        return -self.floor(-a)

    def rint(self, a):
        return a.rint() if isinstance(a, Sym) else _np.rint(a)

    round = around = rint

    def power(self, a, n):
        return a ** n

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if is_sym(a) or is_sym(b):
            f = lambda x, y: le(abs_(sub(x, y)), add(real(raw(atol)), mul(real(raw(rtol)), abs_(y))))
            if has_arr(a) or has_arr(b):
                return elementwise(f, a, b)
            return wrap(f(raw(a), raw(b)))
        return _np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if is_sym(a) or is_sym(b):
            if has_arr(a) or has_arr(b):
                raise Unsupported('allclose')
            a_, b_ = _np.broadcast_arrays(objarr(a), objarr(b))
            return wrap(and_(*[raw(self.isclose(x, y, rtol, atol)) for x, y in zip(a_.ravel(), b_.ravel())]))
        return _np.allclose(a, b, rtol=rtol, atol=atol, **k)

    def any(self, a, axis=None, **k):
        if is_sym(a):
            if isinstance(a, FArr) and axis is None and all_small(a):
                return wrap(or_(*[tobool(a.at(i)) for i in _np.ndindex(*a._shape)]))
            if has_arr(a):
                raise Unsupported('any')
            return wrap(or_(*[raw(x) for x in objarr(a).ravel()]))
        return _np.any(a, axis=axis, **k)

    def all(self, a, axis=None, **k):
        if is_sym(a):
            if isinstance(a, FArr) and axis is None and all_small(a):
                return wrap(and_(*[tobool(a.at(i)) for i in _np.ndindex(*a._shape)]))
            if has_arr(a):
                raise Unsupported('all')
            return wrap(and_(*[raw(x) for x in objarr(a).ravel()]))
        return _np.all(a, axis=axis, **k)

    def vectorize(self, f, *a, **k):
        def g(*xs):
            if any(has_arr(x) for x in xs):
                raise Unsupported('vectorize')
            arrs = _np.broadcast_arrays(*[objarr(x) for x in xs])
            out = _np.empty(arrs[0].shape, dtype=object)
            for i in _np.ndindex(arrs[0].shape):
                out[i] = f(*[x[i] for x in arrs])
            if not is_sym(out):
                try:
                    return _np.array(out.tolist())
                except Exception:       # noqa
                    return out
            return out
        return g

    def union1d(self, a, b):
        if not (is_sym(a) or is_sym(b)):
            return _np.union1d(a, b)
        return self.unique(_np.concatenate([objarr(a).ravel(), objarr(b).ravel()]))

    def unique(self, a, **k):
        if not is_sym(a):
            return _np.unique(a, **k)
        if k:
            raise Unsupported('unique options')
        if isinstance(a, FArr):
            if getattr(a, 'values', None) is None:
                raise Unsupported('unique')
            return _np.array(a.values)
        out = []
        for x in objarr(a).ravel():
            i = 0
            while i < len(out) and out[i] < x:      # forks
                i += 1
            if i < len(out) and out[i] == x:
                continue
            out.insert(i, x)
        return _np.array(out, dtype=object)

    def sort(self, a, axis=-1, **k):
        if not is_sym(a):
            return _np.sort(a, axis=axis, **k)
        out = []
        for x in objarr(a).ravel():
            i = 0
            while i < len(out) and out[i] <= x:
                i += 1
            out.insert(i, x)
        return _np.array(out, dtype=object)

    def searchsorted(self, a, v, side='left', **k):
        if not (is_sym(a) or is_sym(v)):
            return _np.searchsorted(a, v, side=side, **k)
        a = list(objarr(a).ravel())

        def one(x):
            i = 0
            while i < len(a) and (a[i] < x if side == 'left' else a[i] <= x):
                i += 1
            return i
        if isinstance(v, (Sym, int, _np.integer)):
            return one(v)
        return _np.array([one(x) for x in objarr(v).ravel()], dtype=int)

    def shape(self, a):
        return a.shape if hasattr(a, 'shape') else _np.shape(a)

    def size(self, a):
        return a.size if hasattr(a, 'size') else _np.size(a)

    def ndim(self, a):
        return a.ndim if hasattr(a, 'ndim') else _np.ndim(a)

    def append(self, a, b, axis=None):
        if is_sym(a) or is_sym(b):
            raise Unsupported('append')
        return _np.append(a, b, axis)

    def select(self, conds, vals, default=0):
        r = default
        for c, v in reversed(list(zip(conds, vals))):
            r = self.where(c, v, r)
        return r


def arbitrary_function(name):
    """an uninterpreted function of several arguments, pointwise"""
    def g(*a):
        arrs = [x for x in a if has_arr(x)]
        if not arrs:
            return wrap(CTX.ufun(name, *[raw(x) for x in a]))
        shp = max((lift(x)._shape for x in arrs), key=len)
        rd = [lift(x).reader() if has_arr(x) else (lambda i, x=x: raw(x)) for x in a]
        if any(has_arr(x) and lift(x).ndim != len(shp) for x in a):
            raise Unsupported('broadcast in %s' % name)
        return FArr.make(tuple(shp), lambda idx: CTX.ufun(name, *[r(tuple(idx)) for r in rd]), 'R')
    return g


def _trig(name):
    def m(self, a):
        f = lambda x: CTX.ufun(name, real(x))
        if has_arr(a):
            return unary(f, a)
        if isinstance(a, Sym):
            return wrap(f(a.t))
        return getattr(_np, name)(a)
    return m


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'tanh', 'sinh', 'cosh', 'arctan'):
    setattr(NP, _n, _trig(_n))


def matdot(a, b):
    a, b = lift(a), lift(b)
    k = a._shape[-1]
    if not isinstance(k, int):
        raise Unsupported('dot over a symbolic dimension')
    ax = max(b.ndim - 2, 0)
    ra, rb = a.reader(), b.reader()
    na = a.ndim - 1
    if b._shape[ax] != k:
        raise ModeledError('ValueError: shapes not aligned')

    def get(idx):
        ia, ib = idx[:na], idx[na:]
        t = 0
        for j in range(k):
            t = K.add(t, K.mul(ra(ia + (j,)), rb(ib[:ax] + (j,) + ib[ax:])))
        return t
    return FArr.make(a._shape[:-1] + b._shape[:ax] + b._shape[ax + 1:], get, 'R')


np = NP()
