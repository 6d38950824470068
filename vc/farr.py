"""Functional arrays: ndarrays of symbolic shape, given by a closure index -> value, with numpy's view semantics.

A FArr is a view (offset / step 1 per axis, fixed axes, new axes) on a Store; writes go through to the store.
Only the numpy constructs listed here are understood; everything else raises Unsupported.
"""
from .core import *
from . import core as K
import numpy as _np


class Store:
    def __init__(self, shape, get, sort):
        self.shape = tuple(shape)
        self._get = self._memo(get)
        self.sort = sort
        self.writes = 0

    @staticmethod
    def _memo(get):
        cache = {}

        def g(idx):
            k = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
            r = cache.get(k)
            if r is None:
                v = get(idx)
                if CTX.let_reads and is_z3(v) and K.has_ite(v):
                    v = CTX.define(v)
                r = (v, idx)
                cache[k] = r
            return r[0]
        return g

    def get(self, idx):
        return self._get(idx)

    def snapshot(self):
        return self._get

    def write(self, cond, val):
        old = self._get
        self.writes += 1

        def new(idx):
            c = cond(idx)
            if c is True:
                return val(idx)
            if c is False:
                return old(idx)
            c = K.simp(c)
            if c is True:
                return val(idx)
            if c is False:
                return old(idx)
            return coerce(ite(c, coerce(val(idx), self.sort), old(idx)), self.sort)
        self._get = self._memo(new)


def coerce(v, sort):
    if sort == 'R':
        return real(v)
    if sort == 'I':
        if kind(v) == 'R':
            return trunc(v)
        return num(v)
    if sort == 'B':
        return tobool(v)
    return v


def sort_of_dtype(d):
    if d is None:
        return 'R'
    n = getattr(d, '__name__', None) or str(d)
    if isinstance(d, FDtype):
        return d.sort
    n = n.lower()
    n = n.lstrip('<=>|')
    if 'bool' in n or n in ('?', 'b1'):
        return 'B'
    if 'int' in n or n in ('i', 'l', 'i4', 'i8', 'u4', 'u8'):
        return 'I'
    if 'float' in n or 'double' in n or n in ('f', 'd', 'f4', 'f8'):
        return 'R'
    raise Unsupported('dtype %s' % n)


class FDtype:
    def __init__(self, sort):
        self.sort = sort
        self.kind = {'R': 'f', 'I': 'i', 'B': 'b'}[sort]

    def __eq__(self, o):
        try:
            return sort_of_dtype(o) == self.sort
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.sort)

    @property
    def __name__(self):
        return {'R': 'float64', 'I': 'int64', 'B': 'bool'}[self.sort]


def dims_equal(a, b):
    """decide whether two dimensions are equal (forks when undetermined)"""
    a, b = raw(a), raw(b)
    return CTX.decide(eq(a, b))


def is1(a):
    a = raw(a)
    return CTX.decide(eq(a, 1))


def prod(shape):
    r = 1
    for s in shape:
        r = mul(r, raw(s))
    return r


def as_raw_index(i):
    return raw(i) if not isinstance(i, _np.integer) else int(i)


class FArr:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, store, axes=None, shape=None):
        """axes: per base axis ('fix', i) or ('ax', viewaxis, start)   (base index = start + step * view index)"""
        self.store = store
        if axes is None:
            axes = [('ax', k, 0, 1) for k in range(len(store.shape))]
            shape = store.shape
        self.axes = tuple(axes)
        self._shape = tuple(K.simp(raw(s)) for s in shape)

    # --- constructors
    @staticmethod
    def make(shape, get, sort):
        return FArr(Store([raw(s) for s in shape], get, sort))

    @staticmethod
    def const(shape, value, sort=None):
        v = raw(value)
        s = sort or kind(v)
        v = coerce(v, s)
        return FArr.make(shape, lambda idx: v, s)

    @staticmethod
    def symbolic(name, shape, sort='R'):
        n = CTX.counters.get('arr ' + name, 0)
        CTX.counters['arr ' + name] = n + 1
        nm = name if n == 0 else '%s!%d' % (name, n)
        rs = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[sort]
        f = z3.Function(nm, *([z3.IntSort()] * len(shape) + [rs]))
        return FArr.make(shape, lambda idx: f(*[z(i) for i in idx]), sort)

    @staticmethod
    def from_nd(a):
        a = _np.asarray(a)
        flat = a
        kinds = {kind(raw(x)) for x in a.ravel()} or {'R'}
        if a.dtype.kind == 'f':
            kinds = {'R'}
        sort = 'R' if 'R' in kinds else ('I' if 'I' in kinds else 'B')

        def get(idx):
            def rec(sub, rest):
                if not rest:
                    return coerce(raw(sub if not isinstance(sub, _np.ndarray) else sub.item()), sort)
                i = rest[0]
                if isinstance(i, int):
                    return rec(sub[i], rest[1:])
                n = sub.shape[0]
                r = rec(sub[n - 1], rest[1:])
                for k in range(n - 2, -1, -1):
                    r = ite(eq(i, k), rec(sub[k], rest[1:]), r)
                return r
            return rec(flat, list(idx))
        return FArr.make(a.shape, get, sort)

    # --- access
    @property
    def shape(self):
        return tuple(wrap(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return wrap(prod(self._shape))

    @property
    def sort(self):
        return self.store.sort

    @property
    def dtype(self):
        return FDtype(self.sort)

    def __len__(self):
        s = self._shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported('len() of a symbolic dimension')

    def base_index(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1:
                    i = mul(i, a[3])
                out.append(add(i, a[2]))
        return tuple(out)

    def at(self, idx):
        """raw value at a raw view index"""
        return self.store.get(self.base_index(tuple(idx)))

    def reader(self):
        """snapshot of the present contents"""
        g = self.store.snapshot()
        return lambda idx: g(self.base_index(tuple(idx)))

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to an ndarray')

    def __iter__(self):
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported('iteration over a symbolic dimension')
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        raise Unsupported('truth value of an array')

    __hash__ = None

    # --- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nd = sum(1 for k in key if k is not None and k is not Ellipsis)
        for k in key:
            if isinstance(k, FArr) and k.sort == 'B':
                nd += k.ndim - 1
        if Ellipsis in [k for k in key if k is Ellipsis or isinstance(k, type(Ellipsis))]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - nd)
        else:
            key += [slice(None)] * (self.ndim - nd)
        return key

    def _slice(self, s, n):
        """(start, length, step) of slice s on an axis of length n (n raw)"""
        step = 1 if s.step is None else raw(s.step)
        if step == -1:
            start = sub(n, 1) if s.start is None else self._bound(s.start, n, True)
            if s.stop is not None:
                stop = self._bound(s.stop, n, True)
            else:
                stop = -1
            return start, mx(sub(start, stop), 0), -1
        if step != 1:
            if isinstance(step, int) and step > 0:
                start = 0 if s.start is None else self._bound(s.start, n)
                stop = n if s.stop is None else self._bound(s.stop, n)
                length = mx(floordiv(add(sub(stop, start), step - 1), step), 0)
                return start, length, step
            raise Unsupported('slice step')
        start = 0 if s.start is None else self._bound(s.start, n)
        stop = n if s.stop is None else self._bound(s.stop, n)
        if s.start is None and s.stop is None:
            return 0, n, 1
        d = sub(stop, start)
        if CTX.decide(ge(d, 0)):
            return start, K.simp(d), 1
        return start, 0, 1

    def _bound(self, b, n, neg=False):
        b = raw(b)
        if CTX.decide(lt(b, 0)):
            b = add(b, n)
            if CTX.decide(lt(b, 0)):
                return -1 if neg else 0
            return b
        if CTX.decide(gt(b, n)):
            return sub(n, 1) if neg else n
        return b

    def _view(self, key):
        """basic indexing; returns a FArr view or, for a full integer index, a scalar"""
        newshape = []
        axmap = {}          # old view axis -> ('fix', i) | ('ax', newaxis, start, step)
        d = 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                start, length, step = self._slice(k, n)
                axmap[d] = ('ax', len(newshape), start, step)
                newshape.append(length)
            else:
                if isinstance(k, (Positions, str)):
                    raise Unsupported('index')
                i = as_raw_index(k)
                if kind(i) != 'I':
                    raise Unsupported('index kind')
                if CTX.decide(lt(i, 0)):
                    i = add(i, n)
                    if CTX.decide(lt(i, 0)):
                        raise ModeledError('IndexError')
                elif CTX.decide(ge(i, n)):
                    raise ModeledError('IndexError')
                axmap[d] = ('fix', i)
            d += 1
        if d != self.ndim:
            raise ModeledError('IndexError: too many indices')
        axes = []
        for a in self.axes:
            if a[0] == 'fix':
                axes.append(a)
                continue
            m = axmap[a[1]]
            if m[0] == 'fix':
                axes.append(('fix', add(mul(m[1], a[3]), a[2])))
            else:
                axes.append(('ax', m[1], add(mul(m[2], a[3]), a[2]), a[3] * m[3]))
        return FArr(self.store, axes, newshape)

    def __getitem__(self, key):
        if isinstance(key, IndexSet):
            return Masked(self, key)
        key = self._norm_key(key)
        if any(isinstance(k, Masked) for k in key):
            return self._coord_get(key)
        if CTX.ghosts.get('enumerate') and has_index_array(key):
            return self._adv_get(self._enum_key(key))
        if any(isinstance(k, FArr) and k.sort == 'B' for k in key):
            return self._mask_get(key)
        if any(isinstance(k, (FArr, _np.ndarray, list, tuple)) for k in key):
            return self._fancy_get(key)
        v = self._view(key)
        if v.ndim == 0:
            return wrap(v.at(()))
        return v

    def _mask_view(self, key):
        """key with one boolean array: the basic view with full slices in place of its axes, the mask, its first axis in the view"""
        pos = [i for i, k in enumerate(key) if isinstance(k, FArr) and k.sort == 'B']
        if len(pos) != 1 or any(isinstance(k, (FArr, _np.ndarray, list, tuple)) for i, k in enumerate(key) if i != pos[0]):
            raise Unsupported('mask indexing')
        p, m = pos[0], key[pos[0]]
        if p and any(k is None for k in key):
            raise Unsupported('mask indexing')
        v = self._view(list(key[:p]) + [slice(None)] * m.ndim + list(key[p + 1:]))
        first = sum(1 for k in key[:p] if isinstance(k, slice))
        for a in range(m.ndim):
            if not dims_equal(m._shape[a], v._shape[first + a]):
                raise IndexError('boolean index did not match')
        return v, m, first

    def _enum_key(self, key):
        """masks replaced by the coordinates of their enumeration"""
        out = []
        for k in key:
            if isinstance(k, FArr) and k.sort == 'B':
                out += list(Enum.of(k).coords())
            else:
                out.append(k)
        return out

    def _adv(self, key):
        """(view with full slices in place of the index arrays, [(array, view axis)], shape of the selection, its first axis)"""
        basic, arrs, n, advpos, front, seen_gap = [], [], 0, None, False, False
        for k in key:
            isarr = isinstance(k, (FArr, _np.ndarray, list, tuple))
            if isarr:
                a = k if isinstance(k, FArr) else lift(k)
                arrs.append((a, n))
                basic.append(slice(None))
            else:
                basic.append(k)
            adv = isarr or not (k is None or isinstance(k, slice))
            if adv:
                if advpos is None:
                    advpos = n
                elif seen_gap:
                    front = True
            else:
                if advpos is not None:
                    seen_gap = True
            if isarr or k is None or isinstance(k, slice):
                n += 1
        # the axes of the view before the first advanced index (only slices and new axes come before it)
        v = self._view(basic)
        axes = [p for _, p in arrs]
        sel = bshape(*[a._shape for a, _ in arrs])
        if front:
            advpos = 0
        rest = [a for a in range(v.ndim) if a not in axes]
        shape = [v._shape[a] for a in rest]
        shape[advpos:advpos] = list(sel)
        return v, arrs, sel, advpos, rest, shape

    def _adv_get(self, key):
        v, arrs, sel, p, rest, shape = self._adv(key)
        r = v.reader()
        rds = []
        g = generic_index(sel, 'sel')
        for a, ax in arrs:
            rd = broadcast_reader(a, sel)
            rds.append((rd, ax))
            if all(isinstance(s, int) for s in sel):
                vals = [rd(i) for i in _np.ndindex(*sel)]
            else:
                vals = [rd(g)]
            for x in vals:
                c = and_(ge(x, 0), lt(x, v._shape[ax]))
                if c is not True:
                    CTX.prove('index of a selection in bounds', implies(within(g, sel), c))

        def get(idx):
            s = idx[p:p + len(sel)]
            o = idx[:p] + idx[p + len(sel):]
            full = [None] * v.ndim
            for a, i in zip(rest, o):
                full[a] = i
            for rd, ax in rds:
                full[ax] = rd(s)
            return r(tuple(full))
        return FArr.make(shape, get, self.sort)

    def _adv_set(self, key, value):
        v, arrs, sel, p, rest, shape = self._adv(key)
        if len(sel) != 1:
            raise Unsupported('assignment through index arrays of several dimensions')
        enums = [getattr(a, 'enum', None) for a, _ in arrs]
        if all(e is not None for e in enums) and all(e[0] is enums[0][0] for e in enums) and sorted(e[1] for e in enums) == list(range(len(enums[0][0].p))):
            E = enums[0][0]
            ax = {e[1]: q for e, (_, q) in zip(enums, arrs)}
            pick = lambda idx: [idx[ax[k]] for k in range(len(ax))]

            def hit(idx):
                x = pick(idx)
                return and_(within(x, E.shape), E.mask(tuple(x))), (lambda: E.rank(x))
        else:
            if any(isinstance(k, slice) for k in key):
                raise Unsupported('assignment through index arrays and slices')
            rds = [broadcast_reader(a, sel) for a, _ in arrs]
            sc = Scatter(lambda j: tuple(rd((j,)) for rd in rds), sel[0], 'assignment')
            order = [q for _, q in arrs]

            def hit(idx):
                c, t = sc.hit([idx[q] for q in order])
                return c, (lambda: t)
        if isinstance(value, (FArr, _np.ndarray, list, tuple)) and lift(value).ndim > 0:
            rd = broadcast_reader(lift(value), shape)

            def val(b):
                idx = v._region(b)[1]
                o = [idx[a] for a in rest]
                o[p:p] = [hit(idx)[1]()]
                return rd(tuple(o))
        else:
            c0 = raw(value)
            val = lambda b: c0

        def cond(b):
            r, idx = v._region(b)
            return False if r is False else and_(r, hit(idx)[0])
        v.store.write(cond, lambda b: coerce(val(b), v.store.sort))

    def _mask_get(self, key):
        v, m, first = self._mask_view(key)
        if v.ndim == m.ndim:
            return Masked(v, IndexSet(m, list(range(m.ndim))))
        raise Unsupported('mask indexing')

    def _coord_view(self, key):
        """key containing coordinate arrays of an index set (elements of np.where(mask)):
        the basic view with full slices in their place, the mask, and the reader of the mask at a view index"""
        basic, pos, n = [], [], 0
        for k in key:
            if isinstance(k, Masked):
                pos.append((k, n))
                basic.append(slice(None))
                n += 1
            elif isinstance(k, (list, tuple)) and len(k) == 1:
                basic.append(k[0])
            elif k is None or isinstance(k, slice):
                basic.append(k)
                n += 1
            elif isinstance(k, (FArr, _np.ndarray, list, tuple)):
                raise Unsupported('fancy index with coordinates')
            else:
                basic.append(k)
        v = self._view(basic)
        mask = pos[0][0].index.mask
        ax = {}
        for m, p in pos:
            if m.coord is None or m.coord in ax:
                raise Unsupported('fancy index')
            check_same_mask(mask, m.index.mask)
            if not dims_equal(mask._shape[m.coord], v._shape[p]):
                raise Unsupported('coordinates of a larger array')
            ax[m.coord] = p
        for a in range(mask.ndim):
            if a not in ax and not (isinstance(mask._shape[a], int) and mask._shape[a] == 1):
                raise Unsupported('fancy index without all the coordinates')
        mr = mask.reader()
        at = lambda idx: mr(tuple(idx[ax[a]] if a in ax else 0 for a in range(mask.ndim)))
        same = v.ndim == mask.ndim and all(ax.get(a) == a for a in range(mask.ndim))
        return v, mask, at, same

    def _coord_get(self, key):
        v, mask, at, same = self._coord_view(key)
        if not same:
            raise Unsupported('fancy index')
        return Masked(v, IndexSet(mask, list(range(mask.ndim))))

    def _coord_set(self, key, value):
        v, mask, at, same = self._coord_view(key)
        if isinstance(value, Masked):
            if not same:
                raise Unsupported('fancy assignment')
            return self._mask_set(v, mask, value)
        if isinstance(value, (FArr, _np.ndarray, list, tuple)) and lift(value).ndim > 0:
            raise Unsupported('fancy assignment of an array')
        c = raw(value)

        def cond(b):
            r, idx = v._region(b)
            return False if r is False else and_(r, at(idx))
        v.store.write(cond, lambda b: coerce(c, v.store.sort))

    def _fancy_get(self, key):
        lead = key[0]
        if isinstance(lead, (list, tuple)) and len(lead) == 1 and not any(isinstance(k, (FArr, _np.ndarray, list, tuple)) for k in key[1:]):
            # one index given as a list, and integers: the broadcast axis of length one comes first
            return self._view([None, lead[0]] + list(key[1:]))
        pos = [i for i, k in enumerate(key) if isinstance(k, (FArr, _np.ndarray, list))]
        if len(pos) == 1 and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != pos[0]):
            p = pos[0]
            ia = lift(key[p])
            if ia.ndim != 1:
                raise Unsupported('fancy index')
            r = self.reader()
            ir = ia.reader()
            shape = list(self._shape)
            shape[p] = ia._shape[0]
            return FArr.make(shape, lambda idx: r(idx[:p] + (ir((idx[p],)),) + idx[p + 1:]), self.sort)
        raise Unsupported('fancy index')

    def __setitem__(self, key, value):
        if isinstance(key, IndexSet):
            return self._mask_set(self, key.mask, value)
        key = self._norm_key(key)
        if any(isinstance(k, Masked) for k in key):
            return self._coord_set(key, value)
        if CTX.ghosts.get('enumerate') and has_index_array(key):
            return self._adv_set(self._enum_key(key), value)
        if any(isinstance(k, FArr) and k.sort == 'B' for k in key):
            v, m, first = self._mask_view(key)
            if v.ndim == m.ndim:
                return self._mask_set(v, m, value)
            if isinstance(value, Masked) or isinstance(value, (FArr, _np.ndarray, list, tuple)) and lift(value).ndim > 0:
                raise Unsupported('assignment of an array to a masked selection')
            mr, c0 = m.reader(), raw(value)

            def cond(b):
                r, idx = v._region(b)
                return False if r is False else and_(r, mr(tuple(idx[first:first + m.ndim])))
            v.store.write(cond, lambda b: coerce(c0, v.store.sort))
            return
        if len(key) == 1 and isinstance(key[0], (_np.ndarray, list)) and self.ndim == 1:
            ks = list(_np.asarray(key[0], dtype=object).ravel())
            vs = list(_np.broadcast_to(_np.asarray(value, dtype=object), (len(ks),)))
            for k, v in zip(ks, vs):
                self._view([k]).assign(v)
            return
        if len(key) and isinstance(key[0], (list, tuple)) and len(key[0]) == 1 and not has_symarr(value):
            key = [key[0][0]] + list(key[1:])
        if any(isinstance(k, (FArr, _np.ndarray, list, tuple)) for k in key):
            raise Unsupported('fancy assignment')
        v = self._view(key)
        v.assign(value)

    def _region(self, base):
        """membership of a base index in the view, and the view index"""
        conds = []
        idx = [0] * self.ndim
        for a, b in zip(self.axes, base):
            if a[0] == 'fix':
                conds.append(eq(b, a[1]))
            else:
                i = sub(b, a[2])
                if a[3] == -1:
                    i = neg(i)
                elif a[3] != 1:
                    conds.append(eq(mod(i, a[3]), 0))
                    i = floordiv(i, a[3])
                n = self._shape[a[1]]
                if not (isinstance(i, int) and i == 0 and False):
                    conds.append(ge(i, 0))
                    conds.append(lt(i, n))
                idx[a[1]] = K.simp(i)
        return and_(*conds), tuple(idx)

    def assign(self, value):
        if isinstance(value, Masked):
            raise Unsupported('assignment of a masked selection')
        if isinstance(value, (FArr, _np.ndarray, list, tuple)):
            val = lift(value)
            rd = broadcast_reader(val, self._shape)
            self.store.write(lambda b: self._region(b)[0], lambda b: coerce(rd(self._region(b)[1]), self.store.sort))
        else:
            c = coerce(raw(value), self.store.sort)
            self.store.write(lambda b: self._region(b)[0], lambda b: c)

    @staticmethod
    def _mask_set(arr, mask, value):
        check_same_shape(arr, mask)
        mr = mask.reader()
        if isinstance(value, Masked):
            check_same_mask(mask, value.index.mask)
            vr = value.arr.reader()
            val = lambda idx: vr(idx)
        elif isinstance(value, (FArr, _np.ndarray)) and lift(value).ndim > 0:
            raise Unsupported('assignment of an array to a masked selection')
        else:
            c = raw(value)
            val = lambda idx: c

        def cond(b):
            r, idx = arr._region(b)
            if r is False:
                return False
            return and_(r, mr(idx))
        arr.store.write(cond, lambda b: coerce(val(arr._region(b)[1]), arr.store.sort))

    # --- arithmetic
    def _binop(f, swap=False, res=None):
        def m(self, o):
            if isinstance(o, Masked):
                return NotImplemented
            if _isinf(o):
                o2 = float(o)
                if f in (lt, le, gt, ge, eq, ne):
                    pos = o2 > 0
                    v = {lt: pos, le: pos, gt: not pos, ge: not pos, eq: False, ne: True}[f]
                    return FArr.const(self._shape, v, 'B')
                raise Unsupported('arithmetic with infinity')
            if not isinstance(o, (FArr, _np.ndarray, Sym, bool, int, float, Fraction, _np.generic)):
                return NotImplemented
            return elementwise((lambda a, b: f(b, a)) if swap else f, self, o)
        return m

    __add__, __radd__ = _binop(add), _binop(add, True)
    __sub__, __rsub__ = _binop(sub), _binop(sub, True)
    __mul__, __rmul__ = _binop(mul), _binop(mul, True)
    __truediv__, __rtruediv__ = _binop(div), _binop(div, True)
    __floordiv__, __rfloordiv__ = _binop(floordiv), _binop(floordiv, True)
    __mod__, __rmod__ = _binop(mod), _binop(mod, True)
    __pow__ = _binop(pow_)
    __lt__, __le__, __gt__, __ge__ = _binop(lt), _binop(le), _binop(gt), _binop(ge)
    __eq__, __ne__ = _binop(eq), _binop(ne)
    __and__ = __rand__ = _binop(lambda a, b: and_(a, b))
    __or__ = __ror__ = _binop(lambda a, b: or_(a, b))
    __xor__ = __rxor__ = _binop(lambda a, b: ne(tobool(a), tobool(b)))
    del _binop

    def __iadd__(self, o):
        self.assign(self + o)
        return self

    def __isub__(self, o):
        self.assign(self - o)
        return self

    def __imul__(self, o):
        self.assign(self * o)
        return self

    def __itruediv__(self, o):
        self.assign(self / o)
        return self

    def __iand__(self, o):
        self.assign(self & o)
        return self

    def __ior__(self, o):
        self.assign(self | o)
        return self

    def __neg__(self):
        return unary(neg, self)

    def __abs__(self):
        return unary(abs_, self)

    def __invert__(self):
        if self.sort != 'B':
            raise Unsupported('~ on integers')
        return unary(not_, self)

    # --- methods
    def copy(self, order=None):
        return FArr.make(self._shape, self.reader(), self.sort)

    def astype(self, d, **k):
        s = sort_of_dtype(d)
        r = self.reader()
        return FArr.make(self._shape, lambda idx: coerce(r(idx), s), s)

    def fill(self, v):
        self.assign(v)

    def _squeezed(self):
        return [a for a, n in enumerate(self._shape) if not (isinstance(n, int) and n == 1)]

    def reshape(self, *shape):
        """only axes of length one are added or dropped (a copy: numpy gives a view or a copy)"""
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        shape = [raw(x) for x in shape]
        a = self._squeezed()
        b = [k for k, n in enumerate(shape) if not (isinstance(n, int) and n == 1)]
        if len(a) == 1 and len(b) == 1 and isinstance(shape[b[0]], int) and shape[b[0]] == -1:
            shape[b[0]] = self._shape[a[0]]
        if len(a) != len(b):
            raise Unsupported('reshape')
        for i, k in zip(a, b):
            if not dims_equal(self._shape[i], shape[k]):
                raise Unsupported('reshape')
        r, n = self.reader(), self.ndim

        def get(idx):
            full = [0] * n
            for i, k in zip(a, b):
                full[i] = idx[k]
            return r(tuple(full))
        return FArr.make(shape, get, self.sort)

    def ravel(self, *a):
        """at most one axis whose length is not one"""
        k = self._squeezed()
        if len(k) > 1:
            raise Unsupported('ravel')
        return self.reshape((self._shape[k[0]] if k else 1,))

    flatten = ravel

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (list, tuple, _np.ndarray)):
            axes = axes[0]
        axes = [int(a) for a in axes] or list(range(self.ndim))[::-1]
        inv = {old: new for new, old in enumerate(axes)}
        ax = [a if a[0] == 'fix' else ('ax', inv[a[1]], a[2], a[3]) for a in self.axes]
        return FArr(self.store, ax, [self._shape[a] for a in axes])

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        raise Unsupported('flags')

    def nonzero(self):
        if CTX.ghosts.get('enumerate'):
            return Enum.of(self if self.sort == 'B' else unary(tobool, self)).coords()
        return IndexSet(self if self.sort == 'B' else unary(tobool, self), list(range(self.ndim)))

    def any(self):
        return SymAny(self)

    def min(self, *a, **k):
        raise Unsupported('min of an array')

    max = sum = min

    def __repr__(self):
        return 'FArr%s' % (self._shape,)


def _isinf(o):
    return isinstance(o, (float, _np.floating)) and o in (float('inf'), float('-inf'))


def SymAny(a):
    raise Unsupported('any() of a symbolic array')


def check_same_shape(a, b):
    if len(a._shape) != len(b._shape):
        raise Unsupported('mask of another rank')
    for x, y in zip(a._shape, b._shape):
        if not dims_equal(x, y):
            raise ModeledError('IndexError: boolean index did not match')


def generic_index(shape, name='g'):
    idx = []
    for s in shape:
        i = CTX.fresh(name, 'I')
        CTX.add(z3.And(i >= 0, i < z(raw(s))))
        idx.append(i)
    return tuple(idx)


def check_same_mask(m1, m2):
    """two selections have the same index set: proved at a generic index (and identical order by row-major rule)"""
    if m1 is m2:
        return
    r1, r2 = m1.reader(), m2.reader()
    check_same_shape(m1, m2)
    CTX.solver.push()
    idx = [CTX.fresh('q', 'I') for _ in m1._shape]
    rng = [z3.And(i >= 0, i < z(s)) for i, s in zip(idx, m1._shape)]
    same = eq(r1(tuple(idx)), r2(tuple(idx)))
    CTX.solver.pop()
    if same is True:
        return
    if CTX._check(*(rng + [z3.Not(z(same))])) != z3.unsat:
        raise Unsupported('selections through different masks')


class IndexSet:
    """result of np.where(mask) / mask.nonzero(): the set of indices where the mask holds, row-major"""

    def __init__(self, mask, axes):
        self.mask = mask
        self.axes = axes

    def __len__(self):
        return len(self.axes)

    def __getitem__(self, k):
        if isinstance(k, int):
            ax = self.axes[k]
            return Masked(FArr.make(self.mask._shape, lambda idx: idx[ax], 'I'), IndexSet(self.mask, list(range(self.mask.ndim))), ax)
        raise Unsupported('index of an index set')

    def __iter__(self):
        return iter([self[k] for k in range(len(self.axes))])


class Enum:
    """the indices where a mask holds, numbered from 0 to card - 1: positions and rank are inverse maps"""

    def __init__(self, mask):
        n = CTX.counters.get('enum', 0)
        CTX.counters['enum'] = n + 1
        self.shape, self.mask, nd = mask._shape, mask.reader(), mask.ndim
        self.card = CTX.fresh('card', 'I')
        CTX.add(self.card >= 0)
        I = z3.IntSort()
        self.p = [z3.Function('pos%d_%d' % (n, d), I, I) for d in range(nd)]
        self.r = z3.Function('rank%d' % n, *([I] * (nd + 1)))
        self.done, self.ranks = {}, {}

    def pos(self, j):
        if key_of(j) in self.ranks:
            # position of rank(x), used where x satisfies the mask only
            return self.ranks[key_of(j)]
        k = ('p', key_of(j))
        if k not in self.done:
            t = tuple(f(z(j)) for f in self.p)
            self.done[k] = t, j
            CTX.add(implies(and_(ge(j, 0), lt(j, self.card)), and_(within(t, self.shape), self.mask(t), eq(self.r(*t), j))))
        return self.done[k][0]

    def rank(self, x):
        k = ('r',) + tuple(key_of(i) for i in x)
        if k not in self.done:
            t = self.r(*[z(i) for i in x])
            self.done[k] = t, x
            self.ranks[key_of(t)] = tuple(x)
            CTX.add(implies(and_(within(x, self.shape), self.mask(tuple(x))), and_(ge(t, 0), lt(t, self.card), *[eq(f(t), i) for f, i in zip(self.p, x)])))
        return self.done[k][0]

    def coords(self):
        out = []
        for a in range(len(self.p)):
            c = FArr.make((self.card,), lambda idx, a=a: self.pos(idx[0])[a], 'I')
            c.enum = self, a
            out.append(c)
        return tuple(out)

    @staticmethod
    def of(mask):
        """the numbering of the mask; equal masks have the same one"""
        L = CTX.ghosts.setdefault('enums', [])
        q = tuple(CTX.fresh('q', 'I') for _ in mask._shape)
        v = mask.at(q)
        rng = within(q, mask._shape)
        for e in L:
            if len(e.shape) == len(q) and all(eq(a, b) is True or is_z3(a) and is_z3(b) and a.eq(b) for a, b in zip(e.shape, mask._shape)):
                w = eq(v, e.mask(q))
                if w is True or CTX._check(z(and_(rng, not_(w)))) == z3.unsat:
                    return e
        e = Enum(mask)
        L.append(e)
        return e


class Scatter:
    """assignment through index arrays: the (proved unique) position where an entry is stored"""

    def __init__(self, rows, n, name):
        """rows: position -> tuple of indices"""
        k = CTX.counters.get('scatter', 0)
        CTX.counters['scatter'] = k + 1
        self.rows, self.n, self.known, self.terms = rows, n, [], []
        a, b = CTX.fresh('pa', 'I'), CTX.fresh('pb', 'I')
        ra, rb = rows(a), rows(b)
        ok = lambda x: and_(ge(x, 0), lt(x, n))
        CTX.prove('%s: an entry is stored once' % name, implies(and_(ok(a), ok(b), *[eq(x, y) for x, y in zip(ra, rb)]), eq(a, b)))
        I = z3.IntSort()
        self.f = z3.Function('stored%d' % k, *([I] * (len(ra) + 1)))
        CTX.ghosts.setdefault('scatters', []).append(self)

    def hit(self, x):
        """(is x one of the rows, its position)"""
        for j, row in self.known:
            if all(key_of(a) == key_of(b) for a, b in zip(row, x)):
                return and_(ge(j, 0), lt(j, self.n)), j
        t = self.f(*[z(i) for i in x])
        if not any(key_of(t) == key_of(y) for y in self.terms):
            self.terms.append(t)
        return and_(ge(t, 0), lt(t, self.n), *[eq(a, b) for a, b in zip(self.rows(t), x)]), t

    def instance(self, j):
        """the row of position j (in range) is found at position j"""
        row = self.rows(j)
        t = self.f(*[z(i) for i in row])
        CTX.add(implies(and_(ge(j, 0), lt(j, self.n)), eq(t, j)))
        self.known.append((j, row))


def has_index_array(key):
    return any(isinstance(k, FArr) or isinstance(k, (list, tuple)) and any(isinstance(e, FArr) for e in k) for k in key)


def key_of(i):
    return i if isinstance(i, int) else ('z', i.get_id())


def within(x, shape):
    return and_(*[and_(ge(i, 0), lt(i, n)) for i, n in zip(x, shape)])


class Positions:
    """np.where(selection)[0]: the positions, inside a selection, of the elements satisfying a condition"""

    def __init__(self, cond):
        self.cond = cond


def has_symarr(v):
    return isinstance(v, (FArr, Masked, list, tuple, _np.ndarray))


class Masked:
    """arr[mask]: the 1d selection, kept as (array, mask)"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, arr, index, coord=None):
        self.coord = coord      # the elements are the indices along this axis
        check_same_shape(arr, index.mask)
        self.arr = FArr.make(arr._shape, arr.reader(), arr.sort)
        self.index = index

    def apply(self, f, o):
        return Masked._generic(f)(self, o)

    def _binop(f, swap=False):
        def m(self, o):
            if isinstance(o, Masked):
                check_same_mask(self.index.mask, o.index.mask)
                o = o.arr
            elif isinstance(o, (FArr, _np.ndarray)):
                if lift(o).ndim > 0:
                    raise Unsupported('masked selection with an array')
            r = elementwise((lambda a, b: f(b, a)) if swap else f, self.arr, o)
            return Masked(r, self.index)
        return m
    __add__, __radd__ = _binop(add), _binop(add, True)
    __sub__, __rsub__ = _binop(sub), _binop(sub, True)
    __mul__, __rmul__ = _binop(mul), _binop(mul, True)
    __truediv__, __rtruediv__ = _binop(div), _binop(div, True)
    __pow__ = _binop(pow_)
    __lt__, __le__, __gt__, __ge__ = _binop(lt), _binop(le), _binop(gt), _binop(ge)
    __eq__, __ne__ = _binop(eq), _binop(ne)
    __and__ = _binop(lambda a, b: and_(a, b))
    __or__ = _binop(lambda a, b: or_(a, b))
    _generic = staticmethod(_binop)
    del _binop

    def nonzero(self):
        return (Positions(self),)

    def __neg__(self):
        return Masked(-self.arr, self.index)

    def __abs__(self):
        return Masked(abs(self.arr), self.index)

    def __invert__(self):
        return Masked(~self.arr, self.index)

    def copy(self):
        return Masked(self.arr, self.index)

    @property
    def ndim(self):
        return 1

    @property
    def size(self):
        raise Unsupported('size of a masked selection')

    shape = size

    def __getitem__(self, k):
        if isinstance(k, Positions):
            k = k.cond
        if isinstance(k, Masked) and k.arr.sort == 'B':
            check_same_mask(self.index.mask, k.index.mask)
            return Masked(self.arr, IndexSet(self.index.mask & k.arr, self.index.axes), self.coord)
        raise Unsupported('index of a masked selection')


def lift(x):
    if isinstance(x, FArr):
        return x
    if isinstance(x, Sym) or isinstance(x, (bool, int, float, Fraction, _np.generic)):
        v = raw(x)
        return FArr.make((), lambda idx: v, kind(v))
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, FArr) for e in x):
            return stack(list(x))
        return FArr.from_nd(_np.asarray(x, dtype=object))
    if isinstance(x, _np.ndarray):
        return FArr.from_nd(x)
    raise Unsupported('array operand %r' % type(x))


def stack(xs, axis=0):
    xs = [lift(x) for x in xs]
    sh = xs[0]._shape
    for x in xs[1:]:
        check_same_shape(xs[0], x)
    sort = 'R' if any(x.sort == 'R' for x in xs) else ('I' if any(x.sort == 'I' for x in xs) else 'B')
    rs = [x.reader() for x in xs]

    def get(idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        if isinstance(k, int):
            return coerce(rs[k](rest), sort)
        r = coerce(rs[-1](rest), sort)
        for j in range(len(rs) - 2, -1, -1):
            r = ite(eq(k, j), coerce(rs[j](rest), sort), r)
        return r
    return FArr.make(sh[:axis] + (len(xs),) + sh[axis:], get, sort)


def concatenate(xs, axis=0):
    xs = [lift(x) for x in xs]
    sort = 'R' if any(x.sort == 'R' for x in xs) else ('I' if any(x.sort == 'I' for x in xs) else 'B')
    nd = xs[0].ndim
    for x in xs[1:]:
        for d in range(nd):
            if d != axis and not dims_equal(x._shape[d], xs[0]._shape[d]):
                raise ModeledError('ValueError: concatenate')
    rs = [x.reader() for x in xs]
    offs = [0]
    for x in xs:
        offs.append(add(offs[-1], x._shape[axis]))

    def get(idx):
        k = idx[axis]
        r = None
        for j in range(len(xs) - 1, -1, -1):
            i = sub(k, offs[j])
            if r is not None and (lt(k, offs[j + 1]) is False or ge(i, 0) is False):
                continue
            if len(xs) > 1 and (ge(i, 0) is False and j or isinstance(i, int) and isinstance(xs[j]._shape[axis], int) and i >= xs[j]._shape[axis]):
                continue
            v = coerce(rs[j](idx[:axis] + (i,) + idx[axis + 1:]), sort)
            r = v if r is None else ite(lt(k, offs[j + 1]), v, r)
        return r
    sh = list(xs[0]._shape)
    sh[axis] = offs[-1]
    return FArr.make(sh, get, sort)


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if isinstance(cur, int) and cur == 1:
                cur = n
            elif isinstance(n, int) and n == 1:
                pass
            elif conc(cur, n):
                if cur != n:
                    raise ModeledError('ValueError: shapes do not broadcast')
            elif is_z3(cur) and is_z3(n) and cur.eq(n):
                pass
            elif dims_equal(cur, n):
                pass
            elif is1(n):
                pass
            elif is1(cur):
                cur = n
            else:
                raise ModeledError('ValueError: shapes do not broadcast')
        out.append(cur)
    return tuple(out)


def broadcast_reader(a, shape):
    """reader of array a at indices of the broadcast shape"""
    r = a.reader()
    nd = len(shape)
    off = nd - a.ndim
    if off < 0:
        # numpy allows leading dimensions of size 1 in assignments
        if all(isinstance(s, int) and s == 1 for s in a._shape[:-off]):
            lead = (0,) * (-off)
            sub_ = FArr.make(a._shape[-off:], lambda idx: r(lead + tuple(idx)), a.sort)
            return broadcast_reader(sub_, shape)
        raise ModeledError('ValueError: cannot broadcast')
    ones = []
    for d in range(a.ndim):
        n, m = a._shape[d], shape[d + off]
        if isinstance(n, int) and n == 1:
            ones.append(True)
        elif conc(n, m):
            if n != m:
                raise ModeledError('ValueError: could not broadcast input array')
            ones.append(False)
        elif is_z3(n) and is_z3(m) and n.eq(m):
            ones.append(False)
        elif dims_equal(n, m):
            ones.append(False)
        elif is1(n):
            ones.append(True)
        else:
            raise ModeledError('ValueError: could not broadcast input array')

    def get(idx):
        return r(tuple(0 if o else i for o, i in zip(ones, idx[off:])))
    return get


def elementwise(f, *args):
    arrs = [lift(a) for a in args]
    sh = bshape(*[a._shape for a in arrs])
    rs = [broadcast_reader(a, sh) for a in arrs]
    get = lambda idx: f(*[r(idx) for r in rs])
    sort = probe_sort(f, [a.sort for a in arrs])
    return FArr.make(sh, get, sort)


_probe = {}


def probe_sort(f, sorts):
    fresh = {'R': z3.Real('pr'), 'I': z3.Int('pi'), 'B': z3.Bool('pb')}
    if f is pow_ or getattr(f, 'is_pow', False):
        return 'R' if 'R' in sorts else 'I'
    try:
        return kind(f(*[fresh[s] for s in sorts]))
    except Unsupported:
        return 'R'


def unary(f, a):
    if isinstance(a, Masked):
        return Masked(unary(f, a.arr), a.index)
    return elementwise(f, a)
