"""helpers shared by the property modules"""
from fractions import Fraction
import math


def symlist_spec():
    pass


class SymList:
    """a Python list of symbolic length n with element function get"""

    def __init__(self, n, get):
        self.n, self.get = n, get
        self.extra = []

    def append(self, x):
        self.extra.append(x)

    def length(self):
        from .core import add
        return add(self.n, len(self.extra))

    def elem(self, i):
        """raw element at raw index"""
        from .core import ite, eq, add, raw
        r = self.get(i)
        for j, x in enumerate(self.extra):
            r = ite(eq(i, add(self.n, j)), raw(x), r)
        return r

    def __getitem__(self, i):
        from .core import raw, add, CTX, lt, ge, wrap, ModeledError, Unsupported, is_z3
        if isinstance(i, slice):
            raise Unsupported('slice of a symbolic list')
        i = raw(i)
        if not is_z3(i) and i == -1 and self.extra:
            return self.extra[-1]
        if CTX.decide(lt(i, 0)):
            i = add(i, self.length())
        if CTX.decide(lt(i, 0)) or CTX.decide(ge(i, self.length())):
            raise ModeledError('IndexError: list index out of range')
        return wrap(self.elem(i))

    def __len__(self):
        from .core import Unsupported
        raise Unsupported('len of a symbolic list')


def frac(v):
    return Fraction(*v) if isinstance(v, (list, tuple)) else Fraction(v)
