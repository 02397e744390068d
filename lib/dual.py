"""Dual numbers with named directions and a running magnitude, to write down reference models.

v: value, d: {direction: derivative}; s, ds: sums of the magnitudes of the terms, against which
rounding is measured."""
import math


class Dual:
    __slots__ = ("v", "d", "s", "ds")

    def __init__(self, v, d=None, s=None, ds=None):
        self.v = v
        self.d = d or {}
        self.s = abs(v) if s is None else s
        self.ds = ds if ds is not None else {k: abs(x) for k, x in self.d.items()}

    def _lin(self, o, a, b):
        dd = {k: a * x for k, x in self.d.items()}
        ds = {k: abs(a) * x for k, x in self.ds.items()}
        for k, x in o.d.items():
            dd[k] = dd.get(k, 0.0) + b * x
        for k, x in o.ds.items():
            ds[k] = ds.get(k, 0.0) + abs(b) * x
        return dd, ds

    def __add__(self, o):
        o = lift(o)
        dd, ds = self._lin(o, 1.0, 1.0)
        return Dual(self.v + o.v, dd, self.s + o.s, ds)

    def __sub__(self, o):
        o = lift(o)
        dd, ds = self._lin(o, 1.0, -1.0)
        return Dual(self.v - o.v, dd, self.s + o.s, ds)

    def __mul__(self, o):
        if not isinstance(o, Dual):
            return Dual(self.v * o, {k: o * x for k, x in self.d.items()}, self.s * abs(o), {k: abs(o) * x for k, x in self.ds.items()})
        dd, ds = {}, {}
        for k in set(self.ds) | set(o.ds):
            dd[k] = self.d.get(k, 0.0) * o.v + self.v * o.d.get(k, 0.0)
            ds[k] = self.ds.get(k, 0.0) * o.s + self.s * o.ds.get(k, 0.0)
        return Dual(self.v * o.v, dd, self.s * o.s, ds)

    def __truediv__(self, o):
        if not isinstance(o, Dual):
            return self * (1.0 / o)
        return self * o.apply(1.0 / o.v, -1.0 / (o.v * o.v))

    def apply(self, f, df):
        """f(self) with derivative df; magnitudes grow by the condition of the function"""
        c = abs(df)
        r = self.s / abs(self.v) if self.v else 1.0
        return Dual(f, {k: df * x for k, x in self.d.items()}, abs(f) + c * (self.s - abs(self.v)), {k: c * x * (1.0 + r) for k, x in self.ds.items()})

    def __neg__(self):
        return self * -1.0
    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return lift(o) - self

    def __rtruediv__(self, o):
        return lift(o) / self

    def __repr__(self):
        return "Dual(%r, %r)" % (self.v, self.d)


def lift(x):
    return x if isinstance(x, Dual) else Dual(x)


def exp(x):
    e = math.exp(x.v)
    return x.apply(e, e)


def log(x):
    return x.apply(math.log(x.v), 1.0 / x.v)


def pw(x, y):
    """x^y, y a number or a dual"""
    if isinstance(y, Dual):
        return exp(y * log(x))
    return x.apply(x.v ** y, y * x.v ** (y - 1.0))


def mx(x, y):
    x, y = lift(x), lift(y)
    return x if x.v > y.v else y


def _bern(x):
    if abs(x) < 1e-2:
        x2 = x * x
        return 1.0 - x / 2 + x2 / 12 - x2 * x2 / 720 + x2 ** 3 / 30240
    return x / math.expm1(x) if x < 700 else 0.0


def _dbern(x):
    if abs(x) < 1e-2:
        return -0.5 + x / 6 - x ** 3 / 180 + x ** 5 / 5040
    if x > 350:
        return (1.0 - x) * math.exp(-x)
    e = math.expm1(x)
    return (e - x * (e + 1.0)) / (e * e)


def bern(x):
    return x.apply(_bern(x.v), _dbern(x.v))
