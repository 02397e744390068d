"""An independent reading of the expression language: parser, evaluation and automatic differentiation."""
import math, re

TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)|([A-Za-z_$@][A-Za-z0-9_@:.]*)|(<=|>=|==|!=|&&|\|\||.))")
PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "^": 7}


class Undefined(Exception):
    pass


def parse(s):
    toks = []
    i = 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        toks.append(("n", float(m.group(1))) if m.group(1) else ("v", m.group(2)) if m.group(2) else ("o", m.group(3)))
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else ("e", "")

    def expr(minp):
        l = unary()
        while True:
            k, t = peek()
            if k != "o" or t not in PREC or PREC[t] < minp:
                return l
            pos[0] += 1
            r = expr(PREC[t] if t == "^" else PREC[t] + 1)
            l = ("pow", l, r) if t == "^" else (t, l, r)

    def unary():
        k, t = peek()
        if k == "o" and t in "-+!":
            pos[0] += 1
            a = expr(8)
            return ("neg", a) if t == "-" else a if t == "+" else ("!", a)
        return prim()

    def prim():
        k, t = peek()
        pos[0] += 1
        if k == "n":
            return ("num", t)
        if k == "v":
            if peek() == ("o", "("):
                pos[0] += 1
                a = [expr(0)]
                while peek() == ("o", ","):
                    pos[0] += 1
                    a.append(expr(0))
                if peek() != ("o", ")"):
                    raise SyntaxError(s)
                pos[0] += 1
                return (t,) + tuple(a)
            return ("var", t)
        if t == "(":
            e = expr(0)
            if peek() != ("o", ")"):
                raise SyntaxError(s)
            pos[0] += 1
            return e
        raise SyntaxError(s)
    e = expr(0)
    if pos[0] != len(toks):
        raise SyntaxError(s)
    return e


def rpow(a, b):
    if a == 0.0:
        if b > 0: return 0.0
        if b == 0: return 1.0
        raise Undefined
    if a < 0 and b != math.floor(b):
        raise Undefined
    return math.pow(a, b)


class Env:
    """values of variables, and user functions name -> (value function, [partial derivative functions])"""
    def __init__(self, vals, funcs=None, strict=False):
        self.strict = strict    # 0^0 counts as undefined
        self.v = vals
        self.f = funcs or {}
        self.mag = 1.0
        self.branch = False     # zero was raised to a non-integer power

    def pw(self, a, b):
        if self.strict and a == 0 and b == 0: raise Undefined
        if a == 0 and b != math.floor(b): self.branch = True
        return rpow(a, b)

    def ev(self, e):
        try:
            r = self._ev(e)
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Undefined
        if r != r or r in (math.inf, -math.inf):
            raise Undefined
        return r

    def _ev(self, e):
        k = e[0]
        if k == "num": return e[1]
        if k == "var":
            if e[1] not in self.v: raise KeyError(e[1])
            return self.v[e[1]]
        if k == "ifelse": return self._ev(e[2]) if self._ev(e[1]) else self._ev(e[3])
        if k == "if": return self._ev(e[2]) if self._ev(e[1]) else 0.0
        a = [self._ev(x) for x in e[1:]]
        if k == "+": r = a[0] + a[1]
        elif k == "-": r = a[0] - a[1]
        elif k == "*": r = a[0] * a[1]
        elif k == "/":
            if a[1] == 0: raise Undefined
            r = a[0] / a[1]
        elif k == "neg": r = -a[0]
        elif k == "pow": r = self.pw(a[0], a[1])
        elif k == "exp": r = math.exp(a[0])
        elif k == "log":
            if a[0] <= 0: raise Undefined
            r = math.log(a[0])
        elif k == "!": r = float(not a[0])
        elif k == "<": r = float(a[0] < a[1])
        elif k == "<=": r = float(a[0] <= a[1])
        elif k == ">": r = float(a[0] > a[1])
        elif k == ">=": r = float(a[0] >= a[1])
        elif k == "==": r = float(a[0] == a[1])
        elif k == "!=": r = float(a[0] != a[1])
        elif k == "&&": r = float(bool(a[0]) and bool(a[1]))
        elif k == "||": r = float(bool(a[0]) or bool(a[1]))
        else: r = self.f[k][0](*a)
        if abs(r) > self.mag: self.mag = abs(r)
        return r

    def der(self, e, w):
        """(value, derivative to w) by forward differentiation"""
        try:
            r = self._der(e, w)
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Undefined
        for x in r:
            if x != x or x in (math.inf, -math.inf):
                raise Undefined
        return r

    def _der(self, e, w):
        k = e[0]
        if k == "num": return e[1], 0.0
        if k == "var": return self.v[e[1]], 1.0 if e[1] == w else 0.0
        if k == "ifelse": return self._der(e[2] if self._ev(e[1]) else e[3], w)
        if k == "if": return self._der(e[2], w) if self._ev(e[1]) else (0.0, 0.0)
        A = [self._der(x, w) for x in e[1:]]
        a = [p[0] for p in A]
        q = [p[1] for p in A]
        if k == "+": r = a[0] + a[1], q[0] + q[1]
        elif k == "-": r = a[0] - a[1], q[0] - q[1]
        elif k == "*": r = a[0] * a[1], q[0] * a[1] + a[0] * q[1]
        elif k == "/":
            if a[1] == 0: raise Undefined
            r = a[0] / a[1], q[0] / a[1] - a[0] * q[1] / a[1] / a[1]
        elif k == "neg": r = -a[0], -q[0]
        elif k == "pow":
            p = self.pw(a[0], a[1])
            g = 0.0
            if a[0] <= 0 and names(e[2]):   # the rule for a varying exponent needs a logarithm
                raise Undefined
            if a[0] == 0 and a[1] < 1 and names(e[1]):
                raise Undefined
            if q[0]:
                g += 0.0 if a[1] == 0 and not q[1] and a[0] != 0 else a[1] * rpow(a[0], a[1] - 1) * q[0]
            if q[1]:
                if a[0] <= 0: raise Undefined
                g += p * math.log(a[0]) * q[1]
            r = p, g
        elif k == "exp":
            p = math.exp(a[0])
            r = p, p * q[0]
        elif k == "log":
            if a[0] <= 0: raise Undefined
            r = math.log(a[0]), q[0] / a[0]
        elif k in self.f:
            r = self.f[k][0](*a), sum(f(*a) * t for f, t in zip(self.f[k][1], q) if t)
        else:
            r = self._ev(e), 0.0
        if abs(r[1]) > self.mag: self.mag = abs(r[1])
        if abs(r[0]) > self.mag: self.mag = abs(r[0])
        return r


def names(e, out=None):
    out = set() if out is None else out
    if e[0] == "var": out.add(e[1])
    elif e[0] != "num":
        for x in e[1:]: names(x, out)
    return out
