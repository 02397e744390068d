#!/usr/bin/env python3
"""P18: built-in functions are accurate, consistent and fail where they are undefined.

Enumerates function x argument lattice x argument shape x precision through node models of the real module
and compares every value with a 60 digit reference (mpmath). In extended precision the value is read in two
pieces (the double and the remainder left by the model F(x)-y), so the comparison sees all of its digits.
"""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
if os.environ.get("VC_STAGE") != "1" and os.path.basename(sys.executable) != "python3-vt":
    import shutil
    vt = "/opt/veriftools/pyvenv/bin/python3"
    if sys.executable != vt and os.path.exists(vt):
        os.execve(vt, [vt] + sys.argv, dict(os.environ))
import vc
vc.prepare()
import mpmath as mp
from mpmath import mpf
ctx = vc.Ctx("P18", assumptions=[
    "mpmath at 60 digits is the reference for elementary and error functions",
    "Fermi is defined by the Joyce-Dixon series and its degenerate expansion as published (and is within 1e-5/1e-2 of the integral), gfi by the Paasch-Scheinert formula",
    "derivative functions outside of the domain of their primal, and igfi at exactly 0 and 1, are unspecified",
    "tolerances are stated in units of the machine epsilon times the size of the largest exponent or logarithm in the defining formula"])
d = vc.load_devsim()
mp.mp.dps = 60
DMAX = mpf(sys.float_info.max)
THOROUGH = ctx.thorough
UNDEF = "undefined"
ANY = "any"


def ulps(x, n=2):
    r = [x]
    a = b = x
    for _ in range(n):
        a = math.nextafter(a, math.inf)
        b = math.nextafter(b, -math.inf)
        r += [a, b]
    return r


# ------------------------------------------------------------------ reference functions
def lim(f):
    return f


def r_exp(x): return mp.exp(x)
def r_log(x): return mp.log(x) if x > 0 else UNDEF


def r_B(x):
    if x == 0:
        return mpf(1)
    if abs(x) < mpf(10) ** -25:
        return 1 - x / 2
    return x / mp.expm1(x)


def r_dB(x):
    if abs(x) < mpf(10) ** -12:
        return mpf(-1) / 2 + x / 6 - x ** 3 / 180
    if x > 1000:
        return mp.exp(-x) * (1 - x)
    with mp.workdps(90):
        e1 = mp.expm1(x)
        return (e1 - x * mp.exp(x)) / e1 ** 2


def r_acosh(x): return mp.acosh(x) if x >= 1 else UNDEF
def r_atanh(x): return mp.atanh(x) if abs(x) < 1 else UNDEF


def r_asinh(x):
    if abs(x) < mpf(10) ** -20:
        return x - x ** 3 / 6
    return mp.asinh(x)


def r_erfinv(x):
    if abs(x) >= 1:
        return UNDEF
    if x == 0:
        return mpf(0)
    if abs(x) < mpf(10) ** -18:
        return x * mp.sqrt(mp.pi) / 2 * (1 + mp.pi * x * x / 12)
    with mp.workdps(110):
        # Newton from the library's value
        return +mp.erfinv(x)


def r_erfcinv(x):
    if x <= 0 or x >= 2:
        return UNDEF
    if x > mpf("1e-30"):
        return r_erfinv(1 - x) if x < 1.5 or True else None
    # erfc(y) = x for tiny x: Newton on log erfc
    L = mp.log(x)
    y = mp.sqrt(-L)
    for _ in range(200):
        e = mp.erfc(y)
        f = mp.log(e) - L
        fp = -2 / mp.sqrt(mp.pi) * mp.exp(-y * y) / e
        dy = f / fp
        y -= dy
        if abs(dy) < mpf(10) ** -50 * y:
            break
    return y


def r_derf(x): return 2 / mp.sqrt(mp.pi) * mp.exp(-x * x) if abs(x) < mpf(10) ** 8 else mpf(0)


def r_derfinv(x):
    y = r_erfinv(x)
    return y if y is UNDEF else 1 / r_derf(y)


def r_derfcinv(x):
    y = r_erfcinv(x)
    return y if y is UNDEF else -1 / r_derf(y)


BP = mpf(8.46296036621705)
OFF = mpf(-0.0137050034663995)
JC = [mp.sqrt(mpf(1) / 8), mpf(-4.9500897298752622e-3), mpf(1.4838577128872821e-4), mpf(-4.4256301190009895e-6)]
D1 = mpf(3) / 4 * mp.sqrt(mp.pi)


def r_InvFermi(r):
    if r <= 0:
        return UNDEF
    if r < BP:
        return mp.log(r) + sum(c * r ** (k + 1) for k, c in enumerate(JC))
    return mp.sqrt((D1 * r) ** (mpf(4) / 3) - mp.pi ** 2 / 6) + OFF


def r_dInvFermi(r):
    if r < 0:
        return ANY
    if r == 0:
        return UNDEF
    if r < BP:
        return 1 / r + sum((k + 1) * c * r ** k for k, c in enumerate(JC))
    return mp.sqrt(mp.pi) / 2 * (D1 * r) ** (mpf(1) / 3) / r_InvFermi(r)


def r_Fermi(e):
    if e < -120:
        return mp.exp(e)
    if e < 0:
        r = mp.exp(e)
    elif e < 4.84:
        r = mp.exp(e) / (1 + mpf(27) / 100 * mp.exp(e))
        r = min(r, mpf(8))
    else:
        r = ((e - OFF) ** 2 + mp.pi ** 2 / 6) ** (mpf(3) / 4) / D1
        if r >= BP:
            return r
    for _ in range(100):
        dr = (r_InvFermi(r) - e) / r_dInvFermi(r)
        if r - dr <= 0:
            dr = r / 2
        r -= dr
        if abs(dr) < mpf(10) ** -45 * r:
            break
    return r


def r_dFermi(e):
    # derivative of InvFermi as documented: in the expansion the derivative of sqrt(t^2+d3)+offset is taken with
    # the value including the offset in the denominator
    r = r_Fermi(e)
    return 1 / r_dInvFermi(r)


HK = {}


def hk(s):
    k = mp.nstr(s, 40)
    if k not in HK:
        with mp.workdps(80):
            S = s * s
            H = mp.sqrt(2) / s * r_erfcinv(mp.exp(-S / 2))
            HK[k] = (H, 2 * (1 - H / s * mp.sqrt(2 / mp.pi) * mp.exp(S / 2 * (1 - H * H))))
    return HK[k]


def r_gfi(z, s):
    if s <= 0:
        return ANY
    S = s * s
    H, K = hk(s)
    if z < -S:
        return mp.exp(S / 2 + z) / (mp.exp(K * (z + S)) + 1)
    return mp.erfc(-z / (s * mp.sqrt(2)) * H) / 2


def r_dgfi(z, s):
    if s <= 0:
        return ANY
    S = s * s
    H, K = hk(s)
    if z < -S:
        e = mp.exp(K * (S + z))
        return mp.exp(S / 2 + z) / (e + 1) * (1 - K * e / (e + 1))
    if abs(z) > mpf(10) ** 20:
        return mpf(0)
    return H / s / mp.sqrt(2 * mp.pi) * mp.exp(-(H * z) ** 2 / S / 2)


IG = {}


def r_igfi(g, s):
    if s <= 0 or g == 0 or g == 1:
        return ANY
    if g < 0 or g > 1:
        return UNDEF if s > 0 else ANY
    key = (mp.nstr(g, 40), mp.nstr(s, 40))
    if key in IG:
        return IG[key]
    S = s * s
    H, K = hk(s)
    edge = mp.exp(-S / 2) / 2
    if g < edge:
        x = mp.log(g) - S / 2
        for _ in range(200):
            # Newton on the logarithm
            v = r_gfi(min(x, -S * (1 + mpf(10) ** -50)), s)
            dv = r_dgfi(min(x, -S * (1 + mpf(10) ** -50)), s)
            dx = (mp.log(v) - mp.log(g)) * v / dv
            x -= dx
            if abs(dx) < mpf(10) ** -45 * (1 + abs(x)):
                break
        r = x
    else:
        r = -r_erfcinv(2 * g) * s * mp.sqrt(2) / H if g <= 1 else UNDEF
    IG[key] = r
    return r


def r_digfi(g, s):
    z = r_igfi(g, s)
    if z in (ANY, UNDEF):
        return z if z is ANY else ANY
    return 1 / r_dgfi(z, s)


def r_pow(x, y):
    isint = y == mp.floor(y)
    if x == 0:
        if y < 0:
            return UNDEF
        return mpf(1) if y == 0 else mpf(0)
    if x < 0 and not isint:
        return UNDEF
    a = abs(x)
    l = y * mp.log(a)
    if l > 12000:
        return UNDEF
    if l < -12000:
        return mpf(0)
    with mp.workdps(90):
        v = mp.exp(y * mp.log(a))
    if x < 0 and (int(y) % 2):
        v = -v
    return v


def powlost(x, y):
    """the power underflows even in extended precision: integer powers may overflow on the way"""
    return x != 0 and y < 0 and -y * abs(math.log(abs(x))) > 11000 or y < -1e9


def b(v):
    return mpf(1) if v else mpf(0)


# ------------------------------------------------------------------ lattices (python floats)
POW2 = sorted({s * math.ldexp(m, k) for k in list(range(-1074, 1024, 1 if THOROUGH else 9)) + [-1023, -1022, -1021, -60, -57, -54, -53, -52, -51, -50, -49, -40, -30, -27, -26, -20, -10, 1022, 1023]
               for s in (1, -1) for m in ((1.0, 1.75) if THOROUGH else (1.0,))})
LIN = sorted({k * (0.19 if THOROUGH else 0.37) for k in range(-400 if THOROUGH else -110, 401 if THOROUGH else 111)})
POS = [x for x in POW2 + LIN if x > 0]


def around(pts, rel=(1e-3, 1e-6, 1e-9, 1e-12)):
    r = set()
    for p in pts:
        for q in (p, -p):
            r.update(ulps(q))
            for e in rel:
                r.update((q * (1 + e), q * (1 - e)))
    return sorted(r)


EPSD = abs(math.log(2.0 ** -52))
EPSX = 112 * math.log(2.0)
EDGES = [EPSD, EPSX, 0.5, 1.0, 2.0, 1e-2, 1e-3, 1e-4, 36.0, 37.0, 88.72, 708.3964185322641, 709.782712893384, 710.4758600739439, 745.1332191019412, 78.0,
         8.46296036621705, 4.840512829, 2.25, 0.75, 5.93, 26.5, 27.2, 3.0, 4.5, 5.8, 28.0, 110.0, 106.6, 19.0, 22.0]
ALL = sorted(set(POW2) | set(LIN) | set(around(EDGES)) | {0.0})
U01 = sorted({math.ldexp(1, -k) for k in range(1, 1075, 1 if THOROUGH else 5)} | {1 - math.ldexp(1, -k) for k in range(1, 54)} | {k / 97.0 for k in range(1, 97)} | set(x for x in around([0.5, 0.75, 0.25, 0.1, 1e-2]) if 0 < x < 1))
ERFD = sorted(set(U01) | {-x for x in U01} | {0.0, 1.0, -1.0, 1.5, -1.5, 2.0, 1e300, -1e300, 1.0000000000000002, -1.0000000000000002})
ERFCD = sorted(set(U01) | {2 - x for x in U01 if 2 - x < 2} | {0.0, 2.0, 1.0, 2.0000000000000004, -1e-300, 3.0, -1.0})
SMALLP = sorted({x for x in ALL if abs(x) <= 1e9})
SV = [0.5, 1.0, 2.0, 3.0, 4.5, 6.0, 8.0] if THOROUGH else [0.5, 1.0, 2.0, 4.5, 8.0]
GZ = []
for s in SV:
    S = s * s
    zs = set(ulps(-S)) | {-S * (1 + e) for e in (1e-12, -1e-12, 1e-6, -1e-6, 1e-2, -1e-2)} | {k * (0.5 if THOROUGH else 2.3) for k in range(-160 if THOROUGH else -40, 161 if THOROUGH else 41)} | {0.0, 1e-10, -1e-10, 1e-300, -700.0, -300.0, 40.0, 1e3, 1e100, -1e100, 1e10}
    GZ += [(z, s) for z in sorted(zs)]
GI = []
for s in SV:
    e = float(mp.exp(-mpf(s) ** 2 / 2) / 2)
    gs = set(ulps(e)) | {e * (1 + q) for q in (1e-9, -1e-9, 1e-3, -1e-3)} | {10.0 ** -k for k in range(1, 301, 3 if THOROUGH else 17)} | {k / 23.0 for k in range(1, 23)} | {1 - 10.0 ** -k for k in range(1, 15 if THOROUGH else 10)} | {0.5, -1.0, -1e-9, 1.5, 0.0, 1.0}
    GI += [(g, s) for g in sorted(gs)]
PB = [0.0, 5e-324, 1e-300, 1e-100, 0.5, 1 - 2.0 ** -53, 1.0, 1 + 2.0 ** -52, 1.5, 2.0, 3.0, 10.0, 1e100, 1.7e308]
PB = sorted(set(PB + [-x for x in PB]))
PE = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 0.5, 1 / 3., 1.5, 2.0000000000000004, 100.0, 101.0, 1000.0, 2147483647.0, 2147483648.0, 4294967297.0, 1e10, 1e-300]
PE = sorted(set(PE + [-x for x in PE]))
POWL = list(itertools.product(PB, PE))
C2 = [0.0, 1.0, -1.0, 1.0000000000000002, 5e-324, -5e-324, 1e308, -1e308, 0.3, -7.5, 3.0]
CMP = list(itertools.product(C2, C2))
T3 = list(itertools.product([0.0, 1.0, -1e-300, 2.0], [0.0, -3.5, 1e300], [1.0, 1e-300, -2.5]))
KV = [0.0, 1.0, -1.0, 1e20, -1e20, 297.0, 1e-20, 2.0 ** -60, 1e300, -1e300] if THOROUGH else [0.0, 1.0, -1.0, 1e20, -1e20, 297.0, 2.0 ** -60]
K3 = list(itertools.product(KV, repeat=3))
K4 = list(itertools.product([0.0, 1.0, -1.0, 1e20, -1e20, 1e-20] if not THOROUGH else KV, repeat=4))
D4 = list(itertools.product([0.0, 1.0, -2.5, 1e150], repeat=4))


def c1(c):
    return lambda *a: c


# name: (expression with #0 #1 .., reference, arguments, tolerance in eps as a function of args and ref, list of allowed intermediate failures)
def T(expr, ref, args, tol=c1(8), either=None, nargs=1):
    return dict(expr=expr, ref=ref, args=[a if isinstance(a, tuple) else (a,) for a in args], tol=tol, either=either, n=nargs)


big = lambda x: abs(x) > 1e150
lnr = lambda *a: 8 + 4 * abs(float(mp.log(abs(a[-1])))) if a[-1] else 8
F = {
    "abs": T("abs(#0)", lambda x: abs(x), ALL, c1(1)),
    "exp": T("exp(#0)", r_exp, ALL),
    "log": T("log(#0)", r_log, ALL),
    "B": T("B(#0)", r_B, ALL),
    "dBdx": T("dBdx(#0)", r_dB, ALL, c1(1000)),
    "step": T("step(#0)", lambda x: b(x >= 0), ALL, c1(0)),
    "sgn": T("sgn(#0)", lambda x: mpf(1) if x >= 0 else mpf(-1), ALL, c1(0)),
    "acosh": T("acosh(#0)", r_acosh, ALL),
    "asinh": T("asinh(#0)", r_asinh, ALL),
    "atanh": T("atanh(#0)", r_atanh, ALL + ERFD),
    "cosh": T("cosh(#0)", mp.cosh, ALL),
    "sinh": T("sinh(#0)", lambda x: mp.sinh(x) if abs(x) > mpf(10) ** -20 else x + x ** 3 / 6, ALL),
    "tanh": T("tanh(#0)", lambda x: mp.tanh(x) if abs(x) > mpf(10) ** -20 else x - x ** 3 / 3, ALL),
    "erf": T("erf(#0)", lambda x: mp.erf(x) if abs(x) < 100 else mp.sign(x), ALL, c1(16)),
    "erfc": T("erfc(#0)", lambda x: mp.erfc(x) if x < 1e5 else mpf(0), ALL, lambda x, r: 16 + 4 * float(min(x * x, 12000))),
    "erf_inv": T("erf_inv(#0)", r_erfinv, ERFD, c1(32)),
    "erfc_inv": T("erfc_inv(#0)", r_erfcinv, ERFCD, c1(32)),
    "derfdx": T("derfdx(#0)", r_derf, ALL, lambda x, r: 8 + 4 * float(min(x * x, 12000)), big),
    "derfcdx": T("derfcdx(#0)", lambda x: -r_derf(x), ALL, lambda x, r: 8 + 4 * float(min(x * x, 12000)), big),
    "derf_invdx": T("derf_invdx(#0)", r_derfinv, [x for x in ERFD if abs(x) <= 1], lambda x, r: 64 + 128 * float(mp.log(abs(r) + 2))),
    "derfc_invdx": T("derfc_invdx(#0)", r_derfcinv, [x for x in ERFCD if 0 <= x <= 2], lambda x, r: 64 + 128 * float(mp.log(abs(r) + 2))),
    "Fermi": T("Fermi(#0)", r_Fermi, ALL, lambda x, r: 16384 + 8 * abs(lnr(r)), lambda x: x > 1e200),
    "dFermidx": T("dFermidx(#0)", r_dFermi, ALL, lambda x, r: 65536 + 8 * abs(lnr(r)), lambda x: x > 1e200),
    "InvFermi": T("InvFermi(#0)", r_InvFermi, ALL, lambda x, r: 16 + (4 * abs(lnr(x)) + 16 / max(abs(float(r)), 1e-300) if x > 0 else 0)),
    "dInvFermidx": T("dInvFermidx(#0)", r_dInvFermi, ALL, lambda x, r: 32 + 4 * abs(lnr(x))),
    "!": T("!(#0)", lambda x: b(x == 0), ALL, c1(0)),
    "neg": T("-(#0)", lambda x: -x, ALL, c1(0)),
    "inv": T("1/(#0)", lambda x: 1 / x if x != 0 else UNDEF, ALL, c1(4)),
    "gfi": T("gfi(#0,#1)", r_gfi, GZ, lambda z, s, r: 64 + 16 * float(min(abs(z) + s * s + (z / s) ** 2, 12000)), None, 2),
    "dgfidx": T("dgfidx(#0,#1)", r_dgfi, GZ, lambda z, s, r: 64 + 32 * float(min(abs(z) + s * s + (z / s) ** 2, 12000)), lambda z, s: big(z), 2),
    "igfi": T("igfi(#0,#1)", r_igfi, GI, None, None, 2),
    "digfidx": T("digfidx(#0,#1)", r_digfi, GI, None, None, 2),
    "min": T("min(#0,#1)", lambda x, y: min(x, y), CMP, c1(0), None, 2),
    "max": T("max(#0,#1)", lambda x, y: max(x, y), CMP, c1(0), None, 2),
    "&&": T("#0&&#1", lambda x, y: b(x != 0 and y != 0), CMP, c1(0), None, 2),
    "||": T("#0||#1", lambda x, y: b(x != 0 or y != 0), CMP, c1(0), None, 2),
    "==": T("#0==#1", lambda x, y: b(x == y), CMP, c1(0), None, 2),
    "!=": T("#0!=#1", lambda x, y: b(x != y), CMP, c1(0), None, 2),
    "<": T("#0<#1", lambda x, y: b(x < y), CMP, c1(0), None, 2),
    "<=": T("#0<=#1", lambda x, y: b(x <= y), CMP, c1(0), None, 2),
    ">": T("#0>#1", lambda x, y: b(x > y), CMP, c1(0), None, 2),
    ">=": T("#0>=#1", lambda x, y: b(x >= y), CMP, c1(0), None, 2),
    "+": T("#0+#1", lambda x, y: x + y, CMP, c1(1), None, 2),
    "-": T("#0-#1", lambda x, y: x - y, CMP, c1(1), None, 2),
    "*": T("#0*#1", lambda x, y: x * y, CMP, c1(4), None, 2),
    "/": T("#0/#1", lambda x, y: x / y if y != 0 else (UNDEF if x != 0 else ANY), CMP, c1(4), lambda x, y: 0 < abs(y) < 1e-300, 2),
    "pow": T("pow(#0,#1)", r_pow, POWL, lambda x, y, r: 8 + 4 * float(min(abs(y) * (1 + (abs(mp.log(abs(x))) if x else 0)), mpf(10) ** 12)), powlost, 2),
    "^": T("(#0)^(#1)", r_pow, POWL, lambda x, y, r: 8 + 4 * float(min(abs(y) * (1 + (abs(mp.log(abs(x))) if x else 0)), mpf(10) ** 12)), powlost, 2),
    "ifelse": T("ifelse(#0,#1,#2)", lambda c, x, y: x if c != 0 else y, T3, c1(0), None, 3),
    "kahan3": T("kahan3(#0,#1,#2)", lambda *a: mp.fsum(a), K3, "kahan", None, 3),
    "kahan4": T("kahan4(#0,#1,#2,#3)", lambda *a: mp.fsum(a), K4, "kahan", None, 4),
    "dot2d": T("dot2d(#0,#1,#2,#3)", lambda p, q, r, s: p * r + q * s, D4, "dot", None, 4),
}
# derivatives by symbolic differentiation: name -> list of (variable index, derivative reference)
DIFF = {
    "abs": [(0, lambda x: mp.sign(x) if x else ANY)],
    "exp": [(0, r_exp)], "log": [(0, lambda x: 1 / x if x > 0 else ANY)],
    "B": [(0, r_dB)], "erf": [(0, r_derf)], "erfc": [(0, lambda x: -r_derf(x))],
    "erf_inv": [(0, r_derfinv)], "erfc_inv": [(0, r_derfcinv)],
    "Fermi": [(0, r_dFermi)], "InvFermi": [(0, r_dInvFermi)],
    "asinh": [(0, lambda x: 1 / mp.sqrt(1 + x * x) if abs(x) < 1e150 else ANY)],
    "acosh": [(0, lambda x: 1 / mp.sqrt(x * x - 1) if 1 < x < 1e150 else ANY)],
    "atanh": [(0, lambda x: 1 / (1 - x * x) if abs(x) < 1 else ANY)],
    "sinh": [(0, mp.cosh)], "cosh": [(0, lambda x: F["sinh"]["ref"](x))],
    "tanh": [(0, lambda x: 1 - mp.tanh(x) ** 2)],
    "gfi": [(0, r_dgfi)], "igfi": [(0, r_digfi)],
    "inv": [(0, lambda x: -1 / (x * x) if 1e-150 < abs(x) < 1e150 else ANY)],
    "max": [(0, lambda x, y: b(x > y) if x != y else ANY), (1, lambda x, y: b(x < y) if x != y else ANY)],
    "min": [(0, lambda x, y: b(x < y) if x != y else ANY), (1, lambda x, y: b(x > y) if x != y else ANY)],
    "dot2d": [(0, lambda p, q, r, s: r), (1, lambda p, q, r, s: s), (2, lambda p, q, r, s: p), (3, lambda p, q, r, s: q)],
    "kahan3": [(i, c1(mpf(1))) for i in range(3)], "kahan4": [(i, c1(mpf(1))) for i in range(4)],
    "ifelse": [(1, lambda c, x, y: b(c != 0)), (2, lambda c, x, y: b(c == 0))],
    "pow": [(0, lambda x, y: (y * r_pow(x, y - 1)) if x > 0 and abs(y) <= 1000 else ANY), (1, lambda x, y: r_pow(x, y) * mp.log(x) if x > 0 and abs(y) <= 1000 else ANY)],
}
DERTOL = {"tanh": "abs", "acosh": lambda x, r: 64 + 16 / abs(float(x * x - 1) or 1), "atanh": lambda x, r: 64 + 16 / abs(float(1 - x * x) or 1),
          "asinh": c1(32), "B": F["dBdx"]["tol"], "erf": F["derfdx"]["tol"], "erfc": F["derfdx"]["tol"], "erf_inv": F["derf_invdx"]["tol"], "erfc_inv": F["derf_invdx"]["tol"],
          "Fermi": F["dFermidx"]["tol"], "InvFermi": F["dInvFermidx"]["tol"], "gfi": F["dgfidx"]["tol"], "igfi": None, "pow": F["pow"]["tol"],
          "erfc2": None}
EITHERD = {"erf": big, "erfc": big, "gfi": lambda z, s: big(z), "Fermi": lambda x: x > 1e200, "pow": lambda x, y: abs(x) > 1e300 or abs(x) < 1e-300 or powlost(x, y)}


# ------------------------------------------------------------------ driving the module
def line(dev, n):
    import dev as devs
    co = []
    for i in range(n):
        co += [float(i), 0.0, 0.0]
    el = []
    for i in range(n - 1):
        el += [1, 0, i, i + 1]
    d.create_gmsh_mesh(mesh=dev, coordinates=co, physical_names=["g", "a", "b"], elements=el + [0, 1, 0] + [0, 2, n - 1])
    d.add_gmsh_region(mesh=dev, gmsh_name="g", region="R", material="Si")
    d.finalize_mesh(mesh=dev)
    d.create_device(mesh=dev, device=dev)


ALPH = "xyzw"


class Bench:
    """evaluates an expression on argument tuples in a given shape"""
    def __init__(self, ext, n):
        d.reset_devsim()
        self.ext = ext
        if ext:
            d.set_parameter(name="extended_model", value=True)
        self.n = max(2, n)
        line("V", self.n)
        line("U", 2)
        for dev in "VU":
            for v in ALPH:
                d.node_solution(device=dev, region="R", name="n" + v)
                d.node_solution(device=dev, region="R", name="e" + v)
            d.node_solution(device=dev, region="R", name="yy")
        for v in ALPH:
            d.set_parameter(name="p" + v, value=0.0)
            d.set_parameter(name="q" + v, value=0.0)
        self.k = 0

    def define(self, expr):
        """defines m = expr, r = expr - yy; returns an error text or None"""
        for dev in "VU":
            d.node_model(device=dev, region="R", name="m", equation=expr)
            if self.ext:
                d.node_model(device=dev, region="R", name="rr", equation="(%s)-yy" % expr)

    def setv(self, dev, name, vals):
        d.set_node_values(device=dev, region="R", name=name, values=vals)

    def read(self, dev):
        """list of mpf values or None if the module reported an error"""
        try:
            hi = list(d.get_node_model_values(device=dev, region="R", name="m"))
        except d.error as e:
            if "loating" not in str(e):
                raise
            return None
        if not self.ext:
            return hi
        for h in hi:
            if h != h or math.isinf(h):
                return hi
        self.setv(dev, "yy", hi)
        try:
            lo = list(d.get_node_model_values(device=dev, region="R", name="rr"))
        except d.error as e:
            return None
        return [mpf(a) + mpf(c) for a, c in zip(hi, lo)]


def fmt(expr, shape):
    """shape: a string over V (node model), P (parameter), W (node model plus a tiny second one), Q (sum of two parameters)"""
    for i, s in enumerate(shape):
        a = ALPH[i]
        expr = expr.replace("#%d" % i, {"V": "n" + a, "P": "p" + a, "W": "(n%s+e%s)" % (a, a), "Q": "(p%s+q%s)" % (a, a)}[s])
    return expr


def tolerance(spec, args, ref, ext, name):
    eps = mpf(2) ** (-104 if ext else -52)
    tol = spec
    if tol == "abs":
        return eps * 16 + eps * 16 * abs(ref)
    if tol == "kahan":
        s = sum(abs(a) for a in args)
        return eps * abs(ref) * 2 + s * mpf(2) ** (-200 if ext else -104)
    if tol == "dot":
        return eps * 4 * (abs(args[0] * args[2]) + abs(args[1] * args[3]))
    if tol is None:      # igfi: the residual of the inverse decides, relative to the slope
        g, s = args
        H, K = hk(s)
        if name == "igfi":
            z = ref
            f, fp = r_gfi(z, s), r_dgfi(z, s)
            # value error of gfi times 1/slope; near 1 the function loses relative precision of 1-g
            return (mpf(10) ** (-29 if ext else -12)) * (1 + abs(z)) + eps * 256 * (f / fp) * (1 + abs(z) + s * s)
        z = r_igfi(g, s)
        f, fp = r_gfi(z, s), r_dgfi(z, s)
        dz = (mpf(10) ** (-29 if ext else -12)) * (1 + abs(z)) + eps * 256 * (f / fp) * (1 + abs(z) + s * s)
        return abs(ref) * (dz * (2 + abs(z) * H * H / (s * s)) * 4 + eps * 4096)
    t = tol(*args, ref) if tol.__code__.co_argcount != 0 or tol.__code__.co_flags & 4 else tol()
    if name in ("Fermi", "dFermidx") and ext:
        t = t * 64
    return eps * t * abs(ref)


def check(name, what, tolspec, either, shape, args, got, ref, ext, pert=None):
    """got: value or None"""
    if ref is ANY:
        return
    key = "%s:%s:%s:%s" % (what, name, "ext" if ext else "dbl", shape)
    a = tuple(mpf(x) for x in args)
    if pert:
        a = tuple(x + mpf(e) for x, e in zip(a, pert))
    av = "(%s)" % ", ".join(mp.nstr(x, 25) for x in a)
    ok_fail = either is not None and either(*args)
    if ref is UNDEF:
        ctx.count(undefined=1)
        if got is not None and not ok_fail:
            ctx.violation(key + ":noerror", "%s%s [%s] is undefined but evaluates to %s without an error" % (name, av, shape, got))
        return
    if abs(ref) > DMAX * (1 - mpf(2) ** -40):
        if not ext and abs(ref) > DMAX * (1 + mpf(2) ** -40):
            ctx.count(overflow=1)
            if got is not None and not ok_fail:
                ctx.violation(key + ":nooverflow", "%s%s [%s] overflows but evaluates to %s without an error" % (name, av, shape, got))
        return
    if got is None:
        if not ok_fail:
            ctx.violation(key + ":error", "%s%s [%s] = %s but an error was raised" % (name, av, shape, mp.nstr(ref, 20)))
        return
    if isinstance(got, float) and (got != got or math.isinf(got)):
        if not ok_fail:
            ctx.violation(key + ":nonfinite", "%s%s [%s] = %s expected %s" % (name, av, shape, got, mp.nstr(ref, 20)))
        return
    tol = tolerance(tolspec, a, ref, ext, "digfidx" if what != name and name == "igfi" else name) + mpf(1e-320)
    err = abs(mpf(got) - ref)
    ctx.count(compared=1)
    if not err <= tol:
        ctx.violation(key, "%s%s [%s, %s] = %s expected %s (error %s, allowed %s)" % (name, av, shape, "extended" if ext else "double", mp.nstr(mpf(got), 30), mp.nstr(ref, 30), mp.nstr(err, 3), mp.nstr(tol, 3)))


def widen(args):
    """adds to every argument a perturbation below double precision"""
    return [a * 2.0 ** -59 if abs(a) > 1e-290 else 0.0 for a in args]


def item(it):
    kind, name, ext, part, parts = it
    f = F[name]
    jobs = []
    if kind == "value":
        jobs.append((name, name, f["expr"], f["ref"], f["tol"], f["either"]))
    else:
        for idx, ref in DIFF[name]:
            jobs.append((name, "diff%d" % idx, None, ref, DERTOL.get(name, c1(64)), EITHERD.get(name)))
    args = f["args"][part::parts]
    if kind == "diff":
        args = [a for a in args if f["ref"](*map(mpf, a)) not in (UNDEF, ANY)]
    n = f["n"]
    bench = Bench(ext, len(args))
    for jn, (fname, what, expr, ref, tol, either) in enumerate(jobs):
        if kind == "diff":
            idx = DIFF[name][jn][0]
            src = f["expr"]
            for i in range(n):
                src = src.replace("#%d" % i, "v%d" % i)
            expr = d.symdiff(expr="simplify(diff(%s,v%d))" % (src, idx))
            for i in range(n):
                expr = expr.replace("v%d" % i, "#%d" % i)
            if "#" not in expr:
                # constant derivative
                expr = "(%s)+0*#0" % expr
        refs = [ref(*[mpf(x) for x in a]) for a in args]
        what2 = what
        # per node
        shapes = ["".join(s) for s in itertools.product("VP", repeat=n)]
        if kind == "diff":
            shapes = ["V" * n]
        if ext and name not in ("==", "!=", "<", "<=", ">", ">=", "step", "sgn", "!", "&&", "||", "ifelse"):
            shapes += ["W" * n] + (["VQ", "QV", "WP"] if n == 2 else ["Q"] if n == 1 else [])
        for shape in shapes:
            bench.define(fmt(expr, shape))
            rs = refs
            wid = any(c in "WQ" for c in shape)
            if wid:
                pert = [[e if c in "WQ" else 0.0 for e, c in zip(widen(a), shape)] for a in args]
                rs = [ref(*[mpf(x) + mpf(e) for x, e in zip(a, p)]) for a, p in zip(args, pert)]
            if all(c in "VW" for c in shape):
                good = [k for k, r in enumerate(rs) if r not in (UNDEF, ANY) and abs(r) < DMAX * mpf(0.999) and not (either and either(*args[k]))]
                bad = [k for k in range(len(args)) if k not in set(good)]
                if good:
                    # all nodes at once; unused nodes repeat the first good argument
                    for i in range(n):
                        vals = [args[k][i] for k in good]
                        bench.setv("V", "n" + ALPH[i], vals + [vals[0]] * (bench.n - len(vals)))
                        if wid:
                            ev = [pert[k][i] for k in good]
                            bench.setv("V", "e" + ALPH[i], ev + [ev[0]] * (bench.n - len(ev)))
                    got = bench.read("V")
                    ctx.count(evaluations=1)
                    if got is not None:
                        for k, g in zip(good, got):
                            ctx.state(name, (kind, ext, shape, args[k]))
                            check(fname, what2, tol, either, shape + "/nodes", args[k], g, rs[k], ext, pert[k] if wid else None)
                    else:
                        bad = list(range(len(args)))     # find the culprit one by one
                todo = range(len(args)) if (shape == "V" * n or wid) and n == 1 else bad
                for k in todo:
                    for i in range(n):
                        bench.setv("U", "n" + ALPH[i], [args[k][i]] * 2)
                        if wid:
                            bench.setv("U", "e" + ALPH[i], [pert[k][i]] * 2)
                    got = bench.read("U")
                    ctx.count(evaluations=1)
                    check(fname, what2, tol, either, shape + "/uniform", args[k], None if got is None else got[0], rs[k], ext, pert[k] if wid else None)
            else:
                # some parameters: group arguments by the parameter values
                pi = [i for i, c in enumerate(shape) if c in "PQ"]
                groups = {}
                for k, a in enumerate(args):
                    groups.setdefault(tuple(a[i] for i in pi), []).append(k)
                for g, ks in groups.items():
                    for i, v in zip(pi, g):
                        d.set_parameter(name="p" + ALPH[i], value=v)
                        if wid:
                            d.set_parameter(name="q" + ALPH[i], value=pert[ks[0]][i])
                    vi = [i for i in range(n) if i not in pi]
                    if not vi:
                        got = bench.read("U")
                        ctx.count(evaluations=1)
                        check(fname, what2, tol, either, shape, args[ks[0]], None if got is None else got[0], rs[ks[0]], ext, pert[ks[0]] if wid else None)
                        continue
                    good = [k for k in ks if rs[k] not in (UNDEF, ANY) and abs(rs[k]) < DMAX * mpf(0.999) and not (either and either(*args[k]))]
                    single = [k for k in ks if k not in set(good)]
                    if good:
                        for i in vi:
                            vals = [args[k][i] for k in good]
                            bench.setv("V", "n" + ALPH[i], vals + [vals[0]] * (bench.n - len(vals)))
                            if wid:
                                ev = [pert[k][i] for k in good]
                                bench.setv("V", "e" + ALPH[i], ev + [ev[0]] * (bench.n - len(ev)))
                        got = bench.read("V")
                        ctx.count(evaluations=1)
                        if got is None:
                            single = ks
                        else:
                            for k, x in zip(good, got):
                                check(fname, what2, tol, either, shape + "/nodes", args[k], x, rs[k], ext, pert[k] if wid else None)
                    for k in single:
                        for i in vi:
                            bench.setv("U", "n" + ALPH[i], [args[k][i]] * 2)
                            if wid:
                                bench.setv("U", "e" + ALPH[i], [pert[k][i]] * 2)
                        got = bench.read("U")
                        ctx.count(evaluations=1)
                        check(fname, what2, tol, either, shape + "/uniform", args[k], None if got is None else got[0], rs[k], ext, pert[k] if wid else None)
    ctx.sample({"function": name, "kind": kind, "extended": ext, "arguments": len(args)})


def integral(it):
    """the published approximations are close to the integrals they stand for"""
    which, a = it
    d.reset_devsim()
    line("U", 2)
    d.node_solution(device="U", region="R", name="nx")
    d.node_solution(device="U", region="R", name="ny")
    if which == "F":
        d.set_node_values(device="U", region="R", name="nx", values=[a, a])
        d.node_model(device="U", region="R", name="m", equation="Fermi(nx)")
        got = d.get_node_model_values(device="U", region="R", name="m")[0]
        with mp.workdps(20):
            ref = float(mp.re(-mp.polylog(1.5, -mp.exp(a)))) if a < 3 else float(mp.quad(lambda t: 2 / mp.sqrt(mp.pi) * mp.sqrt(t) / (1 + mp.exp(t - a)), [0, max(mpf(1) / 2, a - 5), a, a + 5, a + 20, a + 60]))
        tol = 5e-3
    else:
        z, s = a
        d.set_node_values(device="U", region="R", name="nx", values=[z, z])
        d.set_node_values(device="U", region="R", name="ny", values=[s, s])
        d.node_model(device="U", region="R", name="m", equation="gfi(nx,ny)")
        got = d.get_node_model_values(device="U", region="R", name="m")[0]
        with mp.workdps(20):
            # substitute t = s*u
            c = max(-s, min(z / s, 8))
            ref = float(mp.quad(lambda u: mp.exp(-u * u / 2) / mp.sqrt(2 * mp.pi) / (1 + mp.exp(s * u - z)), [-40, -s - 6, -s - 2, -s, -s + 2, c, 0, 4, 10] if False else sorted({-30, -s - 6, -s - 2, -s, -s + 2, c, 0, 4, 10})))
        tol = 0.25
    ctx.count(compared=1, evaluations=1)
    if not abs(got - ref) <= tol * abs(ref):
        ctx.violation("integral:%s" % which, "%s(%s) = %r, the integral is %r" % ("Fermi" if which == "F" else "gfi", a, got, ref))


def vec(it):
    """reductions over the nodes of a region, broadcast to every node"""
    ext, vals, shape = it
    bench = Bench(ext, len(vals))
    ref = {"vec_sum": mp.fsum(map(mpf, vals)), "vec_max": mpf(max(vals)), "vec_min": mpf(min(vals))}
    for fn in ref:
        bench.define("%s(nx)" % fn if shape == "V" else "%s(nx*2-nx)" % fn if shape == "E" else "nx-nx+%s(nx)*1" % fn)
        bench.setv("V", "nx", list(vals))
        got = bench.read("V")
        ctx.count(evaluations=1)
        ctx.state("vec", it)
        for g in got:
            ctx.count(compared=1)
            if abs(mpf(g) - ref[fn]) > mpf(2) ** -48 * sum(map(abs, vals)):
                ctx.violation("vec:%s:%s" % (fn, shape), "%s over %s gives %s expected %s" % (fn, vals, g, ref[fn]))


def main():
    items = []
    for name, f in F.items():
        for ext in (False, True):
            parts = 2 if THOROUGH or name in ("Fermi", "dFermidx", "igfi", "digfidx", "erfc_inv", "erf_inv", "derf_invdx", "derfc_invdx", "gfi", "dgfidx", "pow", "^", "erfc") else 1
            if THOROUGH:
                parts *= 4
            for p in range(parts):
                items.append(("value", name, ext, p, parts))
            if name in DIFF:
                for p in range(parts):
                    items.append(("diff", name, ext, p, parts))
    items.sort(key=lambda i: hash(i[1:]) if False else str(vc.digest(i)))
    vecs = [(ext, v, sh) for ext in (False, True) for n in range(2, 5 if not THOROUGH else 6) for v in itertools.product((0.0, 1.0, -2.5, 1e10) if n < 4 else (0.0, 1.0, -2.5), repeat=n) for sh in ("V", "E", "X")]
    ints = [("F", x / 2.0) for x in range(-20, 81)] + [("g", (z, s)) for s in (1.0, 2.0, 4.0, 6.0) for z in [k * 2.0 for k in range(-25, 11)]]
    ctx.run(items, item, "functions", timeout=300, setup=vc.quiet)
    ctx.run(vecs, vec, "vec", timeout=60, setup=vc.quiet)
    ctx.run(ints, integral, "integral", timeout=60, setup=vc.quiet)
    ctx.bounds.update(functions=len(F), differentiated=len(DIFF), lattice=len(ALL))
    ctx.finish(states=sum(len(s) for s in ctx.sets.values()), transitions=ctx.stats.get("evaluations", 0), traces=ctx.stats.get("compared", 0),
               rule="every function x lattice argument x argument shape x precision, compared with a 60 digit reference")


main()
