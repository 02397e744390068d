#!/usr/bin/env python3
"""P03: symbolic derivatives, simplification and expansion preserve meaning.

Every expression tree up to the stated depth over the language's operators, functions and a set of
leaves is given to the engine under every transformation (printing, simplify, expand, simplify of
expand, scale/unscaled value, sign/unsigned value, first and second derivatives, simplified and
expanded).  The result is read and evaluated by an independent parser at every point of a grid and
compared with direct evaluation (values) or automatic differentiation (derivatives) of the original.
User functions are declared with formals that clash with the actual arguments.
"""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare(targets=("module", "mathlib", "modelcomp"))
import sym
ctx = vc.Ctx("P03", assumptions=["points where the original (or, for derivatives, its derivative) is not defined over the reals are not compared",
                                 "the front end that reads expressions is a stand-in for the symdiff submodule, which is not in the tree; the engine behind it is src/adiff",
                                 "a result may be undefined at a point where the original raises zero to a fractional power",
                                 "derivatives of comparisons are zero; points on a switching surface are avoided by the grid"])
d = vc.load_devsim()

PTS = [(2.0, 3.0), (-3.0, 2.0), (0.5, -2.0), (1.5, -0.75), (-1.25, -1.5), (0.0, 2.5), (2.75, 0.0)]
# f(a), g(a, b): values and partial derivatives; e is like exp, k has no derivatives
FUN = {"f": (lambda a: a * a * a, [lambda a: 3 * a * a]),
       "g": (lambda a, b: a * a * b + b, [lambda a, b: 2 * a * b, lambda a, b: a * a + 1]),
       "h": (lambda a, b: a - 2 * b * b, [lambda a, b: 1.0, lambda a, b: -4 * b]),
       "e": (lambda a: math.exp(a), [lambda a: math.exp(a)]),
       "k": (lambda a: 7.0, [lambda a: 0.0])}


def declare():
    d.symdiff(expr="define(f(y), 3*y^2)")
    d.symdiff(expr="define(g(y, x), 2*y*x, y*y+1)")     # formals swapped against the usual actual arguments
    d.symdiff(expr="define(h(x, f_), 1, -4*f_)")
    d.symdiff(expr="declare(e(x))")
    d.symdiff(expr="define(e(x), e(x))")
    d.symdiff(expr="declare(k(x))")


BIN = ["+", "-", "*", "/", "^"]


def level(leaves, unary, binary, a, b):
    out = []
    for u in unary:
        out += ["%s(%s)" % (u, x) for x in a]
    for o in binary:
        out += ["(%s)%s(%s)" % (x, o, y) for x in a for y in b]
        if a is not b:
            out += ["(%s)%s(%s)" % (y, o, x) for x in a for y in b]
    return out


def sd(e):
    ctx.count(transitions=1)
    return d.symdiff(expr=e)


TR = {"print": "%s", "simplify": "simplify(%s)", "expand": "expand(%s)", "simplify of expand": "simplify(expand(%s))", "expand of simplify": "expand(simplify(%s))", "simplify twice": "simplify(simplify(%s))",
      "scale times unscaled value": "scale(%s)*(unscaledval(%s))", "sign times unsigned value": "sign(%s)*(unsignedval(%s))"}
DV = {"d/dx": ("diff(%s,x)", "x"), "d/dy": ("diff(%s,y)", "y"), "simplified d/dx": ("simplify(diff(%s,x))", "x"), "simplified d/dy": ("simplify(diff(%s,y))", "y"),
      "d/dx of simplified": ("diff(simplify(%s),x)", "x"), "d/dy of expanded": ("diff(expand(%s),y)", "y")}


def close(a, b, mag):
    return abs(a - b) <= 1e-9 * max(1.0, mag, abs(a), abs(b))


_parse = {}


def rd(s):
    if s not in _parse:
        if len(_parse) > 20000: _parse.clear()
        _parse[s] = sym.parse(s)
    return _parse[s]


def check(e, second):
    ast = rd(e)
    vals = []
    for p in PTS:
        env = sym.Env({"x": p[0], "y": p[1]}, FUN, True)
        try:
            v = env.ev(ast)
        except sym.Undefined:
            vals.append(None)
            continue
        ds = {}
        for w in "xy":
            en2 = sym.Env(env.v, FUN, True)
            try:
                ds[w] = (en2.der(ast, w)[1], en2.mag, en2.branch)
            except sym.Undefined:
                pass
        vals.append((v, env.mag, ds, env.branch))
    if all(v is None for v in vals):
        ctx.count(undefined_everywhere=1)
        return
    ctx.count(expressions=1)

    done = {}

    def cmp(name, q, w):
        try:
            s = sd(q)
        except d.error as er:
            return ctx.violation("error:%s:%s" % (name, e), "%s of %s raises: %s" % (name, e, str(er)[:100]))
        if (s, w) in done: return
        done[s, w] = 1
        ctx.count(results=1)
        try:
            r = rd(s)
        except SyntaxError:
            return ctx.violation("syntax:%s:%s" % (name, e), "%s of %s is not an expression: %s" % (name, e, s))
        if not sym.names(r) <= {"x", "y"}:
            return ctx.violation("names:%s:%s" % (name, e), "%s of %s mentions other names: %s" % (name, e, s))
        for p, v in zip(PTS, vals):
            if v is None: continue
            if w is None:
                want, mag, branch = v[0], v[1], v[3]
            else:
                if w not in v[2]: continue
                want, mag, branch = v[2][w]
            en = sym.Env({"x": p[0], "y": p[1]}, FUN)
            try:
                got = en.ev(r)
            except sym.Undefined:
                got = None
            ctx.count(points=1)
            if got is None and branch:
                continue
            if got is None or not close(got, want, max(mag, en.mag) if en.mag < 1e6 else mag * 10):
                return ctx.violation("value:%s:%s" % (name, e), "%s of %s is %s: at x=%g y=%g it evaluates to %s, the original to %r" % (name, e, s, p[0], p[1], got, want))
    for n, t in TR.items():
        cmp(n, t.replace("%s", "(%s)" % e), None)
    for n, (t, w) in DV.items():
        cmp(n, t.replace("%s", "(%s)" % e), w)


def work(item):
    for e in item:
        ctx.note(e)
        check(e, False)
        ctx.sample(e, 3)


def setup():
    vc.quiet()
    d.reset_devsim()
    declare()


# ---- models compiled by modelcomp ---------------------------------------------------------------------
MODELS = [("m0", "x*y"), ("m1", "exp(0.25*x)+p"), ("m2", "m0*m1-k*p"), ("m3", "g(m0,y)"), ("m4", "f(m2)/(m1^2+1)")]
HEAD = """definefuncdiff g(y, x), 2*y*x, y*y+1;
declarefunc h(a, b);
definefuncdiff h(y, x), 1, -4*x;
declarefunc f(a);
definefuncdiff f(y), 3*y^2;
declarefunc e(x);
definefuncdiff e(x), e(x);
"""
EXTEQ = {"x": ("m0*x-y", "y*m3"), "y": ("0-y", "0")}
MPT = [(2.0, 3.0, 1.5), (-1.25, 0.5, 0.75)]


def write_mc(exprs, name):
    L = ["title %s;" % name, HEAD + "external_node x;", "external_node y;"] + ["internal_node z%d;" % i for i in range(len(exprs))]
    L += ['parameter p "p" 1.25;', 'parameter k "not set" 1.23456789012;'] + ["model %s %s;" % m for m in MODELS]
    for i, (a, b) in enumerate(exprs):
        L += ["equation e%d %s ddt %s;" % (i, a.replace("z", "z%d" % i), b.replace("z", "z%d" % i)), "link e%d z%d;" % (i, i)]
    for v, (a, b) in EXTEQ.items():
        L += ["equation q%s %s ddt %s;" % (v, a, b), "link q%s %s;" % (v, v)]
    return "\n".join(L) + "\n"


def work_mc(item):
    import tempfile, subprocess, shutil
    k, exprs = item
    n = len(exprs)
    ctx.note(("generated", k))
    t = tempfile.mkdtemp(prefix="vmc")
    try:
        src = write_mc(exprs, "mcx")
        r = subprocess.run([vc.BUILD + "/modelcomp"], input=src, text=True, cwd=t, capture_output=True, timeout=120)
        if r.returncode:
            return ctx.violation("modelcomp:%s" % k, "modelcomp fails on a well formed description: %s" % r.stderr[-300:])
        stub = vc.VERIF + "/harness/mcstub"
        open(t + "/all.cc", "w").write('#include "InstanceModel.hh"\n#include "mcx.cc"\n#define MODEL_create mcx_create\n#include "main.inc"\n')
        r = subprocess.run(["g++", "-O0", "-w", "-I", stub, "-I", t, "-o", "m", "all.cc"], cwd=t, capture_output=True, text=True)
        if r.returncode:
            return ctx.violation("modelcomp:%s" % k, "the generated model does not compile: %s" % r.stderr[-300:])
        nodes = ["x", "y"] + ["z%d" % i for i in range(n)]
        masks = range(8)
        cases = [(m, p) for m in masks for p in MPT]
        inp = "".join("%d %r %r %r %s\n" % (m, p[2], p[0], p[1], " ".join(repr(0.5 + 0.125 * i) for i in range(n))) for m, p in cases)
        r = subprocess.run([t + "/m"] + nodes, input=inp, text=True, capture_output=True, cwd=t, timeout=60)
        blocks, cur = [], None
        for l in r.stdout.splitlines():
            w = l.split()
            if w[0] == "B":
                cur = {"B": (w[1], w[2])}
            elif w[0] == "E": blocks.append(cur)
            elif w[0][1] == "r": cur[w[0], int(w[1])] = cur.get((w[0], int(w[1])), 0.0) + float(w[2])
            else: cur[w[0], int(w[1]), int(w[2])] = cur.get((w[0], int(w[1]), int(w[2])), 0.0) + float(w[3])
        if r.returncode or len(blocks) != len(cases):
            return ctx.violation("modelcomp:%s" % k, "the generated model does not run: %d %s" % (r.returncode, r.stderr[-200:]))
        for (m, p), got in zip(cases, blocks):
            check_mc(k, exprs, nodes, m, p, got)
    finally:
        shutil.rmtree(t)


def inline(s):
    """the expression with models replaced by their definitions"""
    ast = rd(s)
    defs = {}
    for n, d_ in MODELS:
        defs[n] = None

    def go(e):
        if e[0] == "var" and e[1] in dict(MODELS): return go(rd(dict(MODELS)[e[1]]))
        if e[0] in ("var", "num"): return e
        return (e[0],) + tuple(go(x) for x in e[1:])
    return go(ast)


def check_mc(k, exprs, nodes, mask, p, got):
    ctx.count(transitions=1)
    if got["B"] != ("1", "0"):
        ctx.violation("param:%s" % k, "setting the parameter of a generated model returns %s, a name that does not exist %s" % got["B"])
    vals = {"p": p[2], "k": 1.23456789012, "x": p[0], "y": p[1]}
    for i in range(len(exprs)): vals["z%d" % i] = 0.5 + 0.125 * i
    grd = {nodes[i] for i in range(3) if mask >> i & 1}
    for g in grd: vals[g] = 0.0
    seen = set()
    for i, ex in [(-2, EXTEQ["x"]), (-1, EXTEQ["y"])] + list(enumerate(exprs)):
        for tag, x, scl in (("D", ex[0], 1.0), ("T", ex[1], 0.375), ("N", ex[1], 2.0)):
            ast = inline(x.replace("z", "z%d" % i))
            env = sym.Env(vals, FUN, True)
            row = i + 2
            want = {}
            if nodes[row] not in grd:
                try:
                    want[tag + "r", row] = scl * env.ev(ast)
                except sym.Undefined:
                    want[tag + "r", row] = None
                if tag != "N":
                    for w in ("x", "y") + (("z%d" % i,) if i >= 0 else ()):
                        if w in grd: continue
                        try:
                            want[tag + "m", row, nodes.index(w)] = scl * sym.Env(vals, FUN, True).der(ast, w)[1]
                        except sym.Undefined:
                            want[tag + "m", row, nodes.index(w)] = None
            for q, v in want.items():
                seen.add(q)
                ctx.count(points=1)
                u = got.get(q, 0.0)
                if v is not None and not close(u, v, 0 if q[0][1] == "r" else env.mag):
                    ctx.violation("generated:%s:%s" % (x, q[0]), "modelcomp: %s of equation \"%s\" (grounded: %s, x=%g y=%g p=%g) is %r, not %r" % (
                        "row" if q[0][1] == "r" else "derivative to " + nodes[q[2]], x, sorted(grd), vals["x"], vals["y"], p[2], u, v))
    for q in got:
        if q != "B" and q not in seen and got[q] != 0.0:
            ctx.violation("extra:%s:%s" % (k, q[0]), "modelcomp: an entry at %s that no equation has: %r" % (q, got[q]))


if __name__ == "__main__":
    L0 = ["x", "y", "2", "-1", "0", "0.5", "1"]
    U = ["-", "exp", "log"]
    L1 = level(L0, U + ["f", "e", "k"], BIN, L0, L0) + ["g(%s,%s)" % (a, b) for a in L0 for b in L0] + ["h(%s,%s)" % (a, b) for a in L0 for b in L0]
    items = list(L0) + L1
    T = ctx.thorough
    if not T:
        for t in ("expand of simplify", "simplify twice"): TR.pop(t)
        for t in ("d/dx", "d/dy of expanded"): DV.pop(t)
    S0 = ["x", "y", "2", "-1", "0.5", "3"] if T else ["x", "y", "2", "-1"]
    S1 = level(S0, U + ["f"], BIN, S0, S0)
    items += level(S0, U + ["f", "e", "k"], BIN, S1, ["x", "y", "2", "-1", "0.5"] if ctx.thorough else ["x", "2", "-1"])
    # two-level binary combinations
    R0 = ["x", "y", "2"] if not ctx.thorough else ["x", "y", "2", "-1", "0.5"]
    R1 = level(R0, ["-", "exp"] if not ctx.thorough else U, BIN, R0, R0)
    R1 += ["g(x,y)", "g(y,x)", "h(y,x)", "log(x)", "3*x", "-2*y", "x^-2", "x^0.5", "(x+y)^2", "x*y^2"]
    items += level(R0, [], BIN, R1, R1 if T else R1[::2])
    items += ["%s(%s,%s)" % (fn, a, b) for fn in "gh" for a in R1[::1 if T else 2] for b in R1[::1 if T else 5]]
    # comparisons, conditionals
    c = ["x<y", "x>=2", "x==y", "!(x<1)", "x<y && y<2", "x>1 || y>1", "!(x>y || x<-1)"]
    tt = ["x*y", "2*x-y", "exp(x)", "x^2", "3", "g(y,x)"]
    items += c + ["ifelse(%s,%s,%s)" % (a, b, b2) for a in c for b in tt for b2 in tt] + ["if(%s,%s)" % (a, b) for a in c for b in tt]
    items += ["(%s)%s(%s)" % (b, o, a) for a in c for b in tt for o in "+-*"] + ["(%s)*(%s)*(%s)" % (a, b, a2) for a in c for b in tt for a2 in c]
    # constants of every size
    items += ["%s*x+y" % k for k in ("1e-30", "0.1", "1234567", "123456789.5", "1e15", "3e20", "-1234567", "0.3333333333333333", "1e-5", "2.5e-5", "6.02e23", "999999", "1000001")]
    items += ["x^%s" % k for k in ("10", "1e1", "-0.00001", "0.25", "-7", "1.5e0")] + ["(1234567*x)*(1234568*y)+1234567"]
    # three-factor and three-term combinations with signs, scales and repeated factors
    F3 = ["x", "-x", "2*x", "-3*y", "x+1", "-(x-y)", "x^2", "x^-1", "(x+y)^2", "exp(x)", "y^0.5", "-2"]
    items += ["(%s)%s(%s)%s(%s)" % (a, o, b, o2, c3) for a in F3 for b in F3 for c3 in F3 for o in ("+-*/" if T else "*-") for o2 in ("*/+-" if T else "*")]
    items += ["((%s)*(%s))^%s" % (a, b, k) for a in F3 for b in F3 for k in ("2", "3", "-1", "0.5", "x", "1", "0")]
    items += ["((%s)+(%s)-(%s))^2" % (a, b, c3) for a in F3 for b in F3 for c3 in F3[::1 if T else 4]]
    F2 = ["x", "-3*y", "x+1", "x^2", "exp(x)", "y^0.5"]
    items += ["((%s)+(%s)-(%s))^3" % (a, b, c3) for a in F2 for b in F2 for c3 in (F2 if T else F2[:2])]
    items += ["%s((%s)%s(%s))" % (u, a, o, b) for u in ("log", "exp") for a in F3 for b in F3 for o in BIN]
    items += ["((%s)^%s)^%s" % (a, p, q) for a in F3 for p in ("2", "3", "0.5", "-1", "y", "-2", "0") for q in ("2", "0.5", "-1", "x", "1.5", "3")]
    heavy = {"(((x+y)^2)^3)^3"}     # expands to an 18th power, minutes
    items = [i for i in dict.fromkeys(items) if i not in heavy]
    ctx.bounds['transformations'] = len(TR) + len(DV)
    n = 64
    ctx.bounds["expressions"] = len(items)
    ctx.run([items[i::8 * n] for i in range(8 * n)], work, "expr", setup=setup, timeout=600)
    # models and equations through modelcomp
    A = ["x", "y", "z", "p", "m0", "m2", "m3", "m4", "2"]
    E1 = A + ["-(%s)" % a for a in A] + ["%s(%s)" % (u, a) for u in ("exp", "f", "e") for a in A[:6]] + ["log(x)", "log(m1)", "m1^0.5", "x^y", "exp(x)*exp(y)", "x^2-y^2", "(x+y)*(x-y)", "123456789*x+y", "4000000000*z", "(x<y)*z", "(x>=y)*x^2+(x==2)*y", "(x<y && y<2)*x*z", "!(x>y || x<-1)*z"]
    E1 += ["(%s)%s(%s)" % (a, o, b) for a in A for b in A for o in BIN]
    E1 += ["%s(%s,%s)" % (fn, a, b) for fn in "gh" for a in A for b in A]
    E1 += ["(%s)%s(%s)" % (a, o, b) for a in ("exp(x)", "g(y,x)", "m4", "x*y", "x/y", "m0+z") for b in ("exp(x)", "g(x,y)", "h(y,x)", "x*y", "-m0", "z^2") for o in BIN]
    E1 = list(dict.fromkeys(E1))
    progs = []
    step = 25 if T else 40
    for q in range(0, len(E1), step):
        part = E1[q:q + step]
        progs.append((q, [(a, part[(j * 7 + 3) % len(part)]) for j, a in enumerate(part)]))
    if T:
        for s_ in (3, 7, 11):
            sh = E1[s_:] + E1[:s_]
            sh = [sh[(i * 37) % len(sh)] for i in range(len(sh))]
            progs += [(s_ * 10000 + q, [(a, b) for a, b in zip(sh[q:q + 30], sh[q + 5:q + 35])]) for q in range(0, len(sh) - 40, 30)]
    ctx.bounds["generated programs"] = len(progs)
    ctx.run(progs, work_mc, "generated", timeout=600)
    ctx.finish(ctx.stats.get("expressions", 0), ctx.stats.get("transitions", 0), ctx.stats.get("points", 0),
               "every expression of the stated shapes, transformed in 14 ways; each result evaluated at 7 points against the original")
