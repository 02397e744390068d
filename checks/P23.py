#!/usr/bin/env python3
"""P23: small signal and noise solutions of devices are the response of the assembled system.

Every configuration of bulk, contact, interface and circuit equations of the stated lattice, solved at
several frequencies, for several excitations and towards several outputs, in histories that mix the two
analyses and change the operating point in between.  Oracle: dense complex elimination on the static and
dynamic matrices the simulator assembles (their entries are P04's and P05's business).
"""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P23", assumptions=["the matrices returned by get_matrix_and_rhs are the derivatives of the residual (property P04); systems whose matrix is singular are not judged",
                                 "the value of a noise solution at a node is the transfer from a unit source in its bulk equation"])
d = vc.load_devsim()
from asm import World, VARS, BULK, CPARTS, CON, REG, setvals

FREQ = (0.0, 0.125, 3.0)
TOL = 1e-9


def gauss(A, bs):
    """solves A x = b for several right hand sides; None if nearly singular"""
    n, m = len(A), len(bs)
    A = [list(r) + [b[i] for b in bs] for i, r in enumerate(A)]
    scale = [max(abs(v) for v in r[:n]) or 1.0 for r in A]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]) / scale[r])
        if abs(A[p][c]) < 1e-7 * scale[p]:
            return None
        A[c], A[p] = A[p], A[c]
        scale[c], scale[p] = scale[p], scale[c]
        piv = A[c]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c] / piv[c]
                row = A[r]
                for k in range(c, n + m):
                    row[k] -= f * piv[k]
    return [[A[i][n + k] / A[i][i] for i in range(n)] for k in range(m)]


def system(w, f):
    m = w.assembled()
    n = m["n"]
    J = [[0j] * n for _ in range(n)]
    for t, s in (("static", 1.0), ("dynamic", 2j * math.pi * f)):
        for (i, j), v in m[t][1].items():
            J[i][j] += s * float(v)
    return n, J, m["perm"]


def nodal(k, name):
    return list(d.get_node_model_values(device=k[0], region=k[1], name=name))


def cplx(w, rows, real, imag, creal, cimag):
    """what an analysis left: values by unknown"""
    cache, out = {}, {}
    for k in rows:
        if k[0] == "circuit":
            out[k] = complex(d.get_circuit_node_value(node=k[1], solution=creal), d.get_circuit_node_value(node=k[1], solution=cimag))
        else:
            c = (k[0], k[1], k[2])
            if c not in cache:
                cache[c] = [complex(a, b) for a, b in zip(nodal(k, real % k[2]), nodal(k, imag % k[2]))]
            out[k] = cache[c][k[3]]
    return out


def differs(got, want):
    sc = max((abs(v) for v in want.values()), default=0.0)
    for k, v in want.items():
        g = got[k]
        if not abs(g - v) <= TOL * (abs(v) + sc):
            return "%s is %r, the assembled system gives %r" % (k, g, v)
    return None


def operating(w):
    s = {}
    for k in w.unknowns():
        s[k] = w.get(k)
    return s


def gradients(w, out):
    """the gradients created with a noise solution are those of its values with zeros left out"""
    for dev in w.devices:
        for r in w.regions:
            for v in VARS:
                for part in ("real", "imag"):
                    n = "%s_E%s_%s" % (out, v, part)
                    k = dict(device=dev, region=r)
                    vals = list(d.get_node_model_values(name=n, **k))
                    if "zz" not in d.get_node_model_list(**k):
                        d.node_solution(name="zz", **k)
                        d.vector_gradient(node_model="zz", calc_type="avoidzero", **k)
                    d.set_node_values(name="zz", values=vals, **k)
                    for a in "xyz"[:w.dim]:
                        ctx.count(gradients=1)
                        g, h = (list(d.get_node_model_values(name=m + "_grad" + a, **k)) for m in (n, "zz"))
                        # extended values are read rounded
                        if g != h and not (w.cfg.get("ext") and all(abs(x - y) <= 1e-11 * max(map(abs, h)) for x, y in zip(g, h))):
                            return "%s_grad%s in %s %s is not the gradient of %s" % (n, a, dev, r, n)
    return None


def work(item):
    cfg, script = item
    ctx.note(item)
    w = World(cfg)
    w.assembled()
    rows = w.rows()
    ctx.count(configurations=1)
    src = [0.0, 0.0]

    def bad(key, what):
        ctx.violation("%s:%s:%s" % (key, cfg["kind"], vc.digest([cfg, script])), "%s, %s: %s" % (cfg, script, what), {"item": item})
    last = {}
    for op in script:
        if op[0] == "source":
            for k, p in enumerate(("acreal", "acimag")):
                if op[1 + k] is not None:
                    d.circuit_alter(name="V1", param=p, value=op[1 + k])
                    src[k] = op[1 + k]
            continue
        if op[0] == "move":
            for j, dev in enumerate(w.devices):
                for r in w.regions:
                    setvals(dev, r, 5 + 2 * j + w.regions.index(r), 0.0625)
            if w.circuit:
                for j, n in enumerate(sorted(d.get_circuit_node_list())):
                    d.set_circuit_node_value(node=n, solution="dcop", value=0.125 * (j + 2))
            last = {}
            continue
        f = op[1]
        key = f
        n, J, perm = system(w, f)
        before = operating(w)
        if op[0] == "ac":
            b = [0j] * n
            if w.circuit:
                b[rows[("circuit", "V1.I")]] = complex(*src)
            y = gauss(J, [b])
            if y is None:
                ctx.count(singular=1)
                return
            try:
                d.solve(type="ac", frequency=f)
            except d.error as e:
                return bad("acfail", "small signal at %r fails: %s" % (f, str(e)[:200]))
            want = {k: y[0][r] for k, r in rows.items()}
            got = cplx(w, rows, "%s_Real", "%s_Imag", "ssac_real", "ssac_imag")
            x = differs(got, want)
            if x:
                return bad("ac", "small signal at %r: %s" % (f, x))
        else:
            out = op[2]
            if not w.circuit or out not in ("cn", "ca", "x", "cm", "V1.I", "L1.I"):
                try:
                    d.solve(type="noise", frequency=f, output_node=out)
                    return bad("noiseok", "noise towards %s is accepted" % out)
                except d.error:
                    continue
            node = "cn" if out == "ca" else out
            e = rows[("circuit", node)]
            z = gauss([list(c) for c in zip(*J)], [[1.0 if i == e else 0.0 for i in range(n)]])
            if z is None:
                ctx.count(singular=1)
                return
            z = z[0]
            try:
                d.solve(type="noise", frequency=f, output_node=out)
            except d.error as x:
                return bad("noisefail", "noise at %r towards %s fails: %s" % (f, out, str(x)[:200]))
            want = {}
            for k, r in rows.items():
                if k[0] == "circuit":
                    want[k] = z[r]
                else:
                    # a source in the bulk equation of the node acts where that equation went, and on its own row if it is kept there
                    to, keep = perm[0][r], perm[1][r]
                    want[k] = 0.0 if to < 0 else z[to] + (z[r] if keep else 0.0)
            got = cplx(w, rows, out + "_E%s_real", out + "_E%s_imag", "noise_%s_real" % out, "noise_%s_imag" % out)
            x = differs(got, want)
            if x:
                return bad("noise", "noise at %r towards %s: %s" % (f, out, x))
            x = gradients(w, out)
            if x:
                return bad("gradient", x)
        ctx.count(transitions=1, values=len(rows))
        ctx.state("solutions", repr(sorted((repr(k), v) for k, v in got.items())))
        now = operating(w)
        if now != before:
            k = next(k for k in before if before[k] != now[k])
            return bad("moved", "%s changes the operating value of %s from %r to %r" % (op, k, before[k], now[k]))
        # an analysis repeated gives the same answer whatever was done in between
        if op[0] == "ac":
            key = (op, tuple(src))
        else:
            key = op
        if key in last and last[key] != got:
            return bad("history", "%s repeated gives other values" % (op,))
        last[key] = got
    ctx.count(traces=1)
    ctx.sample({"cfg": cfg, "script": script, "unknowns": len(rows)}, 3)


SRC = [("source", 0.75, None), ("source", -1.5, 0.5)]


def scripts(w_circuit, thorough, outs):
    """histories: analyses at every frequency, then mixed, then at another operating point"""
    ac = [("ac", f) for f in FREQ]
    noise = [("noise", f, o) for o in outs for f in FREQ[1:]]
    return [[SRC[0]] + ac + noise + [SRC[1], ("ac", FREQ[1]), noise[0], ("ac", FREQ[1]), ("move",), ("ac", FREQ[2])] + noise[-1:] + [noise[0]]]


def configs(thorough):
    out = []
    kinds = ("line", "tri", "tet1") + (("tet",) if thorough else ())
    bulks = ([BULK, BULK], [("node_model", "edge_model", "time_node_model"), BULK], [BULK[:4] + ("time_node_model",), ("node_model", "time_node_model", "edge_volume_model")])
    term = CPARTS[5:]
    # what a contact contributes to its circuit node, alone and together
    for kind in kinds:
        for parts in [("node_model",) + s for n in range(len(term) + 1) for s in itertools.combinations(term, n) if thorough or n in (0, 1, 2, 6)] + [CPARTS, CPARTS[1:], ("edge_model", "element_model")]:
            for cn in ("cn", "cm"):
                out.append({"kind": kind, "bulk": bulks[len(out) % 3], "contacts": {"c0": {"u": (parts, cn)}}, "circuit": True})
        for p0, p1 in itertools.product(("cn", "cm", "ca", None), repeat=2):
            out.append({"kind": kind, "bulk": bulks[0], "contacts": {"c0": {"u": (CPARTS, p0)}, "c1": {"u": (CPARTS[:1] + term[:4], p1), "w": (CPARTS[:1], None)}}, "circuit": True, "alias": True, "dev2": len(out) % 2 == 1, "couples": (None, "region", "global")[len(out) % 3]})
        for cn in ("ca", "cn"):
            for bulk in bulks:
                out.append({"kind": kind, "bulk": bulk, "contacts": {"c0": {"u": (CPARTS, cn), "w": (CPARTS[:6], cn)}}, "circuit": True, "alias": True})
    # contacts sharing nodes
    for which in itertools.product((0, 1, 2, 3), repeat=3):
        con = {"c%d" % k: {v: (CPARTS, "cn" if k < 2 else "cm") for b, v in ((1, "u"), (2, "w")) if m & b} for k, m in enumerate(which) if m}
        out.append({"kind": "trishare", "bulk": [BULK, BULK], "contacts": con, "circuit": True})
    # interfaces of every type, one or two equations, meeting contacts and each other
    types = ("continuous", "fluxterm", "hybrid")
    for kind in ("line2", "tri2") + (("tet2",) if thorough else ()):
        for ty, style, second in itertools.product(types, ("name", "both", "cross"), (None,) + types):
            eqs = {"u": (ty, style)}
            if second:
                eqs["w"] = (second, style)
            out.append({"kind": kind, "bulk": [BULK, BULK], "interfaces": {"i0": eqs}, "contacts": {"c0": {"u": (CPARTS, "cn")}, "c1": {"w": (CPARTS[:6], "cm")}}, "circuit": True, "dev2": kind == "line2" and style == "name"})
    for ty, ty1 in itertools.product(types, repeat=2):
        for con in ("", "u", "uw"):
            out.append({"kind": "tri3", "bulk": [BULK, BULK], "interfaces": {"i0": {v: (ty, "name") for v in "uw"}, "i1": {"u": (ty1, "both")}},
                        "contacts": dict({"c1": {"w": (CPARTS, "cn")}}, **({"c0": {v: (CPARTS[:7], "cm") for v in con}} if con else {})), "circuit": True})
    for ty, style in itertools.product(types, ("name", "cross")):
        for which in itertools.product(("", "u", "uw"), repeat=4):
            if any(which):
                con = {"c%d" % k: {v: (CPARTS[:7], "cn" if k % 2 else "cm") for v in x} for k, x in enumerate(which) if x}
                out.append({"kind": "triwrap", "bulk": [BULK, BULK], "interfaces": {"i0": {"u": (ty, style)}}, "contacts": con, "circuit": True})
    out += [dict(c, ext=True) for c in out[::17 if not thorough else 3]]
    return out


if __name__ == "__main__":
    items = []
    for n, c in enumerate(configs(ctx.thorough)):
        outs = ("cn", "x", "V1.I") if n % 2 else ("cm", "cn", "L1.I")
        if c.get("alias"):
            outs = ("ca", "cn", "cm")
        for s in scripts(True, ctx.thorough, outs):
            items.append([c, s])
    # without a circuit there is no source and no output
    for kind in ("line", "tri"):
        items.append([{"kind": kind, "bulk": [BULK, BULK], "contacts": {"c0": {"u": (CPARTS[:2], None)}}}, [("ac", 0.125), ("noise", 0.125, "cn"), ("ac", 3.0)]])
        items.append([{"kind": kind, "bulk": [BULK, BULK], "contacts": {"c0": {"u": (CPARTS, "cn")}}, "circuit": True}, [("noise", 0.125, "nosuch"), ("source", 1.0, None), ("ac", 3.0), ("noise", 0.125, "cn"), ("noise", 3.0, "0"), ("noise", 0.125, "cn")]])
    # every history of analyses, moves and source changes up to a depth, on one system of each precision
    alpha = [("ac", 0.125), ("ac", 3.0), ("noise", 0.125, "cn"), ("noise", 3.0, "cn"), ("noise", 0.125, "x"), ("move",), ("source", 0.5, -2.0)]
    for ext in (False, True):
        c = {"kind": "line2", "bulk": [BULK, BULK], "interfaces": {"i0": {"u": ("hybrid", "name"), "w": ("continuous", "name")}}, "contacts": {"c0": {"u": (CPARTS, "cn")}}, "circuit": True, "ext": ext}
        for n in range(1, (5 if ctx.thorough else 4) - ext):
            for s in itertools.product(alpha, repeat=n):
                if s[-1][0] in ("ac", "noise"):
                    items.append([c, [("source", 0.75, None)] + list(s)])
    ctx.run(items, work, "analysis", setup=vc.quiet, timeout=120)
    s = ctx.stats
    ctx.finish(len(ctx.sets.get("solutions", ())), s.get("transitions", 0), s.get("traces", 0),
               "every configuration of the stated lattice of contacts, circuit connections and interfaces x three frequencies x outputs and sources, and every history of analyses, operating point and source changes up to the depth: every value of every unknown against the assembled system")
