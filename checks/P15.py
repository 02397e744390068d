#!/usr/bin/env python3
"""P15: extended precision never degrades or desynchronizes values.

1. The dual precision store and the data computed from it are driven, in C++, through every sequence of
   operations up to a depth, against plain vectors of 113 bit values (harness/p15store.cc).
2. Every sequence of the interface's operations on solutions of nodes, edges and elements (set one, set all, copy
   from a double or an extended model, read in either precision, replace under either switch) up to a depth;
   at the end the value is read back with all of its 113 bits through a second extended model.
3. Every kind of derived model with its source and itself in either precision: the double view equals the one
   computed in double, and a perturbation of 2^-80 is carried through.
4. Every sequence of analyses (DC, transient methods, small signal, noise, restart) up to a depth under every
   combination of the switches at creation, with the solver's switch toggled at every position: all values equal
   those of the same analyses in double to within rounding; with all switches on the DC and backward Euler
   values equal the exact rational solution to more digits than double has.
"""
import os, sys, itertools, math, subprocess
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare(("module", "mathlib", "p15store"))
ctx = vc.Ctx("P15", assumptions=["circuit nodes are held in double precision under every setting", "the direct solver factors in double; an extended Newton iteration converges to extended precision by repetition",
                                 "zero times infinity is not part of the alphabet (the store skips a multiplication by a uniform zero)"])
d = vc.load_devsim()
import dev as devs
from child import child
THOROUGH = ctx.thorough
SW = ("extended_model", "extended_equation", "extended_solver")


def switch(names):
    for n in SW:
        d.set_parameter(name=n, value=n in names)


# ---- 1. the store ------------------------------------------------------------------------------------
def store(item):
    mode, depth, nparts, part = item
    p = subprocess.run([os.path.join(vc.BUILD, "p15store"), mode, str(depth), str(nparts), str(part)], stdout=subprocess.PIPE, text=True)
    if p.returncode:
        return {"violations": [("the store", "store", "%s depth %d: ended with status %d" % (mode, depth, p.returncode))]}
    lines = p.stdout.splitlines()
    w = lines[-1].split()
    r = {"sequences": int(w[1]), "operations": int(w[3]), "compared": int(w[5]), "violations": []}
    for l in lines[:-1]:
        r["violations"].append(("store:" + l.split("::")[1].strip()[:40], l))
    return r


def do_store(item):
    ctx.note(item)
    r = store(item)
    ctx.count(states=r.get("sequences", 0), transitions=r.get("operations", 0), compared=r.get("compared", 0), sequences_store=r.get("sequences", 0))
    for k, what in [(v[0], v[-1]) for v in r["violations"]]:
        ctx.violation(k, "%s %s" % (item[0], what), {"item": item})


# ---- 2. solutions of the interface ---------------------------------------------------------------------
class Kind:
    def __init__(self, mesh, sol, model, setall, get, exprs):
        self.mesh, self.sol, self.model, self.setall, self.get, self.exprs = mesh, sol, model, setall, get, exprs


KINDS = {
    "node": Kind("line", d.node_solution, d.node_model, d.set_node_values, d.get_node_model_values, ("(x+two)/three", "one/three", "(x+two)/seven")),
    "edge": Kind("tri", d.edge_solution, d.edge_model, d.set_edge_values, d.get_edge_model_values, ("(EdgeLength+two)/three", "one/three", "(EdgeLength+two)/seven")),
    "elem2": Kind("tri", d.element_solution, d.element_model, d.set_element_values, d.get_element_model_values, ("(ElementEdgeCouple+two)/three", "one/three", "(ElementEdgeCouple+two)/seven")),
    "elem3": Kind("tet1", d.element_solution, d.element_model, d.set_element_values, d.get_element_model_values, ("(ElementEdgeCouple+two)/three", "one/three", "(ElementEdgeCouple+two)/seven")),
}
READY = set()


def mesh(kind):
    if kind not in READY:
        getattr(devs, kind)("M" + kind)
        d.delete_device(device="M" + kind)
        READY.add(kind)


class W:
    """one device with the fixed models, fresh for every sequence"""
    def __init__(self, kn):
        self.K = K = KINDS[kn]
        mesh(K.mesh)
        d.create_device(mesh="M" + K.mesh, device="D")
        self.k = k = dict(device="D", region="R")
        for n, v in (("one", 1.0), ("two", 2.0), ("three", 3.0), ("seven", 7.0)):
            d.set_parameter(name=n, value=v)
        self.on()
        K.model(name="B", equation=K.exprs[0], **k)
        K.model(name="U", equation=K.exprs[1], **k)
        self.off()
        K.model(name="P", equation="0", **k)
        K.sol(name="P", **k)
        K.model(name="C", equation=K.exprs[2], **k)
        self.made = False

    def on(self):
        d.set_parameter(name="extended_model", value=True)

    def off(self):
        d.set_parameter(name="extended_model", value=False)

    def create(self, ext):
        (self.on if ext else self.off)()
        self.K.sol(name="A", **self.k)
        if not self.made:
            self.on()
            self.K.model(name="E", equation="A*one", **self.k)
            self.K.model(name="X", equation="A-P", **self.k)
            self.off()
            self.K.model(name="F", equation="A*one", **self.k)
            self.made = True

    def get(self, n):
        return list(self.K.get(name=n, **self.k))

    def probe(self, n):
        """the value with all of its digits"""
        hi = self.get(n)
        self.K.setall(name="P", values=hi, **self.k)
        if n != "A":
            self.on()
            self.K.model(name="X" + n, equation=n + "-P", **self.k)
        lo = self.get("X" if n == "A" else "X" + n)
        return [F(a) + F(b) for a, b in zip(hi, lo)]

    def close(self):
        d.delete_device(device="D")


CONST = {}


def const(kn):
    """the fixed models' values, checked against exact arithmetic where that is known"""
    if kn not in CONST:
        w = W(kn)
        r = {n: w.probe(n) for n in "BUC"}
        w.close()
        CONST[kn] = r
    return CONST[kn]


OPS2 = {"node": ("one", "uni", "list", "cpB", "cpU", "cpC", "rd", "rE", "rF", "newE", "newD"),
        "edge": ("list", "cpB", "cpU", "cpC", "rd", "rE", "rF", "newE", "newD")}
OPS2["elem2"] = OPS2["elem3"] = OPS2["edge"]


def rounded(l):
    return [F(float(x)) for x in l]


def near(a, b, bits):
    return abs(a - b) <= abs(b) / 2 ** bits


def do_values(item):
    kn, first, second, depth = item
    ctx.note(item)
    CN = const(kn)
    n = len(CN["B"])
    ops = OPS2[kn]
    for tail in (t for m in range(depth - 1) for t in itertools.product(ops, repeat=m)):
        seq = (second,) + tail
        w = W(kn)
        try:
            w.create(first == "newE")
            ext = first == "newE"
            ref = [F(0)] * n
            ctx.count(sequences_values=1, states=1, transitions=len(seq))
            bad = None
            for o in seq:
                if o == "one":
                    d.set_node_value(name="A", index=n - 1, value=0.1, **w.k)
                    ref = ref[:-1] + [F(0.1)]
                elif o == "uni":
                    d.set_node_value(name="A", value=0.3, **w.k)
                    ref = [F(0.3)] * n
                elif o == "list":
                    v = [0.7 * (i + 1) for i in range(n)]
                    w.K.setall(name="A", values=v, **w.k)
                    ref = [F(x) for x in v]
                elif o in ("cpB", "cpU", "cpC"):
                    w.K.setall(name="A", init_from=o[2], **w.k)
                    ref = CN[o[2]] if ext else rounded(CN[o[2]])
                elif o in ("newE", "newD"):
                    w.create(o == "newE")
                    ext = o == "newE"
                    ref = [F(0)] * n
                else:
                    x = w.get({"rd": "A", "rE": "E", "rF": "F"}[o])
                    if rounded(x) != rounded(ref):
                        bad = "%s is %r, not %r" % ({"rd": "the value", "rE": "an extended model of it", "rF": "a double model of it"}[o], x, [float(v) for v in ref])
                        break
            if not bad:
                for nm in ("A", "E", "F"):
                    x = w.get(nm)
                    if rounded(x) != rounded(ref):
                        bad = "%s reads %r, not %r" % (nm, x, [float(v) for v in ref])
                        break
                else:
                    g = w.probe("A")
                    if not all(near(a, b, 105) for a, b in zip(g, ref)):
                        bad = "the extended value differs from the one given by %s" % [float(a - b) for a, b in zip(g, ref)]
                    ctx.count(compared=4 * n)
            if bad:
                ctx.violation("values:%s:%s" % (kn, vc.digest((first,) + seq)), "%s: %s after %s" % (kn, bad, (first,) + seq), {"item": item})
        finally:
            w.close()
    ctx.state("values", item)


def value_items():
    out = []
    for kn in KINDS:
        for first in ("newE", "newD"):
            for second in OPS2[kn]:
                out.append((kn, first, second, {"node": 5, "edge": 5}.get(kn, 4) + THOROUGH))
    return out


def do_const(kn):
    """the fixed models themselves: exact where the inputs are"""
    ctx.note(kn)
    mesh(KINDS[kn].mesh)
    w = W(kn)
    src = {"node": "x", "edge": "EdgeLength", "elem2": "ElementEdgeCouple", "elem3": "ElementEdgeCouple"}[kn]
    s = [F(v) for v in w.get(src)]
    full = w.probe(src)
    w.close()
    c = const(kn)
    ctx.count(states=1, compared=3 * len(s), transitions=3)
    for i in range(len(s)):
        if not near(c["U"][i], F(1, 3), 105):
            ctx.violation("const:U:" + kn, "%s: the extended value of 1/3 is off by %s" % (kn, float(c["U"][i] - F(1, 3))))
        for x, what in ((full[i], "B"),):
            if not near(c["B"][i], (x + 2) / 3, 105):
                ctx.violation("const:B:" + kn, "%s: the extended value of %s is off by %s" % (kn, KINDS[kn].exprs[0], float(c["B"][i] - (x + 2) / 3)))
        if not near(c["C"][i], F((float(s[i]) + 2.0) / 7.0), 50):
            ctx.violation("const:C:" + kn, "%s: the double value of %s is %r" % (kn, KINDS[kn].exprs[2], float(c["C"][i])))


# ---- 3. derived models ---------------------------------------------------------------------------------
EPS = 2.0 ** -80
GET = {"n": d.get_node_model_values, "e": d.get_edge_model_values, "t": d.get_element_model_values}
LST = {"n": d.get_node_model_list, "e": d.get_edge_model_list, "t": d.get_element_model_list}
MOD = {"n": d.node_model, "e": d.edge_model, "t": d.element_model}


def names(k, dim):
    return {e: set(LST[e](**k)) for e in ("n", "e") + (("t",) if dim > 1 else ())}


# kind: (needs dimension, source entity, maker, linear)
DER = {
    "edge_from_node": (1, "n", lambda k, s: d.edge_from_node_model(node_model=s, **k), True),
    "average": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_av", average_type="arithmetic", **k), True),
    "average_d": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_av", average_type="arithmetic", derivative="v", **k), True),
    "geometric": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_gm", average_type="geometric", **k), False),
    "geometric_d": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_gm", average_type="geometric", derivative="v", **k), False),
    "gradient": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_gr", average_type="gradient", **k), True),
    "gradient_d": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_gr", average_type="gradient", derivative="v", **k), True),
    "negative": (1, "n", lambda k, s: d.edge_average_model(node_model=s, edge_model=s + "_ng", average_type="negative_gradient", **k), True),
    "vector_gradient": (1, "n", lambda k, s: d.vector_gradient(node_model=s, **k), True),
    "expression": (1, "n", lambda k, s: d.node_model(name=s + "_ex", equation="2*%s-x*%s" % (s, s), **k), True),
    "nonlinear": (1, "n", lambda k, s: d.node_model(name=s + "_nl", equation="exp(%s)+pow(%s,3)" % (s, s), **k), False),
    "edge_expression": (1, "e", lambda k, s: d.edge_model(name=s + "_ex", equation="%s*EdgeInverseLength+2*%s" % (s, s), **k), True),
    "element_from_node": (2, "n", lambda k, s: d.element_from_node_model(node_model=s, **k), True),
    "element_from_edge": (2, "e", lambda k, s: d.element_from_edge_model(edge_model=s, **k), True),
    "element_from_edge_d": (2, "e", lambda k, s: (d.element_from_edge_model(edge_model=s, **k), d.element_from_edge_model(edge_model=s, derivative="v", **k)), True),
    "element_pair": (2, "e", lambda k, s: d.element_pair_from_edge_model(edge_model=s, **k), True),
    "element_pair_d": (2, "e", lambda k, s: (d.element_pair_from_edge_model(edge_model=s, **k), d.element_pair_from_edge_model(edge_model=s, derivative="v", **k)), True),
    "vector_element": (2, "t", lambda k, s: d.vector_element_model(element_model=s, **k), True),
    "element_expression": (2, "t", lambda k, s: d.element_model(name=s + "_ex", equation="%s*ElementEdgeCouple+2*%s" % (s, s), **k), True),
}
GEOS = {"line": 1, "tri": 2, "tet": 3}
SOLVER = {"n": d.node_solution, "e": d.edge_solution, "t": d.element_solution}
SETALL = {"n": d.set_node_values, "e": d.set_edge_values, "t": d.set_element_values}
DERIVS = {"n": (":v",), "e": (":v@n0", ":v@n1"), "t": ()}


def ext(on):
    d.set_parameter(name="extended_model", value=on)


def derived(geo, kind, src, der):
    """the values of the models made by kind from S (large plus small part), S1 and S2 with the source and the
    derived models in the given precisions, and the small part carried through"""
    _, ent, make, linear = DER[kind]
    dim = GEOS[geo]
    mesh(geo)
    d.create_device(mesh="M" + geo, device="D")
    k = dict(device="D", region="R")
    try:
        d.set_parameter(name="eps", value=EPS)
        ext(False)
        size = {}
        MOD[ent](name="size_", equation="1", **k)
        n = len(GET[ent](name="size_", **k))
        d.node_solution(name="v", **k)
        for j, suffix in enumerate(("",) + DERIVS[ent]):
            for w, g in (("P1", lambda i: 0.5 + ((3 * i + 2 + j) % 7) / 8.0), ("P2", lambda i: ((5 * i + 1 + 2 * j) % 11) / 4.0 + 0.25)):
                nm = w + suffix.replace(":", "_").replace("@", "_")
                SOLVER[ent](name=nm, **k)
                SETALL[ent](name=nm, values=[g(i) for i in range(n)], **k)
        ext(src)
        for suffix in ("",) + DERIVS[ent]:
            x = suffix.replace(":", "_").replace("@", "_")
            MOD[ent](name="S1" + suffix, equation="P1" + x, **k)
            MOD[ent](name="S2" + suffix, equation="P2" + x, **k)
            MOD[ent](name="SS" + suffix, equation="P1%s+eps*P2%s" % (x, x), **k)
        ext(der)
        made = {}
        for s in ("SS", "S1", "S2"):
            before = names(k, dim)
            make(k, s)
            after = names(k, dim)
            made[s] = [(e, m) for e in sorted(after) for m in sorted(after[e] - before[e])]
        if ent == "e":
            for s in made:
                made[s] = [(e, m) for e, m in made[s]]
        out = {}
        for s in made:
            for e, m in made[s]:
                out[s, e, m.replace(s, "@S", 1)] = list(GET[e](name=m, **k))
        small = {}
        if linear and src and der:
            for e, m in made["SS"]:
                t = "dif_" + "".join(c if c.isalnum() else "_" for c in m)
                MOD[e](name=t, equation="(%s-%s)/eps" % (m, m.replace("SS", "S1", 1)), **k)
                small[e, m.replace("SS", "@S", 1)] = list(GET[e](name=t, **k))
        return out, small
    finally:
        d.delete_device(device="D")


def do_derived(item):
    geo, kind = item
    ctx.note(item)
    base, _ = derived(geo, kind, False, False)
    linear = DER[kind][3]
    for src, der in itertools.product((False, True), repeat=2):
        got, small = derived(geo, kind, src, der)
        ctx.count(states=1, transitions=len(got), sequences_derived=1)
        if set(got) != set(base):
            ctx.violation("derived:%s:%s" % item, "%s on %s: models made are %s, not %s" % (kind, geo, sorted(set(got) - set(base)), sorted(set(base) - set(got))), {"item": item})
            return
        for key, v in got.items():
            b = base[key]
            sc = max([abs(x) for x in b] + [1e-30])
            for i, (x, y) in enumerate(zip(v, b)):
                ctx.count(compared=1)
                # in double, from a source whose rounded values are the same, the same operations
                tol = 0.0 if not der else 1e-13 * sc
                if not abs(x - y) <= tol:
                    ctx.violation("derived:%s:%s" % item, "%s on %s, source %s, model %s: %s[%d] is %r, in double %r" % (kind, geo, "extended" if src else "double", "extended" if der else "double", key, i, x, y), {"item": item})
                    return
        for (e, m), v in small.items():
            b = base["S2", e, m]
            sc = max([abs(x) for x in b] + [1.0])
            for i, (x, y) in enumerate(zip(v, b)):
                ctx.count(compared=1)
                if not abs(x - y) <= 1e-7 * sc:
                    ctx.violation("derived:%s:%s" % item, "%s on %s: the small part of %s[%d] is %r, not %r" % (kind, geo, m, i, x, y), {"item": item})
                    return
    ctx.state("derived", item)


# interface and contact models see both regions' precision
def do_interface(item):
    geo, e0, e1, ei = item
    ctx.note(item)
    kind = {"line2": 1, "tri2": 2, "tet2": 3}
    mesh(geo)
    res = []
    for prec in (None, (e0, e1, ei)):
        d.create_device(mesh="M" + geo, device="D")
        try:
            d.set_parameter(name="eps", value=EPS)
            for r, e in (("R0", prec and prec[0]), ("R1", prec and prec[1])):
                k = dict(device="D", region=r)
                ext(False)
                d.node_model(name="P2", equation="x+1", **k)
                ext(bool(e))
                d.node_model(name="a", equation="1+x", **k)
                d.node_model(name="b", equation="1+x+eps*P2", **k)
            ext(bool(prec and prec[2]))
            d.interface_model(device="D", interface="i0", name="m", equation="a@r0*2-a@r1")
            d.interface_model(device="D", interface="i0", name="w", equation="(b@r0-a@r1)/eps")
            res.append((list(d.get_interface_model_values(device="D", interface="i0", name="m")), list(d.get_interface_model_values(device="D", interface="i0", name="w")),
                        list(d.get_interface_model_values(device="D", interface="i0", name="m"))))
            if prec:
                k = dict(device="D", region="R0")
                d.contact_node_model(device="D", contact="c0", name="cm", equation="(b-a)/eps")
                d.contact_edge_model(device="D", contact="c0", name="ce", equation="EdgeLength*3")
                cm = list(d.get_node_model_values(name="cm", **k))
                ce = list(d.get_edge_model_values(name="ce", **k))
                el = list(d.get_edge_model_values(name="EdgeLength", **k))
                p2 = list(d.get_node_model_values(name="P2", **k))
                ctx.count(compared=len(cm))
                on = [i for i, v in enumerate(cm) if v]
                if prec[0] and prec[2] and (not on or not all(abs(cm[i] - p2[i]) < 1e-7 for i in on)):
                    ctx.violation("contact:%s" % geo, "%s %s: the contact model is %s for %s" % (geo, prec, cm, p2), {"item": item})
                if any(v and abs(v - 3 * l) > 1e-14 * abs(3 * l) for v, l in zip(ce, el)):
                    ctx.violation("contact_edge:%s" % geo, "%s %s: the contact edge model is %s for %s" % (geo, prec, ce, el), {"item": item})
                pi = [v for v in res[1][1]]
        finally:
            d.delete_device(device="D")
    ctx.count(states=1, transitions=4, compared=len(res[0][0]), sequences_derived=1)
    if any(abs(x - y) > 1e-14 * (1 + abs(y)) for x, y in zip(res[1][0], res[0][0])) or res[1][0] != res[1][2]:
        ctx.violation("interface:%s" % geo, "%s %s: the interface model is %s, in double %s" % (item[0], item[1:], res[1][0], res[0][0]), {"item": item})
    # b@r0 - a@r1 keeps the small part when the model and region 0 are extended (a@r1 is the same number in either precision)
    want = None
    if ei and e0:
        if not all(0.9 < x < 1e3 and not x == 0 for x in res[1][1]):
            ctx.violation("interface:small:%s" % geo, "%s %s: the small part is %s" % (item[0], item[1:], res[1][1]), {"item": item})


# ---- 4. analyses ---------------------------------------------------------------------------------------
TIGHT = dict(absolute_error=1e-14, relative_error=1e-13, maximum_iterations=12)
STEPS = ("dc", "tdc", "bdf1", "tr", "bdf2", "ac", "noise", "set")


def problem(nonlinear):
    """two regions, an interface, a driven contact and one with a circuit; linear or with a cubic term"""
    mesh("line2")
    d.create_device(mesh="Mline2", device="D")
    for r in ("R0", "R1"):
        k = dict(device="D", region=r)
        d.set_parameter(name="kk", value={"R0": 1.5, "R1": 0.75}[r], **k)
        d.node_solution(name="u", **k)
        d.edge_from_node_model(node_model="u", **k)
        d.edge_model(name="g", equation="kk*(u@n0-u@n1)*EdgeInverseLength", **k)
        d.edge_model(name="g:u@n0", equation="kk*EdgeInverseLength", **k)
        d.edge_model(name="g:u@n1", equation="-kk*EdgeInverseLength", **k)
        if nonlinear:
            d.node_model(name="s", equation="0.3*u + 0.1*u*u*u - 0.2", **k)
            d.node_model(name="s:u", equation="0.3 + 0.3*u*u", **k)
        else:
            d.node_model(name="s", equation="0.3*u - 0.2", **k)
            d.node_model(name="s:u", equation="0.3", **k)
        d.node_model(name="q", equation="0.7*u", **k)
        d.node_model(name="q:u", equation="0.7", **k)
        d.node_model(name="nz_r", equation="1+x", **k)
        d.node_model(name="nz_i", equation="0", **k)
        d.equation(name="E", variable_name="u", node_model="s", edge_model="g", time_node_model="q", **k)
    d.interface_model(device="D", interface="i0", name="im", equation="u@r0-u@r1")
    d.interface_model(device="D", interface="i0", name="im:u@r0", equation="1")
    d.interface_model(device="D", interface="i0", name="im:u@r1", equation="-1")
    d.interface_equation(device="D", interface="i0", name="E", interface_model="im", type="continuous")
    d.set_parameter(device="D", name="b0", value=0.3)
    d.contact_node_model(device="D", contact="c0", name="cm0", equation="u-b0")
    d.contact_node_model(device="D", contact="c0", name="cm0:u", equation="1")
    d.contact_equation(device="D", contact="c0", name="E", node_model="cm0", edge_current_model="g")
    d.circuit_element(name="V1", n1="n1", n2="0", value=0.9, acreal=1.0)
    d.circuit_element(name="R1", n1="n1", n2="n2", value=2.0)
    d.circuit_element(name="C1", n1="n2", n2="0", value=0.4)
    d.contact_node_model(device="D", contact="c1", name="cm1", equation="u-n2")
    d.contact_node_model(device="D", contact="c1", name="cm1:u", equation="1")
    d.contact_node_model(device="D", contact="c1", name="cm1:n2", equation="-1")
    d.contact_equation(device="D", contact="c1", name="E", node_model="cm1", edge_current_model="g", circuit_node="n2")


def everything():
    o = {}
    for r in ("R0", "R1"):
        k = dict(device="D", region=r)
        for m in d.get_node_model_list(**k):
            if m not in ("u_prev",) and not m.startswith("nz_"):
                o[r, m] = list(d.get_node_model_values(name=m, **k))
        o[r, "g"] = list(d.get_edge_model_values(name="g", **k))
    for s in d.get_circuit_solution_list():
        if s.endswith("_prev"):
            continue
        for n in d.get_circuit_node_list():
            o["C", s, n] = [d.get_circuit_node_value(solution=s, node=n)]
    for c in ("c0", "c1"):
        o["I", c] = [d.get_contact_current(device="D", contact=c, equation="E")]
        o["Q", c] = [d.get_contact_charge(device="D", contact=c, equation="E")]
    return o


def step(s, i):
    if s == "dc":
        d.set_parameter(device="D", name="b0", value=0.3 + 0.1 * i)
        return d.solve(type="dc", info=True, **TIGHT)
    if s == "tdc":
        d.set_parameter(device="D", name="b0", value=0.4 + 0.1 * i)
        return d.solve(type="transient_dc", info=True, **TIGHT)
    if s in ("bdf1", "tr", "bdf2"):
        d.set_parameter(device="D", name="b0", value=0.8 - 0.1 * i)
        return d.solve(type="transient_" + s, tdelta=0.25 * (1 + i), charge_error=1e10, gamma=0.5 if s == "bdf2" else 1.0, info=True, **TIGHT)
    if s == "ac":
        return d.solve(type="ac", frequency=0.1 * (i + 1))
    if s == "noise":
        return d.solve(type="noise", frequency=0.1 * (i + 1), output_node="n2")
    if s == "set":
        d.set_node_value(device="D", region="R1", name="u", index=1, value=0.05 * (i + 1))
        m = d.get_matrix_and_rhs(format="csc")
        return [list(m[t][x]) for t in ("static", "dynamic") for x in ("ai", "ap", "av", "rhs")]
    if s == "init":
        m = d.get_matrix_and_rhs(format="csr")
        return d.set_initial_condition(static_rhs=[-v for v in m["static"]["rhs"]], dynamic_rhs=[-v for v in m["dynamic"]["rhs"]])
    raise AssertionError(s)


def run_seq(seq, nonlinear, sw, toggles):
    """snapshots after every step; toggles[i]: the solver's switch for step i"""
    def go():
        switch(sw)
        problem(nonlinear)
        out = []
        for i, s in enumerate(seq):
            d.set_parameter(name="extended_solver", value=toggles[i])
            try:
                r = step(s, i)
                conv = r.get("converged") if isinstance(r, dict) else None
                out.append(("ok", conv, r if s == "set" else None, everything()))
            except d.error as e:
                out.append(("error", str(e).split("\n")[0], None, everything() if i else None))
                break
        return out
    st, r = child(go, 60)
    return r if st == "ok" else [(st, r, None, None)]


def close(x, y, sc):
    return abs(x - y) <= 1e-11 * (sc + abs(y))


def diff(a, b):
    if len(a) != len(b):
        return "%d steps instead of %d: %s, %s" % (len(a), len(b), [x[:2] for x in a], [x[:2] for x in b])
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0] or x[1] != y[1]:
            return "step %d gives %s, in double %s" % (i, x[:2], y[:2])
        for j in (2, 3):
            if (x[j] is None) != (y[j] is None):
                return "step %d" % i
            if x[j] is None:
                continue
            p, q = (dict(enumerate(x[j])), dict(enumerate(y[j]))) if j == 2 else (x[j], y[j])
            if set(p) != set(q):
                return "step %d: there are %s, in double %s" % (i, sorted(set(p) - set(q), key=str), sorted(set(q) - set(p), key=str))
            for key in p:
                sc = max([abs(v) for v in q[key]] + [1.0])
                ctx.count(compared=len(q[key]))
                if len(p[key]) != len(q[key]):
                    return "step %d: %s has %d values" % (i, key, len(p[key]))
                for v, w in zip(p[key], q[key]):
                    if not (close(v, w, sc) or (v != v and w != w)):
                        return "step %d: %s is %r, in double %r" % (i, key, p[key], q[key])
    return None


def do_seq(item):
    seq, nonlinear = item
    ctx.note(item)
    n = len(seq)
    base = run_seq(seq, nonlinear, (), (False,) * n)
    combos = [c for m in range(3) for c in itertools.combinations(SW[:2], m)]
    for sw in combos if n < 3 or THOROUGH else (combos[0], combos[-1]):
        for tog in itertools.product((False, True), repeat=n):
            if not sw and not any(tog):
                continue
            got = run_seq(seq, nonlinear, sw, tog)
            ctx.count(states=1, transitions=n, sequences_solve=1)
            e = diff(got, base)
            if e:
                ctx.violation("solve:%s:%d" % ("+".join(seq), nonlinear), "%s%s with %s, extended solver %s: %s" % (seq, " nonlinear" if nonlinear else "", sw or "no switch", tog, e), {"item": item})
                return
    ctx.state("solve", item)


def seqs():
    """all up to two steps; of three (quick) those of the analyses that carry a state, with any analysis last"""
    out = []
    al = STEPS + ("init",)
    for n in range(1, 4 + THOROUGH):
        for s in itertools.product(al, repeat=n):
            if n == 3 + THOROUGH and ({"ac", "noise"} & set(s[:-1]) or s[-1] in ("noise", "dc") or s[0] in ("bdf1", "tr", "bdf2") or len(set(s)) == 1):
                continue
            out.append(s)
    return out


# exact rational solution in 1d
XS = (0.0, 1.0, 3.0, 4.0)


def exact_setup():
    if "exact" not in READY:
        devs.line("Mexact", XS)
        d.delete_device(device="Mexact")
        READY.add("exact")
    d.create_device(mesh="Mexact", device="D")
    k = dict(device="D", region="R")
    for n, v in (("k", 3.0), ("r", 0.3), ("src", 0.7), ("c", 0.6), ("b", 1.0), ("three", 3.0), ("one", 1.0)):
        d.set_parameter(name=n, value=v)
    d.node_solution(name="u", **k)
    d.edge_from_node_model(node_model="u", **k)
    d.edge_model(name="g", equation="k*(u@n0-u@n1)*EdgeInverseLength", **k)
    d.edge_model(name="g:u@n0", equation="k*EdgeInverseLength", **k)
    d.edge_model(name="g:u@n1", equation="-k*EdgeInverseLength", **k)
    d.node_model(name="s", equation="r*u-src/three", **k)
    d.node_model(name="s:u", equation="r", **k)
    d.node_model(name="q", equation="c*u", **k)
    d.node_model(name="q:u", equation="c", **k)
    d.equation(name="E", variable_name="u", node_model="s", edge_model="g", time_node_model="q", **k)
    for c, eq in (("c0", "u-b/three"), ("c1", "u-one/b")):
        d.contact_node_model(device="D", contact=c, name="m" + c, equation=eq)
        d.contact_node_model(device="D", contact=c, name="m" + c + ":u", equation="one")
        d.contact_equation(device="D", contact=c, name="E", node_model="m" + c, edge_current_model="g")
    d.set_parameter(name="extended_model", value=False)
    d.node_solution(name="P", **k)
    d.set_parameter(name="extended_model", value=True)
    d.node_model(name="X", equation="u-P", **k)
    return k


def gauss(A, b):
    n = len(b)
    A = [r[:] + [v] for r, v in zip(A, b)]
    for i in range(n):
        p = next(j for j in range(i, n) if A[j][i])
        A[i], A[p] = A[p], A[i]
        for j in range(n):
            if j != i and A[j][i]:
                f = A[j][i] / A[i][i]
                A[j] = [x - f * y for x, y in zip(A[j], A[i])]
    return [A[i][n] / A[i][i] for i in range(n)]


class Exact:
    def __init__(self):
        n = len(XS)
        x = [F(v) for v in XS]
        self.n, self.vol = n, [((x[min(i + 1, n - 1)] - x[i]) + (x[i] - x[max(i - 1, 0)])) / 2 for i in range(n)]
        self.L = [x[i + 1] - x[i] for i in range(n - 1)]
        self.c = F(0.6)

    def static(self, b):
        """G u = h for the nodes inside, and the contacts' rows"""
        n, k, r, s = self.n, F(3), F(0.3), F(0.7) / 3
        G = [[F(0)] * n for _ in range(n)]
        h = [F(0)] * n
        for i, l in enumerate(self.L):
            for p, q in ((i, i + 1), (i + 1, i)):
                G[p][p] += k / l
                G[p][q] -= k / l
        for i in range(n):
            G[i][i] += r * self.vol[i]
            h[i] += s * self.vol[i]
        for i, v in ((0, F(b) / 3), (n - 1, 1 / F(b))):
            G[i] = [F(int(j == i)) for j in range(n)]
            h[i] = v
        return G, h

    def Q(self, u):
        return [self.c * self.vol[i] * u[i] if 0 < i < self.n - 1 else F(0) for i in range(self.n)]

    def current(self, b, u):
        """the static part of the equations, zero where the contact holds"""
        G, h = self.static(b)
        return [sum(x * y for x, y in zip(r, u)) - v for r, v in zip(G, h)]

    def dc(self, b):
        u = gauss(*self.static(b))
        return u

    def tdc(self, b):
        u = self.dc(b)
        self.q, self.i = [self.Q(u)], [self.current(b, u)]
        return u

    def advance(self, method, b, dt, g):
        """a0 Q(u) + I(u) + a1 Q0 + a2 Q1 + b1 I0 = 0"""
        a2 = b1 = F(0)
        if method == "bdf1":
            a0, a1 = 1 / (g * dt), -1 / (g * dt)
        elif method == "tr":
            a0, a1, b1 = 2 / (g * dt), -2 / (g * dt), F(1)
        else:
            a0, a1, a2 = (2 - g) / ((1 - g) * dt), -1 / (g * (1 - g) * dt), (1 - g) / (g * dt)
        G, h = self.static(b)
        G = [r[:] for r in G]
        for i in range(self.n):
            if 0 < i < self.n - 1:
                G[i][i] += a0 * self.c * self.vol[i]
            h[i] -= a1 * self.q[0][i] + (a2 * self.q[1][i] if a2 else 0) + b1 * self.i[0][i]
        u = gauss(G, h)
        self.q, self.i = [self.Q(u)] + self.q[:1], [self.current(b, u)] + self.i[:1]
        return u


def do_exact(item):
    seq, sw, tog = item
    ctx.note(item)
    T = dict(absolute_error=1e-28, relative_error=1e-28, maximum_iterations=15)

    def go():
        switch(sw)
        k = exact_setup()
        E = Exact()
        out = []
        for i, (s, b) in enumerate(zip(seq, (1.0, 0.7, 0.9, 1.3, 0.6))):
            d.set_parameter(name="extended_solver", value=True)
            d.set_parameter(name="b", value=b)
            if s == "tdc":
                d.solve(type="transient_dc", **T)
                u = E.tdc(b)
            elif s == "dc":
                d.solve(type="dc", **T)
                u = E.dc(b)
            else:
                dt, g = 0.3 + 0.2 * i, 0.375 if s == "bdf2" else 1.0
                d.solve(type="transient_" + s, tdelta=dt, charge_error=1e10, gamma=g, **T)
                u = E.advance(s, b, F(dt), F(g))
            hi = list(d.get_node_model_values(name="u", **k))
            d.set_node_values(name="P", values=hi, **k)
            lo = list(d.get_node_model_values(name="X", **k))
            out.append([float((F(a) + F(x) - y) / y) for a, x, y in zip(hi, lo, u)])
        return out
    st, r = child(go, 60)
    ctx.count(states=1, transitions=len(seq), sequences_solve=1, compared=4 * len(seq))
    if st != "ok":
        ctx.violation("exact:%s" % "+".join(seq), "%s: %s %s" % (seq, st, r), {"item": item})
        return
    for i, e in enumerate(r):
        if not all(abs(x) < 1e-26 for x in e):
            ctx.violation("exact:%s" % "+".join(seq), "%s: relative errors of step %d are %s" % (seq, i, e), {"item": item})
            return


def exact_seqs():
    """a transient method needs a transient_dc before it, BDF2 one step more"""
    out = []
    for n in range(1, 6 + THOROUGH):
        for t in itertools.product(("dc", "tdc", "bdf1", "tr", "bdf2"), repeat=n):
            h = 0
            for s in t:
                if s == "tdc":
                    h = 1
                elif s != "dc":
                    if h < (2 if s == "bdf2" else 1):
                        break
                    h = 2
            else:
                out.append((t, SW, None))
    return out


if __name__ == "__main__":
    import time
    T0 = time.time()

    def lap(n):
        if os.environ.get("VC_LAP"):
            sys.stderr.write("%s %.1f\n" % (n, time.time() - T0))
    ctx.run([("holder", 4 + THOROUGH, 8, i) for i in range(8)] + [("scalar", 3 + THOROUGH, 8, i) for i in range(8)], do_store, name="store", timeout=800); lap("store")
    ctx.run(list(KINDS), do_const, name="const", timeout=60, setup=vc.quiet)
    ctx.run(value_items(), do_values, name="values", timeout=600, setup=vc.quiet); lap("values")
    ctx.run([(g, k) for g in GEOS for k in DER if GEOS[g] >= DER[k][0]], do_derived, name="derived", timeout=60, setup=vc.quiet); lap("derived")
    ctx.run([(g,) + p for g in ("line2", "tri2", "tet2") for p in itertools.product((False, True), repeat=3)], do_interface, name="interface", timeout=60, setup=vc.quiet); lap("interface")
    ctx.run([(s, nl) for s in seqs() for nl in ((False, True) if len(s) < 3 else (False,))], do_seq, name="solve", timeout=600, setup=vc.quiet); lap("solve")
    ctx.run(exact_seqs(), do_exact, name="exact", timeout=200, setup=vc.quiet); lap("exact")
    s = ctx.stats
    ctx.finish(states=s.get("states", 0), transitions=s.get("transitions", 0), traces=s.get("sequences_values", 0) + s.get("sequences_solve", 0) + s.get("sequences_derived", 0),
               rule="every operation sequence up to the depth on the store, on computed data and on solutions of nodes, edges and elements; every derived model kind in every pair of precisions; "
                    "every analysis sequence up to the depth under every combination of the switches; states: sequences, transitions: operations, traces: sequences run through the interface")
