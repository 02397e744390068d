#!/usr/bin/env python3
"""P08: circuit solutions satisfy the network equations for every topology.

Every circuit of up to 3 (thorough: 4) elements of the five kinds over the ground and two nodes, every
orientation and self-loops included, in two creation orders and naming schemes, plus a family of fixed
larger networks in every creation order.  Oracle: modified nodal analysis in exact rational arithmetic
(operating point) and dense complex elimination (small signal, noise transfer).  Circuits coupled to
devices: the AC and noise solutions against the assembled static and dynamic matrices.
"""
import os, sys, itertools, math
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P08", assumptions=["element values are fixed per position; topologies whose network matrix is singular are not solved (the outcome is only recorded)"])
d = vc.load_devsim()

KINDS = "RCLVI"
NODES = (0, 1, 2)
CHOICES = [(k, a, b) for k in KINDS for a in NODES for b in NODES]
VAL = [Fr(2), Fr(1, 2), Fr(4), Fr(3, 4), Fr(5), Fr(3, 2), Fr(7)]
FREQ = (0.0, 0.125, 1.0)
NAMES = ({0: "0", 1: "n1", 2: "n2"}, {0: "GND", 1: "z", 2: "R1.x"}, {0: "0", 1: "b", 2: "a"})


def gauss(A, b, exact):
    """solves A x = b by rows; None if singular"""
    n = len(A)
    A = [list(r) + [y] for r, y in zip(A, b)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if A[p][c] == 0 or (not exact and abs(A[p][c]) < 1e-9):
            return None
        A[c], A[p] = A[p], A[c]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c] / A[c][c]
                for k in range(c, n + 1):
                    A[r][k] -= f * A[c][k]
    return [A[i][n] / A[i][i] for i in range(n)]


def mna(els):
    """els: (name, kind, n1, n2, value, ac). Returns unknown names, G, C, dc source, ac source"""
    nodes = sorted({n for e in els for n in e[2:4]} - {"0", "GND"})
    unk = list(nodes) + [e[0] + ".I" for e in els if e[1] in "VL"]
    ix = {n: i for i, n in enumerate(unk)}
    N = len(unk)
    G = [[Fr(0)] * N for _ in unk]
    C = [[Fr(0)] * N for _ in unk]
    s, ac = [Fr(0)] * N, [Fr(0)] * N

    def add(M, r, c, v):
        if r in ix and c in ix:
            M[ix[r]][ix[c]] += v
    for name, k, a, b, v, acv in els:
        if k in "RC":
            M, y = (G, 1 / v) if k == "R" else (C, v)
            add(M, a, a, y); add(M, b, b, y); add(M, a, b, -y); add(M, b, a, -y)
        elif k == "I":
            # flows from a through the source to b:  J(a) = ... I leaves at n1 and enters at n2
            if a in ix: s[ix[a]] += v
            if b in ix: s[ix[b]] -= v
        else:
            i = name + ".I"
            add(G, a, i, Fr(1)); add(G, b, i, Fr(-1))
            if k == "V":
                add(G, i, a, Fr(1)); add(G, i, b, Fr(-1))
                s[ix[i]] += v
                ac[ix[i]] += acv
            else:
                add(G, i, a, Fr(-1)); add(G, i, b, Fr(1))
                add(C, i, i, v)
    return unk, G, C, s, ac


def build(els, alias):
    for name, k, a, b, v, acv in els:
        kw = {"acreal": float(acv)} if k == "V" else {}
        d.circuit_element(name=name, n1=a, n2=b, value=float(v), **kw)


def sol(names, key):
    return [d.get_circuit_node_value(node=n, solution=key) for n in names]


def close(a, b, sc):
    return abs(a - b) <= 1e-8 * (sc + 1.0)


def dcsolve():
    d.solve(type="dc", absolute_error=1e-9, relative_error=1e-9, maximum_iterations=12)


def same(alias, keys):
    return all(d.get_circuit_node_value(node=q, solution=k) == d.get_circuit_node_value(node=n, solution=k) for q, n in (alias or {}).items() for k in keys) and \
        all(d.get_circuit_equation_number(node=q) == d.get_circuit_equation_number(node=n) for q, n in (alias or {}).items())


def one(els, item, deep, alias=None):
    unk, G, C, s, ac = mna(els)

    def bad(k, what):
        ctx.violation("%s:%s" % (k, vc.digest(els)), "%s: %s" % ([(e[0], e[2], e[3], float(e[4])) for e in els], what), {"item": item})
        return False
    x = gauss(G, s, True)
    if x is not None:
        try:
            dcsolve()
        except d.error as e:
            return bad("dcfail", "operating point not found: %s" % str(e)[:100])
        got = sol(unk, "dcop")
        sc = max(abs(v) for v in x) if x else 0
        ctx.count(transitions=1, dc=1)
        for n, g, w in zip(unk, got, x):
            if not close(g, float(w), float(sc)):
                return bad("dc", "operating point of %s is %r, network equations give %r" % (n, g, float(w)))
        if not same(alias, ("dcop",)):
            return bad("alias", "an alias and its node differ")
    else:
        ctx.count(singular_dc=1)
    if not deep:
        return True
    for f in FREQ:
        w = 2 * math.pi * f
        J = [[complex(float(a), w * float(b)) for a, b in zip(p, q)] for p, q in zip(G, C)]
        y = gauss(J, [complex(float(v)) for v in ac], False)
        if y is None:
            ctx.count(singular_ac=1)
            continue
        if any(ac):
            try:
                d.solve(type="ac", frequency=f)
            except d.error as e:
                return bad("acfail", "small signal at %r not found: %s" % (f, str(e)[:100]))
            re, im = sol(unk, "ssac_real"), sol(unk, "ssac_imag")
            ctx.count(transitions=1, ac=1)
            sc = max(abs(v) for v in y)
            if not same(alias, ("ssac_real", "ssac_imag")):
                return bad("alias", "an alias and its node differ after a small signal analysis")
            for n, a, b, v in zip(unk, re, im, y):
                if not close(complex(a, b), v, sc):
                    return bad("ac", "small signal of %s at frequency %r is %r, network equations give %r" % (n, f, complex(a, b), v))
        JT = [list(c) for c in zip(*J)]
        for k, out in enumerate(unk):
            z = gauss(JT, [1.0 if i == k else 0.0 for i in range(len(unk))], False)
            if z is None:
                continue
            outs = [out] + [q for q, n in sorted((alias or {}).items()) if n == out]
            for o in outs:
                try:
                    d.solve(type="noise", frequency=f, output_node=o)
                except d.error as e:
                    return bad("noisefail", "noise at %r, output %s not found: %s" % (f, o, str(e)[:100]))
                re, im = sol(unk, "noise_%s_real" % o), sol(unk, "noise_%s_imag" % o)
                ctx.count(transitions=1, noise=1)
                sc = max(abs(v) for v in z)
                for n, a, b, v in zip(unk, re, im, z):
                    if not close(complex(a, b), v, sc):
                        return bad("noise", "noise transfer from %s to %s at %r is %r, network equations give %r" % (n, o, f, complex(a, b), v))
    if x is not None:
        got2 = sol(unk, "dcop")
        if got2 != got:
            return bad("dcchanged", "the operating point changed during the small-signal solves")
    return True


def topo(item):
    kinds, scheme, order = item
    ctx.note(item)
    nm = NAMES[scheme]
    els = []
    for i, (k, a, b) in enumerate(kinds):
        # element names are created so that their alphabetical order differs from the creation order in scheme 1
        name = "%s%d" % (k if scheme != 1 else k.lower(), i + 1 if scheme != 1 else 9 - i)
        els.append((name, k, nm[a], nm[b], VAL[i], Fr(1, i + 1) if k == "V" else None))
    els = [els[i] for i in order]
    d.reset_devsim()
    build(els, None)
    alias = None
    if scheme == 2:
        # names on both sides of those of the nodes, so that no two are interchangeable
        alias = {q: n for q, n in (("q", "b"), ("B0", "a"), ("zz", "a")) if any(n in e[2:4] for e in els)}
        for q, n in alias.items():
            d.circuit_node_alias(node=n, alias=q)
    ctx.count(circuits=1)
    ctx.state("topologies", repr(sorted(kinds)))
    if not one(els, item, True, alias):
        return
    # alter every element in turn, keeping the earlier alterations
    for i, e in enumerate(els):
        v = e[4] * 3 if e[1] != "V" else e[4] - 1
        d.circuit_alter(name=e[0], value=float(v))
        acv = e[5]
        if e[1] == "V":
            acv = Fr(2, 3)
            d.circuit_alter(name=e[0], param="acreal", value=float(acv))
        els[i] = e[:4] + (v, acv)
        if not one(els, item, i == len(els) - 1 and scheme == 0, alias):
            return


LADDER = [("V", 1, 0), ("R", 1, 2), ("C", 2, 0), ("L", 2, 3), ("R", 3, 0), ("I", 0, 3), ("C", 3, 1)]


def ladder(item):
    """a larger network in every creation order of its elements, through aliases of its nodes"""
    order, use_alias = item
    ctx.note(item)
    d.reset_devsim()
    nm = {0: "0", 1: "in", 2: "m", 3: "out"}
    els = []
    for i in order:
        k, a, b = LADDER[i]
        els.append(("%s%d" % (k, i), k, nm[a], nm[b], VAL[i], Fr(1) if k == "V" else None))
    made = set()
    for n, (name, k, a, b, v, acv) in enumerate(els):
        aa, bb = a, b
        if use_alias:
            for s in (a, b):
                if s in made and s != "0" and "al_" + s not in made:
                    d.circuit_node_alias(node=s, alias="al_" + s)
                    made.add("al_" + s)
            aa = "al_" + a if "al_" + a in made else a
            bb = "al_" + b if "al_" + b in made else b
        d.circuit_element(name=name, n1=aa, n2=bb, value=float(v), **({"acreal": float(acv)} if k == "V" else {}))
        made |= {a, b}
    ctx.count(circuits=1)
    alias = {q: q[3:] for q in made if q[:3] == "al_"}
    one(els, item, True, alias)


def coupled(item):
    """a circuit connected to a device: AC and noise against the assembled matrices"""
    from asm import World, VARS, region_nodes
    cfg = dict(item)
    ctx.note(cfg)
    w = World(cfg)
    d.circuit_alter(name="V1", param="acreal", value=0.75)
    m = w.assembled()
    n = m["n"]
    rows = w.rows()
    perm = m["perm"][0]
    ctx.count(coupled=1)
    for f in (0.125, 1.0):
        om = 2 * math.pi * f
        J = [[0j] * n for _ in range(n)]
        for (i, j), v in m["static"][1].items():
            J[i][j] += float(v)
        for (i, j), v in m["dynamic"][1].items():
            J[i][j] += 1j * om * float(v)
        b = [0j] * n
        b[rows[("circuit", "V1.I")]] = 0.75
        y = gauss(J, b, False)
        if y is None:
            ctx.count(singular_ac=1)
            return
        d.solve(type="ac", frequency=f)
        sc = max(abs(v) for v in y)
        for k, r in rows.items():
            if k[0] == "circuit":
                g = complex(d.get_circuit_node_value(node=k[1], solution="ssac_real"), d.get_circuit_node_value(node=k[1], solution="ssac_imag"))
            else:
                g = complex(list(d.get_node_model_values(device=k[0], region=k[1], name=k[2] + "_Real"))[k[3]],
                            list(d.get_node_model_values(device=k[0], region=k[1], name=k[2] + "_Imag"))[k[3]])
            ctx.count(transitions=1)
            if not close(g, y[r], sc):
                ctx.violation("coupled-ac:" + vc.digest(cfg), "%s: small signal of %s at %r is %r, the assembled system gives %r" % (cfg, k, f, g, y[r]))
                return
        for out in ("cn", "x"):
            z = gauss([list(c) for c in zip(*J)], [1.0 if i == rows[("circuit", out)] else 0.0 for i in range(n)], False)
            d.solve(type="noise", frequency=f, output_node=out)
            sc = max(abs(v) for v in z)
            for k, r in rows.items():
                if k[0] == "circuit":
                    g = complex(d.get_circuit_node_value(node=k[1], solution="noise_%s_real" % out), d.get_circuit_node_value(node=k[1], solution="noise_%s_imag" % out))
                    want = z[r]
                else:
                    # noise enters through the bulk equation of the node: at a contact or a continuous interface it acts on another row
                    g = complex(list(d.get_node_model_values(device=k[0], region=k[1], name=NOISE(out, k[2])[0]))[k[3]],
                                list(d.get_node_model_values(device=k[0], region=k[1], name=NOISE(out, k[2])[1]))[k[3]])
                    want = z[perm[r]] if perm[r] >= 0 else 0.0
                ctx.count(transitions=1)
                if not close(g, want, sc):
                    ctx.violation("coupled-noise:" + vc.digest(cfg), "%s: noise transfer from %s to %s is %r, the assembled system gives %r" % (cfg, k, out, g, want))
                    return


def NOISE(out, v):
    # names as the simulator creates them
    return "%s_E%s_real" % (out, v), "%s_E%s_imag" % (out, v)


def topologies(n):
    return itertools.combinations_with_replacement(CHOICES, n)


if __name__ == "__main__":
    items = []
    for n in (1, 2):
        for seq in itertools.product(CHOICES, repeat=n):
            items += [(seq, s, tuple(range(n))) for s in (0, 1, 2)]
    for seq in topologies(3):
        loops = sum(1 for e in seq if e[1] == e[2])
        if loops > 1 and not ctx.thorough:
            continue
        items.append((seq, 0, (0, 1, 2)))
        if ctx.thorough or loops == 0:
            items.append((seq, 1, (2, 0, 1)))
        if ctx.thorough:
            items.append((seq, 2, (1, 2, 0)))
    if ctx.thorough:
        noloop = [c for c in CHOICES if c[1] != c[2]]
        for seq in itertools.combinations_with_replacement(noloop, 4):
            items.append((seq, 0, (0, 1, 2, 3)))
    ctx.run(items, topo, "topology", setup=vc.quiet, timeout=120)
    orders = list(itertools.permutations(range(len(LADDER))))
    if not ctx.thorough:
        orders = orders[::5]
    ctx.run([(o, a) for o in orders for a in (0, 1)], ladder, "ladder", setup=vc.quiet, timeout=120)
    from asm import BULK, CPARTS
    cfgs = []
    for kind in ("line", "tri", "tet1"):
        for parts in (("node_model",), ("node_model", "edge_current_model"), CPARTS):
            for cn in ("cn", "cm", "ca"):
                for bulk in (BULK, ("node_model", "edge_model", "time_node_model")):
                    cfgs.append({"kind": kind, "bulk": [bulk, BULK], "contacts": {"c0": {"u": (parts, cn)}}, "circuit": True, "alias": True})
    for kind in ("line2", "tri2"):
        for ty in ("continuous", "fluxterm"):
            cfgs.append({"kind": kind, "bulk": [BULK, BULK], "interfaces": {"i0": {"u": (ty, "name"), "w": (ty, "name")}}, "contacts": {"c0": {"u": (CPARTS, "cn")}, "c1": {"w": (CPARTS[:6], "cm")}}, "circuit": True, "dev2": kind == "line2"})
    cfgs += [dict(c, ext=True) for c in cfgs[::9]]
    ctx.run(cfgs, coupled, "coupled", setup=vc.quiet, timeout=120)
    s = ctx.stats
    ctx.finish(len(ctx.sets.get("topologies", ())), s.get("transitions", 0), s.get("circuits", 0) + s.get("coupled", 0),
               "every element sequence over 45 choices for 1-2 elements, every multiset for 3 (quick: at most one self-loop; thorough: 4 without loops), three naming and creation schemes, alteration of every element; a 7-element network in (thorough: all 5040) creation orders with and without aliases")
