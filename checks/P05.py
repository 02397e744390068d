#!/usr/bin/env python3
"""P05: the assembled residual is the documented finite volume sum.

Every configuration of equation parts (bulk, contact, interface, circuit coupled, custom) over
small 1D, 2D and 3D devices within the stated lattice is assembled by the simulator and compared
row by row with sums computed from the model values it reports.
"""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P05", assumptions=["model values and the circuit's own residual are taken as reported (properties P01, P16, P08)"])
d = vc.load_devsim()
import asm
from asm import World, VARS, BULK, CPARTS, CON, INT, REG

TOL = 1e-10


def close(a, b, scale=1.0):
    return abs(a - b) <= TOL * (1.0 + abs(a) + abs(b) + scale)


def owners(w):
    """Every assignment of contact nodes shared by contacts that carry the same equation."""
    use = {}
    for dev in w.devices:
        for c, eqs in w.cfg.get("contacts", {}).items():
            r = CON[w.kind][c]
            for v in eqs:
                for i in w.contact_nodes(dev, c):
                    use.setdefault((dev, r, v, i), []).append(c)
    shared = sorted(k for k in use if len(use[k]) > 1)
    # contacts on one node are ranked the same way for every equation
    nodes = sorted({(k[0], k[1], k[3]) for k in shared})
    names = {n: sorted({c for k in shared if (k[0], k[1], k[3]) == n for c in use[k]}) for n in nodes}
    for pick in itertools.product(*[list(itertools.permutations(names[n])) for n in nodes]):
        rank = dict(zip(nodes, pick))
        o = {}
        for k in shared:
            r = rank[(k[0], k[1], k[3])]
            o[k] = min(use[k], key=r.index)
        yield o


def compare(w, got, owner):
    F, P, cnodes = w.reference(owner)
    n = got["n"]
    crows = {}
    if w.circuit:
        for node, v in w.circuit_rhs.items():
            crows[d.get_circuit_equation_number(node=node)] = v
    for ti, t in enumerate(("static", "dynamic")):
        rhs = got[t][0]
        for row in range(n):
            want = -F[t].get(row, 0.0) + (crows[row][ti] if row in crows else 0.0)
            if not close(rhs[row], want):
                return "%s row %d" % (t, row), rhs[row], want, row
    for row in range(n):
        want = P.get(row, (row, 0))
        if (got["perm"][0][row], got["perm"][1][row]) != want:
            return "permutation row %d" % row, (got["perm"][0][row], got["perm"][1][row]), want, row
    return None


def name_row(w, row):
    for k, v in w.rows().items():
        if v == row:
            return k
    return row


def work(cfg):
    cfg = dict(cfg)
    ctx.note(cfg)
    w = World(cfg, derivs=bool(cfg.get("derivs")))
    got = w.assembled("csc")
    got2 = w.assembled("csr")
    ctx.count(configurations=1, rows=got["n"], transitions=2)
    ctx.state("residuals", repr([got[t][0] for t in ("static", "dynamic")]))
    for t in ("static", "dynamic"):
        if got[t][0] != got2[t][0]:
            ctx.violation("csr:" + digest(cfg), "%s: csc and csr residuals differ" % cfg)
            return
        if {k: v for k, v in got[t][1].items() if v} != {k: v for k, v in got2[t][1].items() if v}:
            ctx.violation("csrm:" + digest(cfg), "%s: csc and csr matrices differ" % cfg)
            return
    best = None
    for o in owners(w):
        x = compare(w, got, o)
        if x is None:
            best = None
            break
        best = best or x
    if best:
        ctx.violation("row:" + cfg["kind"] + ":" + digest(cfg), "%s: %s (%s) assembled %r, sum of the terms is %r" % (cfg, best[0], name_row(w, best[3]), best[1], best[2]))
        return
    # conservation: the fluxes through edges sum to zero over a region
    ctx.sample({"cfg": cfg, "equations": got["n"]}, 3)
    if cfg.get("solve"):
        solve_and_currents(w, cfg, o)


def solve_and_currents(w, cfg, o):
    """Contact currents and charges reported after a solve are the sums at its solution."""
    try:
        d.solve(type="dc", absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
    except d.error as e:
        if "Convergence" not in str(e):
            ctx.violation("solve:" + digest(cfg), "%s: solve fails with %s" % (cfg, str(e)[:300]))
        return
    F, P, cnodes = w.reference(o)
    for (dev, c, v), nodes in cnodes.items():
        parts, cn = cfg["contacts"][c][v]
        for what in ("current", "charge"):
            want = sum(w.contact_sum(dev, CON[w.kind][c], p, "%s%s_%s" % (c, v, p), nodes) for p in w.parts(parts) if what in p)
            got = (d.get_contact_current if what == "current" else d.get_contact_charge)(device=dev, contact=c, equation="E" + v)
            ctx.count(contact_sums=1)
            if not close(got, want, abs(want) * 10):
                ctx.violation("%s:%s:%s" % (what, w.kind, digest(cfg)), "%s: %s of contact %s equation E%s is %r, the sum is %r" % (cfg, what, c, v, got, want))
                return


def custom_work(item):
    """Custom equations: entries are added once per load, permuted when asked, rejected out of range."""
    kind, bulk, form, rr, cc = item
    cfg = {"kind": kind, "bulk": [BULK, ("node_model",)], "contacts": {"c0": {"u": (("node_model", "edge_model"), None)}}}
    if kind.endswith("2"):
        cfg["interfaces"] = {"i0": {"u": ("continuous", "name"), "w": ("hybrid", "name")}}
    w = World(cfg, derivs=True)
    base = w.assembled()
    n = base["n"]
    row = {"last": n - 1, "n": n, "first": 0, "neg": -1, "big": 10 ** 6, "huge": 2 ** 33, "perm": next((i for i in range(n) if base["perm"][0][i] != i), 0),
           "copy": next((i for i in range(n) if base["perm"][1][i]), 1)}
    r, c = row[rr], row[cc]
    calls = []
    val = 3.5
    rhs, mat = [(r, 1.25)], [(r, c, val), (0, 0, 1.0)]

    def proc(what, mode):
        calls.append((what, mode))
        k = 1.0 if mode == "DC" else 2.0
        m = [x for (a, b, v) in mat for x in (a, b, v * k)]
        v = [x for (a, v) in rhs for x in (a, v * k)]
        if form == "odd":
            v = v + [1]
        if form == "short":
            return m, v
        if form == "raise":
            raise ValueError("x")
        if form == "text":
            v = [str(x) for x in v]
        if form == "badval":
            v = [r, "abc"]
        if form == "floatrow":
            m = [float(m[0]) + 0.5] + m[1:]
        if form == "tuple":
            return (tuple(m), tuple(v), bulk)
        return m, v, bulk
    d.custom_equation(name="zz", procedure=proc)
    ok = form in ("list", "tuple", "text") and 0 <= r < n and 0 <= c < n
    try:
        got = w.assembled()
        res = True
    except d.error as e:
        res = False
    ctx.count(configurations=1, transitions=1)
    ctx.state("residuals", repr((item, res)))
    if res != ok:
        ctx.violation("custom:%s:%s:%s" % (form, rr, cc), "custom equation %s row %d column %d of %d equations: %s" % (item, r, c, n, "accepted" if res else "rejected"))
        return
    if not ok:
        d.custom_equation(name="zz", procedure=lambda what, mode: ([], [], bulk))
        again = w.assembled()
        if again["static"] != base["static"]:
            ctx.violation("custom-after", "%s: assembly after a rejected custom equation differs" % (item,))
        return
    for k, t in ((1.0, "static"), (2.0, "dynamic")):
        want = list(base[t][0])
        J = dict(base[t][1])
        for (a, v) in rhs:
            for tgt in targets(base["perm"], a, bulk):
                want[tgt] -= v * k
        for (a, b, v) in mat:
            for tgt in targets(base["perm"], a, bulk):
                J[(tgt, b)] = J.get((tgt, b), 0.0) + v * k
        if any(not close(x, y) for x, y in zip(got[t][0], want)):
            ctx.violation("custom:rhs:%s" % bulk, "custom equation %s: %s rhs %s expected %s" % (item, t, got[t][0], want))
            return
        for key in set(J) | set(got[t][1]):
            if not close(got[t][1].get(key, 0.0), J.get(key, 0.0)):
                ctx.violation("custom:mat:%s" % bulk, "custom equation %s: %s matrix entry %s is %r expected %r" % (item, t, key, got[t][1].get(key, 0.0), J.get(key, 0.0)))
                return
    # replaced, it is called instead of the old one
    d.custom_equation(name="zz", procedure=lambda what, mode: ([], [], bulk))
    again = w.assembled()
    if again["static"][0] != base["static"][0]:
        ctx.violation("custom-replace", "%s: a replaced custom equation is still assembled" % (item,))


def targets(perm, row, bulk):
    if not bulk:
        return [row]
    to, keep = perm[0][row], perm[1][row]
    return ([to] if to >= 0 else []) + ([row] if keep and to >= 0 else [])


from vc import digest


def subsets(l, k=None):
    return [c for n in range(len(l) + 1) for c in itertools.combinations(l, n) if k is None or n <= k]


def configs(thorough):
    out = []
    two = ("line", "tri", "tet1") if not thorough else ("line", "tri", "tet1", "tet")
    # every subset of bulk parts; the second equation has the complement
    for kind in two:
        for s in subsets(BULK):
            for cp in (None, "global"):
                out.append({"kind": kind, "bulk": [s, [p for p in BULK if p not in s]], "couples": cp})
    for kind in two:
        out.append({"kind": kind, "bulk": [BULK, BULK], "samevol": True})
        for cp in ("region", "device", "global"):
            out.append({"kind": kind, "bulk": [BULK, BULK], "couples": cp, "dev2": True})
            out.append({"kind": kind, "bulk": [BULK, BULK], "couples": cp, "samevol": True})
    # every subset of contact parts (interior parts with and without a circuit node; currents and charges)
    interior, term = CPARTS[:5], CPARTS[5:]
    for kind in two:
        for s in subsets(interior):
            for cn in (None, "cn"):
                out.append({"kind": kind, "bulk": [BULK, BULK], "contacts": {"c0": {"u": (s, cn)}}, "circuit": True})
        for s in subsets(term):
            for cn in (None, "cn"):
                out.append({"kind": kind, "bulk": [("node_model", "edge_model"), BULK], "contacts": {"c0": {"w": (("node_model",) + s, cn)}, "c1": {"u": (("node_model",) + s[:1], "cm" if cn else None)}},
                            "circuit": True, "solve": True, "derivs": True, "couples": "global" if len(s) % 2 else None})
    # contacts sharing nodes: which contacts carry which equation
    for which in itertools.product((0, 1, 2, 3), repeat=3):
        con = {"c%d" % k: {v: (("node_model", "edge_model", "edge_current_model", "node_charge_model"), None) for b, v in ((1, "u"), (2, "w")) if m & b} for k, m in enumerate(which) if m}
        out.append({"kind": "trishare", "bulk": [BULK, BULK[:3]], "contacts": con, "solve": True, "derivs": True})
    # interfaces: type by naming style, one or two equations, with contacts touching them
    for kind in ("line2", "tri2", "tet2"):
        for ty in ("continuous", "fluxterm", "hybrid"):
            for style in ("name", "both", "cross"):
                for second in (None, "continuous", "fluxterm", "hybrid"):
                    eqs = {"u": (ty, style)}
                    if second:
                        eqs["w"] = (second, style)
                    out.append({"kind": kind, "bulk": [BULK, BULK[:2] if kind == "tet2" else BULK], "interfaces": {"i0": eqs}, "contacts": {"c0": {"u": (("node_model",), None)}}, "dev2": kind == "line2",
                                "couples": None if style == "name" else "region"})
    for ty in ("continuous", "fluxterm", "hybrid"):
        for ty1 in ("continuous", "fluxterm", "hybrid"):
            for ea, eb in itertools.product(("u", "w", "uw"), repeat=2):
                for con in ("", "u", "w", "uw"):
                    out.append({"kind": "tri3", "bulk": [BULK[:5], BULK[:3]], "interfaces": {"i0": {v: (ty, "name") for v in ea}, "i1": {v: (ty1, "both") for v in eb}},
                                "contacts": {"c0": {v: (("node_model", "edge_model"), None) for v in con}} if con else {}})
    # interfaces that meet and couple different equations on their sides
    for ty, ty1 in itertools.product(("continuous", "fluxterm", "hybrid"), repeat=2):
        for sa, sb in (("cross", "cross"), ("cross", "both"), ("name", "cross")):
            for ea, eb in itertools.product(("u", "w"), repeat=2):
                out.append({"kind": "tri3", "bulk": [BULK[:5], BULK[:3]], "interfaces": {"i0": {ea: (ty, sa)}, "i1": {eb: (ty1, sb)}}})
    # contacts of both regions at the ends of an interface
    for ty in ("continuous", "fluxterm", "hybrid"):
        for style in ("name", "cross"):
            for which in itertools.product(("", "u", "uw"), repeat=4):
                con = {"c%d" % k: {v: (("node_model", "edge_model"), None) for v in w} for k, w in enumerate(which) if w}
                out.append({"kind": "triwrap", "bulk": [BULK[:5], BULK[:3]], "interfaces": {"i0": {v: (ty, style) for v in ("u", "uw")[len(con) % 2 if style == "name" else 0]}}, "contacts": con})
    out.append({"kind": "tri2", "bulk": [BULK, BULK], "interfaces": {"i0": {"u": ("continuous", "name")}}, "contacts": {"c0": {"u": (CPARTS, "ca")}}, "circuit": True, "alias": True, "dev2": True})
    out.append({"kind": "tri2", "bulk": [BULK, BULK], "contacts": {"c0": {"u": (CPARTS, "0")}}, "circuit": True})
    if thorough:
        for kind in ("line", "tri", "tet1"):
            for s in subsets(BULK):
                for c in subsets(interior):
                    for cn in (None, "cn"):
                        for cp in (None, "device"):
                            out.append({"kind": kind, "bulk": [s, BULK], "contacts": {"c0": {"u": (c, cn)}}, "circuit": True, "couples": cp, "dev2": len(s) == 2})
    # extended precision assembly
    for kind in ("line", "tri", "tet1"):
        out.append({"kind": kind, "bulk": [BULK, BULK], "ext": True, "contacts": {"c0": {"u": (CPARTS, "cn")}}, "circuit": True})
    out.append({"kind": "tri2", "bulk": [BULK, BULK], "ext": True, "interfaces": {"i0": {"u": ("hybrid", "name"), "w": ("fluxterm", "name")}}})
    return out


if __name__ == "__main__":
    cfgs = configs(ctx.thorough)
    ctx.run(cfgs, work, "assembly", setup=vc.quiet, timeout=120)
    items = [[k, b, f, r, c] for k in ("line", "tri2") for b in (True, False) for f in ("list", "tuple", "text") for r in ("last", "first", "n", "neg", "big", "huge", "perm", "copy") for c in ("last", "first", "n", "neg", "big", "huge")]
    items += [["line", b, f, "first", "first"] for b in (True, False) for f in ("odd", "short", "raise", "badval", "floatrow")]
    ctx.run(items, custom_work, "custom", setup=vc.quiet, timeout=120)
    ctx.finish(len(ctx.sets.get("residuals", ())), ctx.stats.get("transitions", 0), ctx.stats.get("configurations", 0),
               "every configuration of the stated lattice of equation parts, contacts, interfaces and couple models; every row of the assembled residual compared with the sum of its terms")
