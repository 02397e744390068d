#!/usr/bin/env python3
"""P04: the Newton matrix is the exact derivative of the assembled residual.

All models are quadratic polynomials with declared derivatives, so the central difference of the
assembled residual in any unknown is exact up to rounding.  For every configuration of the
lattice and every unknown the assembled column is compared entry by entry (entries to circuit
unknowns and structural zeros included) with the difference of two assembled residuals.
"""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P04", assumptions=["models are quadratic with exactly declared derivatives; the residual itself is property P05"])
d = vc.load_devsim()
from asm import World, VARS, BULK, CPARTS
from vc import digest
H = 0.5


def work(cfg):
    cfg = dict(cfg)
    ctx.note(cfg)
    w = World(cfg)
    if cfg.get("custom"):
        pass
    base = w.assembled("csc")
    other = w.assembled("csr")
    rows = w.rows()
    n = base["n"]
    ctx.count(configurations=1, transitions=2)
    for t in ("static", "dynamic"):
        a, b = base[t][1], other[t][1]
        for k in set(a) | set(b):
            if a.get(k, 0.0) != b.get(k, 0.0):
                ctx.violation("csr:" + digest(cfg), "%s: %s entry %s is %r by columns and %r by rows" % (cfg, t, k, a.get(k), b.get(k)))
                return
    if any(not (0 <= i < n and 0 <= j < n) for t in ("static", "dynamic") for i, j in base[t][1]):
        ctx.violation("range:" + digest(cfg), "%s: entry out of range" % cfg)
        return
    inv = {v: k for k, v in rows.items()}
    if sorted(inv) != list(range(n)):
        ctx.violation("rows:" + digest(cfg), "%s: unknowns are not numbered 0..n-1" % cfg)
        return
    for x in w.unknowns():
        v = w.get(x)
        w.put(x, v + H)
        p = w.assembled()
        w.put(x, v - H)
        m = w.assembled()
        w.put(x, v)
        col = rows[x]
        ctx.count(columns=1, transitions=2, entries=2 * n)
        for t in ("static", "dynamic"):
            sc = max([abs(y) for y in p[t][0]] + [abs(y) for y in m[t][0]] + [1.0])
            J = base[t][1]
            for i in range(n):
                want = -(p[t][0][i] - m[t][0][i]) / (2 * H)
                got = J.get((i, col), 0.0)
                if not abs(got - want) <= 1e-10 * (sc + abs(want)):
                    ctx.violation("entry:%s:%s" % (cfg["kind"], digest(cfg)), "%s: %s entry of row %s in column %s is %r, the residual changes by %r" % (cfg, t, inv[i], x, got, want))
                    return
    ctx.state("matrices", repr(sorted(base["static"][1].items()) + sorted(base["dynamic"][1].items())))
    ctx.sample({"cfg": cfg, "equations": n, "entries": len(base["static"][1]) + len(base["dynamic"][1])}, 3)


def subsets(l):
    return [c for n in range(len(l) + 1) for c in itertools.combinations(l, n)]


def configs(thorough):
    out = []
    interior, term = CPARTS[:5], CPARTS[5:]
    kinds = ("line", "tri", "tet1") + (("tet",) if thorough else ())
    for kind in kinds:
        for s in subsets(BULK):
            for cp in (None, "region"):
                out.append({"kind": kind, "bulk": [s, [p for p in BULK if p not in s]], "couples": cp})
        out.append({"kind": kind, "bulk": [BULK, BULK], "samevol": True})
        out.append({"kind": kind, "bulk": [BULK, BULK], "samevol": True, "couples": "region", "dev2": True})
        for s in subsets(interior):
            for cn in (None, "cn"):
                out.append({"kind": kind, "bulk": [BULK, BULK], "contacts": {"c0": {"u": (s, cn)}}, "circuit": True})
        for s in subsets(term):
            for cn in ("cn", "ca"):
                out.append({"kind": kind, "bulk": [("node_model", "edge_model"), BULK], "contacts": {"c0": {"w": (("node_model",) + s, cn)}, "c1": {"u": (("node_model",) + s[:1], "cm")}},
                            "circuit": True, "alias": True, "couples": "global" if len(s) % 2 else None})
    for which in itertools.product((0, 1, 3), repeat=3):
        con = {"c%d" % k: {v: (CPARTS, "cn") for b, v in ((1, "u"), (2, "w")) if m & b} for k, m in enumerate(which) if m}
        out.append({"kind": "trishare", "bulk": [BULK, BULK[:3]], "contacts": con, "circuit": True})
    for kind in ("line2", "tri2") + (("tet2",) if thorough else ()):
        for ty in ("continuous", "fluxterm", "hybrid"):
            for style in ("name", "both", "cross"):
                for second in (None, "continuous", "fluxterm", "hybrid"):
                    eqs = {"u": (ty, style)}
                    if second:
                        eqs["w"] = (second, style)
                    out.append({"kind": kind, "bulk": [BULK, BULK], "interfaces": {"i0": eqs}, "contacts": {"c0": {"u": (("node_model",), None)}}, "dev2": kind == "line2",
                                "couples": None if style == "name" else "region"})
    for ty, ty1 in itertools.product(("continuous", "fluxterm", "hybrid"), repeat=2):
        for con in ("", "u", "uw"):
            out.append({"kind": "tri3", "bulk": [BULK[:5], BULK[:3]], "interfaces": {"i0": {v: (ty, "name") for v in "uw"}, "i1": {"u": (ty1, "both")}},
                        "contacts": {"c0": {v: (("node_model", "edge_model"), None) for v in con}} if con else {}})
    for ty, style in itertools.product(("continuous", "fluxterm", "hybrid"), ("name", "cross")):
        for which in ((), (0, 1), (2, 3), (0, 1, 2, 3)):
            out.append({"kind": "triwrap", "bulk": [BULK[:5], BULK[:3]], "interfaces": {"i0": {"u": (ty, style)}}, "contacts": {"c%d" % k: {"uw"[k % 2]: (("node_model", "edge_model"), None)} for k in which}})
    out.append({"kind": "tet2", "bulk": [BULK, BULK], "interfaces": {"i0": {"u": ("continuous", "name"), "w": ("hybrid", "name")}}})
    out.append({"kind": "tri2", "bulk": [BULK, BULK], "interfaces": {"i0": {"u": ("continuous", "name")}}, "contacts": {"c0": {"u": (CPARTS, "ca")}, "c1": {"w": (CPARTS, "0")}}, "circuit": True, "alias": True, "dev2": True})
    for kind in ("line", "tri", "tet1"):
        out.append({"kind": kind, "bulk": [BULK, BULK], "ext": True, "contacts": {"c0": {"u": (CPARTS, "cn")}}, "circuit": True})
    out.append({"kind": "tri2", "bulk": [BULK, BULK], "ext": True, "interfaces": {"i0": {"u": ("hybrid", "name"), "w": ("fluxterm", "name")}}})
    if thorough:
        for kind in ("line", "tri"):
            for s in subsets(BULK):
                for c in subsets(interior):
                    out.append({"kind": kind, "bulk": [s, BULK[:3]], "contacts": {"c0": {"u": (c, "cn")}}, "circuit": True})
    return out


if __name__ == "__main__":
    ctx.run(configs(ctx.thorough), work, "jacobian", setup=vc.quiet, timeout=200)
    ctx.finish(len(ctx.sets.get("matrices", ())), ctx.stats.get("transitions", 0), ctx.stats.get("configurations", 0),
               "every configuration of the stated lattice times every unknown: assembled column against the exact central difference of the assembled residual")
