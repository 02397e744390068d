#!/usr/bin/env python3
"""P16: derived edge and element models have the documented values and derivatives.

Every mesh of the stated family (all node numberings of the small ones) x every node-value assignment
of the stated lattice (a basis and two generic vectors on the larger ones) x double and extended
precision: every derived model is read from the implementation and compared with its defining formula,
evaluated here from node coordinates and node values only."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P16", assumptions=["element weights are the implementation's ElementEdgeCouple, which is decided by P11",
                                 "surface normals are the implementation's NSurfaceNormal"])
d = vc.load_devsim()
import dev as devs

R = "R"


# ---- meshes: name -> (dim, coordinates, regions, contacts, interfaces) ------------------------------
def mesh(dim, co, regions, contacts, interfaces=None):
    return (dim, [tuple(c) + (0.0,) * (3 - len(c)) for c in co], regions, contacts, interfaces or {})


MESHES = {}
SMALL = []
for p in itertools.permutations(range(3)):
    xs = (0.0, 1.0, 3.0)
    n = "line" + "".join(map(str, p))
    MESHES[n] = mesh(1, [(xs[p.index(i)],) for i in range(3)], {R: [(p[0], p[1]), (p[1], p[2])]}, {"c0": (R, [(p[0],)]), "c1": (R, [(p[2],)])})
    SMALL.append(n)
# a branched line in space: three edges meet in one node
MESHES["star"] = mesh(1, [(0.,), (1.,), (-2.,), (3.,), (5.,)], {R: [(0, 1), (2, 0), (0, 3), (3, 4)]}, {"c0": (R, [(1,)]), "c1": (R, [(4,)])})
TRI = {"acute": [(0., 0.), (4., 0.), (0.5, 3.), (4.5, 3.5)], "right": [(0., 0.), (2., 0.), (0., 1.), (2., 1.)],
       "obtuse": [(0., 0.), (5., 0.), (1., 1.), (6., 1.25)]}
for g in TRI:
    for p in itertools.permutations(range(4)):
        n = "tri_%s%s" % (g, "".join(map(str, p)))
        co = [None] * 4
        for i in range(4):
            co[p[i]] = TRI[g][i]
        MESHES[n] = mesh(2, co, {R: [(p[0], p[1], p[2]), (p[1], p[3], p[2])]}, {"c0": (R, [(p[0], p[1])]), "c1": (R, [(p[1], p[3])])})
        SMALL.append(n)
T1 = [(0., 0., 0.), (1., 0., 0.), (0.1, 1.2, 0.), (0.2, 0.3, 1.1)]
T1R = [(0., 0., 0.), (1., 0., 0.), (0., 2., 0.), (0., 0., 1.5)]
for g, c in (("tet", T1), ("tetr", T1R)):
    for p in itertools.permutations(range(4)):
        n = "%s_%s" % (g, "".join(map(str, p)))
        MESHES[n] = mesh(3, [c[p.index(i)] for i in range(4)], {R: [tuple(p)]}, {"c0": (R, [(p[0], p[1], p[2])]), "c1": (R, [(p[3],)])})
        SMALL.append(n)
MESHES["line2"] = mesh(1, [(x,) for x in (0., 1., 3., 4., 6.)], {"R0": [(0, 1), (1, 2)], "R1": [(2, 3), (3, 4)]},
                       {"c0": ("R0", [(0,)]), "c1": ("R1", [(4,)])}, {"i0": ("R0", "R1", [(2,)])})
MESHES["tri2"] = mesh(2, devs.C2, {"R0": devs.T2A, "R1": devs.T2B}, {"c0": ("R0", [(0, 1)]), "c1": ("R1", [(4, 5), (5, 6)])}, {"i0": ("R0", "R1", [(2, 3)])})
MESHES["tri2r"] = mesh(2, devs.C2[::-1], {"R0": [tuple(6 - i for i in t) for t in devs.T2A], "R1": [tuple(6 - i for i in t[::-1]) for t in devs.T2B]},
                       {"c0": ("R0", [(6, 5)]), "c1": ("R1", [(2, 1), (1, 0)])}, {"i0": ("R1", "R0", [(3, 4)])})
MESHES["box"] = mesh(3, devs.C3[:8], {R: devs.T3A}, {"c0": (R, devs._faces(devs.T3A, (0, 1, 2, 3))), "c1": (R, devs._faces(devs.T3A, (1, 3, 5, 7)))})
MESHES["boxr"] = mesh(3, devs.C3[:8][::-1], {R: [tuple(7 - i for i in t) for t in devs.T3A]},
                      {"c0": (R, [tuple(7 - i for i in t) for t in devs._faces(devs.T3A, (0, 1, 2, 3))]), "c1": (R, [tuple(7 - i for i in t) for t in devs._faces(devs.T3A, (1, 3, 5, 7))])})
MESHES["box2"] = mesh(3, devs.C3, {"R0": devs.T3A, "R1": devs.T3B}, {"c0": ("R0", devs._faces(devs.T3A, (0, 1, 2, 3))), "c1": ("R1", devs._faces(devs.T3B, (8, 9, 10, 11)))},
                      {"i0": ("R0", "R1", devs._faces(devs.T3A, (4, 5, 6, 7)))})
LATTICE = (-2.0, 0.0, 3.0) if not ctx.thorough else (-2.0, 0.0, 3.0, 1.5, -7.0)


def patterns(n, small, thorough):
    if small:
        return list(itertools.product(LATTICE, repeat=n))
    out = [tuple(1.0 if i == j else 0.0 for i in range(n)) for j in range(n)]
    out += [tuple(-2.0 if (i + j) % 3 == 0 else 0.0 if (i + j) % 3 == 1 else 3.0 for i in range(n)) for j in range(3)]
    out += [tuple(1.0 + 0.37 * i * i for i in range(n)), tuple(-0.5 - 1.25 * ((i * 7) % n) for i in range(n)), (2.0,) * n, (0.0,) * n]
    return out


# ---- small vector algebra --------------------------------------------------------------------------
def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def norm(a): return math.sqrt(dot(a, a))


def solve(m, b):
    n = len(b)
    a = [list(r) + [x] for r, x in zip(m, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(a[k][i]))
        a[i], a[p] = a[p], a[i]
        for k in range(n):
            if k != i:
                f = a[k][i] / a[i][i]
                a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return [a[i][n] / a[i][i] for i in range(n)]


class Item:
    """One device with everything created once; values are changed between comparisons."""

    def __init__(self, name, ext, order):
        self.name, self.ext = name, ext
        self.dim, co, regions, contacts, interfaces = MESHES[name]
        d.set_parameter(name="extended_model", value=bool(ext))
        devs.gmsh("D", co, regions, contacts, interfaces)
        self.regions, self.interfaces, self.contacts = regions, interfaces, contacts
        self.co = co
        self.r = {}
        for r in regions:
            self.r[r] = self.topology(r)
            if self.r[r] is None:
                return
            self.create(r, order)
        for i in interfaces:
            for k in ("x", "y", "z", "node_index"):
                for s in ("r0", "r1"):
                    d.interface_model(device="D", interface=i, name="im_%s_%s" % (k, s), equation="%s@%s" % (k, s))
            d.interface_model(device="D", interface=i, name="im", equation="V@r0 * x@r0 - 3 * W@r1 + V@r1^2")
            d.interface_model(device="D", interface=i, name="im0", equation="V@r0 - V@r1")

    def bad(self, key, what):
        ctx.violation("%s:%d" % (key, self.dim), "mesh %s ext=%d: %s" % (self.name, self.ext, what))

    def nv(self, r, n): return list(d.get_node_model_values(device="D", region=r, name=n))
    def ev(self, r, n): return list(d.get_edge_model_values(device="D", region=r, name=n))
    def lv(self, r, n): return list(d.get_element_model_values(device="D", region=r, name=n))

    def topology(self, r):
        """nodes, edges and element edges; reported through models and compared with the mesh description"""
        t = {}
        pos = list(zip(self.nv(r, "x"), self.nv(r, "y"), self.nv(r, "z")))
        want = {self.co[i] for e in self.regions[r] for i in e}
        if len(pos) != len(want) or set(pos) != want:
            self.bad("nodes", "node positions %s expected %s" % (pos, sorted(want)))
            return None
        n = len(pos)
        idx = {p: i for i, p in enumerate(pos)}
        t["pos"], t["n"] = pos, n
        if self.nv(r, "node_index") != [float(i) for i in range(n)]:
            self.bad("nodes", "node_index %s" % self.nv(r, "node_index"))
        d.edge_from_node_model(device="D", region=r, node_model="node_index")
        edges = [(int(a), int(b)) for a, b in zip(self.ev(r, "node_index@n0"), self.ev(r, "node_index@n1"))]
        elems = [tuple(sorted(idx[self.co[i]] for i in e)) for e in self.regions[r]]
        wedges = {p for e in elems for p in itertools.combinations(e, 2)}
        if len(edges) != len(wedges) or {tuple(sorted(e)) for e in edges} != wedges:
            self.bad("edges", "edges %s expected %s" % (edges, sorted(wedges)))
            return None
        t["edges"] = edges
        t["eidx"] = {tuple(sorted(e)): i for i, e in enumerate(edges)}
        t["u"] = []
        for a, b in edges:
            v = sub(pos[b], pos[a])
            t["u"].append(tuple(x / norm(v) for x in v))
        t["len"] = [norm(sub(pos[b], pos[a])) for a, b in edges]
        for k, c in enumerate("xyz"[:self.dim]):
            self.cmp("unit" + c, self.ev(r, "unit" + c), [u[k] for u in t["u"]])
        self.cmp("EdgeInverseLength", self.ev(r, "EdgeInverseLength"), [1 / x for x in t["len"]])
        t["elems"] = []
        if self.dim > 1:
            ne = 3 if self.dim == 2 else 6
            d.element_from_node_model(device="D", region=r, node_model="node_index")
            en = [[int(x) for x in self.lv(r, "node_index@en%d" % k)] for k in range(self.dim + 1)]
            got = [tuple(sorted(e)) for e in d.get_element_node_list(device="D", region=r)]
            if sorted(got) != sorted(elems) or len(en[0]) != ne * len(elems):
                self.bad("elements", "elements %s expected %s" % (got, elems))
                return None
            for i, e in enumerate(got):
                el = []
                for j in range(ne):
                    q = [en[k][ne * i + j] for k in range(self.dim + 1)]
                    if tuple(sorted(q)) != e or (q[0], q[1]) not in edges:
                        self.bad("elements", "element %s edge %d: corners %s, edges %s" % (e, j, q, edges))
                        return None
                    el.append(tuple(q))
                if len({q[:2] for q in el}) != ne:
                    self.bad("elements", "element %s repeats an edge %s" % (e, el))
                    return None
                t["elems"].append(el)
            t["couple"] = self.lv(r, "ElementEdgeCouple")
        return t

    def create(self, r, order):
        D = dict(device="D", region=r)
        for v in ("V", "W", "Wd"):
            d.node_solution(name=v, **D)
        d.edge_solution(name="E", **D)
        d.edge_solution(name="E0", **D)
        d.edge_solution(name="E1", **D)
        d.edge_model(name="E:V@n0", equation="E0", **D)
        d.edge_model(name="E:V@n1", equation="E1", **D)
        # W as a function of V with derivative Wd, known as W:V
        d.node_model(name="W:V", equation="Wd", **D)
        def a():
            for v in ("V", "W"):
                d.edge_from_node_model(node_model=v, **D)
            for av in ("arithmetic", "geometric", "gradient", "negative_gradient"):
                s = {"arithmetic": "a", "geometric": "g", "gradient": "d", "negative_gradient": "m"}[av]
                for v in ("V", "W"):
                    if order:
                        d.edge_average_model(node_model=v, edge_model=s + v, average_type=av, derivative="V", **D)
                        d.edge_average_model(node_model=v, edge_model=s + v, average_type=av, **D)
                    else:
                        d.edge_average_model(node_model=v, edge_model=s + v, average_type=av, **D)
                        d.edge_average_model(node_model=v, edge_model=s + v, average_type=av, derivative="V", **D)
        def b():
            if self.dim == 1:
                return
            d.element_from_node_model(node_model="V", **D)
            o = [lambda: d.element_from_edge_model(edge_model="E", **D), lambda: d.element_pair_from_edge_model(edge_model="E", **D)]
            o += [lambda: d.element_from_edge_model(edge_model="E", derivative="V", **D), lambda: d.element_pair_from_edge_model(edge_model="E", derivative="V", **D)]
            for f in (o[::-1] if order else o):
                f()
            d.element_model(name="M", equation="V@en0 * V@en1 + 2 * V@en2 - E", **D)
            d.vector_element_model(element_model="M", **D)
        def c():
            d.vector_gradient(node_model="V", calc_type="default", **D)
            d.vector_gradient(node_model="W", calc_type="avoidzero", **D)
        for f in ((c, b, a) if order else (a, b, c)):
            f()
        for cn, (cr, _) in self.contacts.items():
            if cr == r:
                d.contact_node_model(device="D", contact=cn, name="cn_" + cn, equation="V*2+W+1")
                d.contact_edge_model(device="D", contact=cn, name="ce_" + cn, equation="V@n0-2*V@n1+5")
        for i, (r0, r1, _) in self.interfaces.items():
            if self.dim > 1 and r in (r0, r1):
                d.interface_normal_model(interface=i, **D)

    def cmp(self, key, got, want, scale=None):
        tol = 1e-11 * max([abs(x) for x in want] + [scale or 0.0, 1e-3])
        ctx.count(comparisons=len(want))
        ok = len(got) == len(want) and all(abs(g - w) <= tol for g, w in zip(got, want) if w is not None)
        if not ok:
            self.bad(key, "%s is %s expected %s%s" % (key, got, want, getattr(self, "where", "")))
        return ok

    # ---- the formulas ----------------------------------------------------------------------------
    def check(self, V, W, Wd, E, E0, E1):
        if None in self.r.values():
            return
        off = 0
        allv = {}
        for r in self.regions:
            t = self.r[r]
            n = t["n"]
            f = lambda x: [x[(i + off) % len(x)] for i in range(n)]
            fe = lambda x: [x(i + off) for i in range(len(t["edges"]))]
            v, w, wd = f(V), f(W), f(Wd)
            e, e0, e1 = fe(E), fe(E0), fe(E1)
            allv[r] = (v, w)
            D = dict(device="D", region=r)
            for nm, vals in (("V", v), ("W", w), ("Wd", wd)):
                d.set_node_values(name=nm, values=vals, **D)
            for nm, vals in (("E", e), ("E0", e0), ("E1", e1)):
                d.set_edge_values(name=nm, values=vals, **D)
            self.where = " region %s V=%s W=%s Wd=%s" % (r, v, w, wd)
            self.region(r, t, v, w, wd, e, e0, e1)
            off += n
            ctx.count(states=1)
        for i, (r0, r1, tu) in self.interfaces.items():
            g = {k: list(d.get_interface_model_values(device="D", interface=i, name=k)) for k in
                 ["im", "im0"] + ["im_%s_%s" % (k, s) for k in ("x", "y", "z", "node_index") for s in ("r0", "r1")]}
            p = {s: list(zip(*(g["im_%s_%s" % (k, s)] for k in "xyz"))) for s in ("r0", "r1")}
            want = sorted({self.co[j] for q in tu for j in q})
            if p["r0"] != p["r1"] or sorted(p["r0"]) != want:
                self.bad("interface", "interface nodes %s %s expected %s" % (p["r0"], p["r1"], want))
                continue
            i0, i1 = [[int(x) for x in g["im_node_index_" + s]] for s in ("r0", "r1")]
            if [self.r[r0]["pos"][j] for j in i0] != p["r0"] or [self.r[r1]["pos"][j] for j in i1] != p["r1"]:
                self.bad("interface", "interface node indexes %s %s are not at %s" % (i0, i1, p["r0"]))
                continue
            v0, v1, w1 = allv[r0][0], allv[r1][0], allv[r1][1]
            self.cmp("interface_model", g["im"], [v0[a] * q[0] - 3 * w1[b] + v1[b] ** 2 for a, b, q in zip(i0, i1, p["r0"])], 50)
            self.cmp("interface_model", g["im0"], [v0[a] - v1[b] for a, b in zip(i0, i1)])

    def region(self, r, t, v, w, wd, e, e0, e1):
        ed, ln, dim = t["edges"], t["len"], self.dim
        for nm, x in (("V", v), ("W", w)):
            self.cmp("edge_from_node_model", self.ev(r, nm + "@n0"), [x[a] for a, b in ed])
            self.cmp("edge_from_node_model", self.ev(r, nm + "@n1"), [x[b] for a, b in ed])
            dx = [1.0] * len(x) if nm == "V" else wd
            self.cmp("arithmetic", self.ev(r, "a" + nm), [(x[a] + x[b]) / 2 for a, b in ed])
            self.cmp("arithmetic@n0", self.ev(r, "a%s:V@n0" % nm), [dx[a] / 2 for a, b in ed])
            self.cmp("arithmetic@n1", self.ev(r, "a%s:V@n1" % nm), [dx[b] / 2 for a, b in ed])
            for k, s in (("d", 1.0), ("m", -1.0)):
                self.cmp("gradient" if s > 0 else "negative_gradient", self.ev(r, k + nm), [s * (x[b] - x[a]) / l for (a, b), l in zip(ed, ln)])
                self.cmp("gradient@n0", self.ev(r, "%s%s:V@n0" % (k, nm)), [-s * dx[a] / l for (a, b), l in zip(ed, ln)])
                self.cmp("gradient@n1", self.ev(r, "%s%s:V@n1" % (k, nm)), [s * dx[b] / l for (a, b), l in zip(ed, ln)])
            # the geometric mean is defined where the product is not negative, its derivative where it is positive
            if all(x[a] * x[b] >= 0 for a, b in ed):
                self.cmp("geometric", self.ev(r, "g" + nm), [math.sqrt(x[a] * x[b]) for a, b in ed])
            if all(x[a] * x[b] > 0 for a, b in ed):
                g = [math.sqrt(x[a] * x[b]) for a, b in ed]
                self.cmp("geometric@n0", self.ev(r, "g%s:V@n0" % nm), [x[b] * dx[a] / (2 * q) for (a, b), q in zip(ed, g)])
                self.cmp("geometric@n1", self.ev(r, "g%s:V@n1" % nm), [x[a] * dx[b] / (2 * q) for (a, b), q in zip(ed, g)])
        self.gradients(r, t, v, "V", False)
        self.gradients(r, t, w, "W", True)
        pos = t["pos"]
        at = [0.0] * t["n"]
        for cn, (cr, tu) in self.contacts.items():
            if cr != r:
                continue
            cnod = {self.co[j] for q in tu for j in q}
            for j in range(t["n"]):
                at[j] += pos[j] in cnod
            self.cmp("contact_node_model", self.nv(r, "cn_" + cn), [v[j] * 2 + w[j] + 1 if pos[j] in cnod else 0.0 for j in range(t["n"])])
            self.cmp("contact_edge_model", self.ev(r, "ce_" + cn), [v[a] - 2 * v[b] + 5 if pos[a] in cnod or pos[b] in cnod else 0.0 for a, b in ed])
        self.cmp("AtContactNode", self.nv(r, "AtContactNode"), at)
        if dim == 1:
            return
        self.normals(r, t)
        ne = 3 if dim == 2 else 6
        el = t["elems"]
        for k in range(dim + 1):
            self.cmp("element_from_node_model", self.lv(r, "V@en%d" % k), [v[q[k]] for l in el for q in l])
        em = [v[q[0]] * v[q[1]] + 2 * v[q[2]] - e[t["eidx"][tuple(sorted(q[:2]))]] for l in el for q in l]
        self.cmp("element_model", self.lv(r, "M"), em, 30)
        gm = self.fields(t, [em[ne * i:ne * i + ne] for i in range(len(el))])
        ge = self.fields(t, [[e[t["eidx"][tuple(sorted(q[:2]))]] for q in l] for l in el])
        comp = "xyz"[:dim]
        for c, x in enumerate(comp):
            self.cmp("vector_element_model", self.lv(r, "M_" + x), [q[2][c] for l in gm for q in l], 100)
            self.cmp("element_from_edge_model", self.lv(r, "E_" + x), [q[2][c] for l in ge for q in l], 10)
            for s in (0, 1):
                self.cmp("element_pair_from_edge_model", self.lv(r, "E_node%d_%s" % (s, x)), [q[s][c] for l in ge for q in l], 10)
        # derivative to the value at the corner q[k] of the element as seen from each of its edges
        per = []
        for l in el:
            corners = sorted(l[0])
            byc = {}
            for cnr in corners:
                data = []
                for q in l:
                    i = t["eidx"][tuple(sorted(q[:2]))]
                    a, b = ed[i]
                    data.append(e0[i] if a == cnr else e1[i] if b == cnr else 0.0)
                byc[cnr] = data
            per.append(byc)
        fd = [{cnr: self.field(t, i, per[i][cnr]) for cnr in per[i]} for i in range(len(el))]
        for k in range(dim + 1):
            for c, x in enumerate(comp):
                self.cmp("element_from_edge_model_derivative", self.lv(r, "E_%s:V@en%d" % (x, k)), [fd[i][q[k]][j][2][c] for i, l in enumerate(el) for j, q in enumerate(l)], 10)
                for s in (0, 1):
                    self.cmp("element_pair_from_edge_model_derivative", self.lv(r, "E_node%d_%s:V@en%d" % (s, x, k)), [fd[i][q[k]][j][s][c] for i, l in enumerate(el) for j, q in enumerate(l)], 10)

    def fields(self, t, data):
        return [self.field(t, i, data[i]) for i in range(len(data))]

    def field(self, t, i, data):
        """per edge of element i: (vector at node 0, vector at node 1, weighted mean) from scalars along the edges"""
        l, dim = t["elems"][i], self.dim
        at = {}
        for cnr in l[0]:
            js = [j for j, q in enumerate(l) if cnr in q[:2]]
            m = [t["u"][t["eidx"][tuple(sorted(l[j][:2]))]][:dim] for j in js]
            at[cnr] = (solve(m, [data[j] for j in js]), js)
        out = []
        for j, q in enumerate(l):
            v0, v1 = at[q[0]][0], at[q[1]][0]
            if dim == 2:
                # the weight of the vector at a node is the couple of the other edge there
                w0, w1 = (t["couple"][3 * i + [k for k in at[n][1] if k != j][0]] for n in q[:2])
            else:
                w0 = w1 = 0.5
            out.append((v0, v1, [(w0 * x + w1 * y) / (w0 + w1) for x, y in zip(v0, v1)]))
        return out

    def gradients(self, r, t, v, name, avoid):
        dim, pos = self.dim, t["pos"]
        if dim == 1:
            el = [tuple(e) for e in t["edges"]]
        else:
            el = [tuple(sorted(l[0])) for l in t["elems"]]
        g = []
        for e in el:
            if dim == 1:
                g.append([(v[e[1]] - v[e[0]]) / (pos[e[1]][0] - pos[e[0]][0])])
            else:
                g.append(solve([sub(pos[n], pos[e[0]])[:dim] for n in e[1:]], [v[n] - v[e[0]] for n in e[1:]]))
        want = [[0.0] * t["n"] for _ in range(dim)]
        for n in range(t["n"]):
            use = [g[i] for i, e in enumerate(el) if n in e and not (avoid and any(v[k] == 0.0 for k in e))]
            for c in range(dim):
                if use:
                    want[c][n] = sum(x[c] for x in use) / len(use)
        for c, x in enumerate("xyz"[:dim]):
            self.cmp("vector_gradient_avoidzero" if avoid else "vector_gradient", self.nv(r, "%s_grad%s" % (name, x)), want[c], 10)

    def normals(self, r, t):
        for i, (r0, r1, tu) in self.interfaces.items():
            if r not in (r0, r1):
                continue
            inod = [j for j in range(t["n"]) if t["pos"][j] in {self.co[k] for q in tu for k in q}]
            nn = list(zip(*(self.nv(r, "NSurfaceNormal_" + x) for x in "xyz"[:self.dim])))
            dist = self.ev(r, i + "_distance")
            got = list(zip(*(self.ev(r, "%s_normal_%s" % (i, x)) for x in "xyz"[:self.dim])))
            for k, (a, b) in enumerate(t["edges"]):
                mid = [(p + q) / 2 for p, q in zip(t["pos"][a], t["pos"][b])]
                ds = {j: norm(sub(t["pos"][j], mid)) for j in inod}
                m = min(ds.values())
                ctx.count(comparisons=1)
                if abs(dist[k] - m) > 1e-12 * max(1, m):
                    self.bad("interface_normal_distance", "edge %s distance %r expected %r" % ((a, b), dist[k], m))
                cand = []
                for j in inod:
                    if ds[j] <= m * (1 + 1e-9) + 1e-12:
                        s = dot(sub(t["pos"][j], mid)[:self.dim], nn[j])
                        for sg in ((1,) if s > 1e-12 else (-1,) if s < -1e-12 else (1, -1)):
                            cand.append([sg * x for x in nn[j]])
                if not any(all(abs(x - y) <= 1e-12 for x, y in zip(c, got[k])) for c in cand):
                    self.bad("interface_normal", "edge %s normal %s expected one of %s" % ((a, b), got[k], cand))


def run(item):
    name, ext, order = item
    it = Item(name, ext, order)
    try:
        t = it.r[list(it.regions)[0]]
        if t is not None:
            n = sum(x["n"] for x in it.r.values() if x)
            pats = patterns(n, name in SMALL, ctx.thorough)
            ctx.state("mesh", name)
            for k, V in enumerate(pats):
                W = pats[(k * 5 + 3) % len(pats)]
                Wd = pats[(k * 3 + 1) % len(pats)]
                E = lambda i: math.sin(1.0 + i + k)
                E0 = lambda i: math.cos(2.0 * i + k)
                E1 = lambda i: 0.3 * i - 1.0 + k % 2
                if k < 6:           # one edge alone, and a uniform field
                    E = lambda i: float(i == k)
                    E0 = lambda i: float(i == (k + 1) % 6)
                    E1 = lambda i: float(i == (k + 2) % 6)
                ctx.note((name, ext, order, k))
                it.check(V, W, Wd, E, E0, E1)
                if k == 0:
                    ctx.sample({"mesh": name, "extended": ext, "V": V})
                if ctx.viol and len(ctx.viol) > 60:
                    return
    finally:
        d.delete_device(device="D")
        d.delete_mesh(mesh="D")
        d.set_parameter(name="extended_model", value=False)
        ctx.count(devices=1)


# ---- values that cannot be represented -------------------------------------------------------------
POISON = {
    "big": lambda i: (1.7e308, -1.7e308)[i % 2],
    "same": lambda i: 1.7e308,
    "one": lambda i: -1.7e308 if i == 1 else 1.0,
    "neg": lambda i: (1.0, -1.0)[i % 2],
    "zero": lambda i: 0.0,
}


def undefined(item):
    """finite inputs: a read of a derived model is finite or an error, the same whatever was read before it and however often"""
    name, ext, order, pn = item
    it = Item(name, ext, order)
    f = POISON[pn]
    try:
        if None in it.r.values():
            return
        mods = []
        for r in it.regions:
            k = dict(device="D", region=r)
            mods += [("n", r, n) for n in sorted(d.get_node_model_list(**k))] + [("e", r, n) for n in sorted(d.get_edge_model_list(**k))]
            if it.dim > 1:
                mods += [("l", r, n) for n in sorted(d.get_element_model_list(**k))]
        rd = {"n": it.nv, "e": it.ev, "l": it.lv}

        def read(m):
            ctx.count(reads=1)
            try:
                v = rd[m[0]](m[1], m[2])
            except d.error:
                return "error"
            return "finite" if all(math.isfinite(x) for x in v) else "not finite"

        def poison():
            for r in it.regions:
                t = it.r[r]
                for nm in ("V", "W", "Wd"):
                    d.set_node_values(device="D", region=r, name=nm, values=[f(i) for i in range(t["n"])])
                for nm in ("E", "E0", "E1"):
                    d.set_edge_values(device="D", region=r, name=nm, values=[f(i) for i in range(len(t["edges"]))])
        base = {}
        for m in mods:
            poison()
            base[m] = read(m)
            if base[m] == "not finite" and not ext:
                fam = "element_pair" if m[2].startswith("E_node") else "element_from_edge" if m[0] == "l" and m[2].startswith("E_") else m[2]
                it.bad("undefined:%s:%s:%s" % (fam, name, pn), "%s: %s reads values that are not finite without an error" % (pn, m))
            if base[m] != read(m):
                it.bad("again:%s" % m[2], "%s: first read of %s: %s, second %s" % (pn, m, base[m], read(m)))
        ctx.count(errors=sum(v == "error" for v in base.values()), models=len(base))
        for m in mods:
            poison()
            read(m)
            for q in mods:
                g = read(q)
                if g != base[q]:
                    it.bad("after:%s" % q[2], "%s: %s read alone: %s, after %s: %s" % (pn, q, base[q], m, g))
                    break
        # and with usable inputs everything is defined again
        V = [1.0, 2.5, 4.0, 0.5, 3.0, 1.25, 2.0]
        W = [2.0, 1.0, 3.5, 5.0, 0.25, 1.5, 4.0]
        it.check(V, W, V[::-1], lambda i: math.sin(1.0 + i), lambda i: math.cos(2.0 * i), lambda i: 0.3 * i - 1)
    finally:
        d.delete_device(device="D")
        d.delete_mesh(mesh="D")
        d.set_parameter(name="extended_model", value=False)
        ctx.count(devices=1)


def main():
    items = []
    for n in MESHES:
        for ext in (0, 1):
            for order in (0, 1):
                items.append((n, ext, order))
    ctx.run(items, run, name="mesh", timeout=120, setup=vc.quiet)
    und = [n for n in MESHES if n not in SMALL or n.endswith("012") or n.endswith("0123")]
    if not ctx.thorough:
        und = [n for n in und if n in ("line012", "star", "tri_acute0123", "tet_0123", "line2", "tri2")]
    ctx.run([(n, x, o, p) for n in und for x in (0,) for o in (0, 1) for p in POISON], undefined, name="undefined", timeout=300, setup=vc.quiet)
    s = ctx.stats
    ctx.finish(states=s.get("states", 0), transitions=s.get("comparisons", 0), traces=s.get("devices", 0),
               rule="every mesh of the family (all numberings of the small ones) x both creation orders x double and extended models x every value pattern; "
                    "every derived model compared with its formula",
               extra={"meshes": len(MESHES)})


main()
