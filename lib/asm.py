"""Assembly worlds: small devices with polynomial models whose derivatives are declared exactly,
and the reference assembly (documented finite volume sums) computed from reported model values."""
import itertools
import devsim as d
import dev as devs

VARS = ("u", "w")


def poly(names, seed, quad=True):
    """A quadratic polynomial over names with small dyadic coefficients, and its partial derivatives, as text."""
    s = seed * 7919 + 13
    def c():
        nonlocal s
        s = (s * 1103515245 + 12345) & 0x7fffffff
        return [0.5, -1.0, 0.25, 2.0, -0.5, 1.5, -0.75, 1.0][(s >> 12) & 7]
    e, der = ["%r" % c()], {n: [] for n in names}
    for i, a in enumerate(names):
        k = c()
        e.append("(%r)*%s" % (k, a))
        der[a].append("(%r)" % k)
        if quad:
            for b in names[i:]:
                if ((s >> 5) + i) % 2 == 0 or a == b:
                    k = c()
                    e.append("(%r)*%s*%s" % (k, a, b))
                    if a == b:
                        der[a].append("(%r)*%s" % (2 * k, a))
                    else:
                        der[a].append("(%r)*%s" % (k, b))
                        der[b].append("(%r)*%s" % (k, a))
    return "+".join(e), {n: "+".join(v) for n, v in der.items()}


DIM = {"line": 1, "line2": 1, "tri": 2, "tri2": 2, "tri3": 2, "triwrap": 2, "trishare": 2, "tet": 3, "tet2": 3, "tet1": 3}
REG = {"line": ("R",), "tri": ("R",), "tet": ("R",), "tet1": ("R",), "trishare": ("R",), "line2": ("R0", "R1"), "tri2": ("R0", "R1"), "tet2": ("R0", "R1"), "triwrap": ("R0", "R1"), "tri3": ("R0", "R1", "R2")}
CON = {"line": {"c0": "R", "c1": "R"}, "tri": {"c0": "R", "c1": "R"}, "trishare": {"c0": "R", "c1": "R", "c2": "R"}, "tet": {"c0": "R", "c1": "R"}, "tet1": {"c0": "R", "c1": "R"},
       "line2": {"c0": "R0", "c1": "R1"}, "tri2": {"c0": "R0", "c1": "R1"}, "tet2": {"c0": "R0", "c1": "R1"}, "tri3": {"c0": "R0", "c1": "R2"}, "triwrap": {"c0": "R0", "c1": "R1", "c2": "R1", "c3": "R0"}}
INT = {"triwrap": ("i0",), "line2": ("i0",), "tri2": ("i0",), "tet2": ("i0",), "tri3": ("i0", "i1")}
C3R = [(0., 0.), (4., 0.), (0., 3.), (4.5, 3.5), (8., 0.5), (7.5, 4.)]


def mesh(kind, dev):
    if kind == "tri3":
        # R0 = lower left, R1 = upper strip, R2 = lower right; node 3 on both interfaces; contact c0 ends on interface i0's node
        devs.gmsh(dev, [(0., 0.), (4., 0.), (0., 3.), (4.5, 3.5), (0., 6.5), (4., 7.), (8., 0.5), (8.5, 4.), (8.3, 7.5)],
                  {"R0": [(0, 1, 2), (1, 3, 2)], "R1": [(2, 3, 4), (3, 5, 4), (3, 7, 5), (7, 8, 5)], "R2": [(1, 6, 3), (6, 7, 3)]},
                  {"c0": ("R0", [(0, 2)]), "c1": ("R2", [(1, 6)])}, {"i0": ("R0", "R1", [(2, 3)]), "i1": ("R1", "R2", [(3, 7)])})
    elif kind == "triwrap":
        # contacts of both regions meet at both ends of the interface; at each end they come in a different order
        devs.gmsh(dev, [(0., 0.), (4., 0.), (0., 3.), (4.5, 3.5), (0., 6.5), (4., 7.)], {"R0": [(0, 1, 2), (1, 3, 2)], "R1": [(2, 3, 4), (3, 5, 4)]},
                  {"c0": ("R0", [(0, 2)]), "c1": ("R1", [(2, 4)]), "c2": ("R1", [(3, 5)]), "c3": ("R0", [(1, 3)])}, {"i0": ("R0", "R1", [(2, 3)])})
    elif kind == "trishare":
        # contacts sharing nodes: c1 meets c0 at node 1 and c2 at node 3
        devs.gmsh(dev, devs.C2, {"R": devs.T2A + devs.T2B}, {"c0": ("R", [(0, 1)]), "c1": ("R", [(1, 3), (3, 6)]), "c2": ("R", [(6, 5), (5, 4)])})
    else:
        getattr(devs, kind)(dev)


def region_nodes(dev, region):
    return len(d.get_node_model_values(device=dev, region=region, name="node_index"))


def setvals(dev, region, seed, scale=0.125):
    for k, v in enumerate(VARS):
        n = region_nodes(dev, region)
        d.set_node_values(device=dev, region=region, name=v, values=[scale * (((i * 5 + k * 3 + seed * 7) % 16) + 4) for i in range(n)])


def local(kind, dim):
    """names of the unknowns a model of this kind may depend on"""
    if kind == "node":
        return list(VARS)
    if kind == "edge":
        return [v + "@n%d" % i for v in VARS for i in (0, 1)]
    if kind == "elem":
        return [v + "@en%d" % i for v in VARS for i in range(dim + 1)]


def define(dev, region, name, kind, seed, dim, extra=(), derivs=True):
    names = local(kind, dim) + list(extra)
    e, der = poly(names, seed)
    f = {"node": d.node_model, "edge": d.edge_model, "elem": d.element_model}[kind]
    f(device=dev, region=region, name=name, equation=e)
    if derivs:
        for n, x in der.items():
            f(device=dev, region=region, name=name + ":" + n, equation=x)


BULK = ("node_model", "edge_model", "edge_volume_model", "element_model", "volume", "time_node_model")
CPARTS = ("node_model", "edge_model", "edge_volume_model", "element_model", "volume",
          "node_current_model", "edge_current_model", "element_current_model", "node_charge_model", "edge_charge_model", "element_charge_model")
KIND = {"node_model": "node", "edge_model": "edge", "edge_volume_model": "edge", "element_model": "elem", "time_node_model": "node",
        "node_current_model": "node", "edge_current_model": "edge", "element_current_model": "elem", "node_charge_model": "node", "edge_charge_model": "edge", "element_charge_model": "elem"}


class World:
    """cfg: kind, bulk: {eqn index: tuple of parts}, contacts: {name: {eq: (parts, circuit node or None)}}, interfaces: {name: {eq: (type, style)}},
    couples: bool (other couple models than the default), circuit: bool, dev2: bool, ext: bool"""
    def __init__(self, cfg, derivs=True):
        self.cfg = cfg
        self.kind = cfg["kind"]
        self.dim = DIM[self.kind]
        self.regions = REG[self.kind]
        self.devices = ["D"] + (["B"] if cfg.get("dev2") else [])
        d.reset_devsim()
        if cfg.get("ext"):
            for n in ("extended_model", "extended_equation", "extended_solver"):
                d.set_parameter(name=n, value=True)
        self.circuit = cfg.get("circuit", False)
        if self.circuit:
            d.circuit_element(name="V1", n1="x", n2="0", value=0.5)
            d.circuit_element(name="R1", n1="x", n2="cn", value=2.0)
            d.circuit_element(name="C1", n1="cn", n2="0", value=0.25)
            d.circuit_element(name="L1", n1="cm", n2="cn", value=0.5)
            if cfg.get("alias"):
                d.circuit_node_alias(node="cn", alias="ca")
        for k, dev in enumerate(self.devices):
            mesh(self.kind, dev)
            for r in self.regions:
                for v in VARS:
                    d.node_solution(device=dev, region=r, name=v)
                setvals(dev, r, self.regions.index(r) + 3 * k)
                for v in VARS:
                    d.edge_from_node_model(device=dev, region=r, node_model=v)
                    if self.dim > 1:
                        d.element_from_node_model(device=dev, region=r, node_model=v)
                d.edge_from_node_model(device=dev, region=r, node_model="node_index")
                if self.dim > 1:
                    d.element_from_node_model(device=dev, region=r, node_model="node_index")
                if cfg.get("couples"):
                    self.alt_couples(dev, r)
        if self.circuit:
            d.get_matrix_and_rhs(format="csc")       # creates the circuit solution
            for i, n in enumerate(sorted(d.get_circuit_node_list())):
                d.set_circuit_node_value(node=n, solution="dcop", value=0.25 * (i + 1))
            m = d.get_matrix_and_rhs(format="csc")
            self.circuit_rhs = {}                    # the circuit's own residual, before devices are connected
            for n in d.get_circuit_node_list():
                x = d.get_circuit_equation_number(node=n)
                if x >= 0:
                    self.circuit_rhs[n] = [float(m[t]["rhs"][x]) for t in ("static", "dynamic")]
        for dev in self.devices:
            self.equations(dev, derivs)

    def alt_couples(self, dev, r):
        d.node_model(device=dev, region=r, name="myNV", equation="NodeVolume*2+1")
        d.edge_model(device=dev, region=r, name="myEC", equation="EdgeCouple*3+1")
        d.edge_model(device=dev, region=r, name="myEV0", equation="EdgeNodeVolume*0.5+1")
        d.edge_model(device=dev, region=r, name="myEV1", equation="EdgeNodeVolume*0.25+2")
        if self.dim > 1:
            d.element_model(device=dev, region=r, name="myEEC", equation="ElementEdgeCouple*2+1")
            d.element_model(device=dev, region=r, name="myEN0", equation="ElementNodeVolume*0.5+1")
            d.element_model(device=dev, region=r, name="myEN1", equation="ElementNodeVolume*1.5+3")
        names = {"node_volume_model": "myNV", "edge_couple_model": "myEC", "edge_node0_volume_model": "myEV0", "edge_node1_volume_model": "myEV1"}
        if self.kind in INT:
            d.node_model(device=dev, region=r, name="mySA", equation="SurfaceArea*2+0.5")
            names["surface_area_model"] = "mySA"
        if self.dim > 1:
            names.update({"element_edge_couple_model": "myEEC", "element_node0_volume_model": "myEN0", "element_node1_volume_model": "myEN1"})
        for k, v in names.items():
            if self.cfg["couples"] == "region":
                d.set_parameter(device=dev, region=r, name=k, value=v)
            elif self.cfg["couples"] == "device":
                d.set_parameter(device=dev, name=k, value=v)
            else:
                d.set_parameter(name=k, value=v)

    def couple(self, which):
        a = bool(self.cfg.get("couples"))
        return {"sa": ("SurfaceArea", "mySA"), "nv": ("NodeVolume", "myNV"), "ec": ("EdgeCouple", "myEC"), "ev0": ("EdgeNodeVolume", "myEV0"), "ev1": ("EdgeNodeVolume", "myEV1"),
                "eec": ("ElementEdgeCouple", "myEEC"), "en0": ("ElementNodeVolume", "myEN0"), "en1": ("ElementNodeVolume", "myEN1")}[which][a]

    def parts(self, parts):
        return [p for p in parts if self.dim > 1 or p not in ("element_model", "volume", "element_current_model", "element_charge_model")]

    def equations(self, dev, derivs):
        cfg = self.cfg
        for r in self.regions:
            ri = self.regions.index(r)
            for qi, v in enumerate(VARS):
                kw = {}
                for p in self.parts(cfg["bulk"][qi]):
                    seed = 100 * ri + 10 * qi + BULK.index(p)
                    if p == "volume":
                        same = cfg.get("samevol")
                        define(dev, r, "b%d_v0" % qi, "elem", seed, self.dim, derivs=derivs)
                        kw["volume_node0_model"] = "b%d_v0" % qi
                        if not same:
                            define(dev, r, "b%d_v1" % qi, "elem", seed + 50, self.dim, derivs=derivs)
                        kw["volume_node1_model"] = "b%d_v0" % qi if same else "b%d_v1" % qi
                    else:
                        define(dev, r, "b%d_%s" % (qi, p), KIND[p], seed, self.dim, derivs=derivs)
                        kw[p] = "b%d_%s" % (qi, p)
                d.equation(device=dev, region=r, name="E" + v, variable_name=v, **kw)
        for c, eqs in cfg.get("contacts", {}).items():
            r = CON[self.kind][c]
            for v, (parts, cn) in eqs.items():
                kw = {}
                for p in self.parts(parts):
                    seed = 1000 + 100 * int(c[1:]) + 20 * VARS.index(v) + CPARTS.index(p)
                    ex = [cn] if cn else []
                    if p == "volume":
                        for s in (0, 1):
                            define(dev, r, "%s%s_v%d" % (c, v, s), "elem", seed + 31 * s, self.dim, ex, derivs)
                            kw["volume_node%d_model" % s] = "%s%s_v%d" % (c, v, s)
                    else:
                        n = "%s%s_%s" % (c, v, p)
                        define(dev, r, n, KIND[p], seed, self.dim, ex, derivs)
                        kw[p] = n
                if cn:
                    kw["circuit_node"] = cn
                d.contact_equation(device=dev, contact=c, name="E" + v, **kw)
        for i in INT.get(self.kind, ()):
            d.interface_model(device=dev, interface=i, name="ix", equation="x@r0+64*y@r0+4096*z@r0")
        for i, eqs in cfg.get("interfaces", {}).items():
            for v, (ty, style) in eqs.items():
                names = [x + "@r%d" % s for x in VARS for s in (0, 1)]
                e, der = poly(names, 5000 + 10 * int(i[1:]) + VARS.index(v))
                n = "%s%s_im" % (i, v)
                d.interface_model(device=dev, interface=i, name=n, equation=e)
                if derivs:
                    for k, x in der.items():
                        d.interface_model(device=dev, interface=i, name=n + ":" + k, equation=x)
                # style: the interface equation is named after the bulk equations, or names both, or couples different equations
                if style == "name":
                    kw = {"name": "E" + v}
                elif style == "both":
                    kw = {"name": "I" + v, "name0": "E" + v, "name1": "E" + v}
                else:
                    o = VARS[1 - VARS.index(v)]
                    kw = {"name": "I" + v, "name0": "E" + v, "name1": "E" + o}
                d.interface_equation(device=dev, interface=i, interface_model=n, type=ty, **kw)

    # ---- what the simulator assembled -------------------------------------------------------
    def assembled(self, fmt="csc"):
        m = d.get_matrix_and_rhs(format=fmt)
        n = len(m["static"]["rhs"])
        out = {"n": n}
        for t in ("static", "dynamic"):
            a, ap, ai = m[t]["av"], m[t]["ap"], m[t]["ai"]
            J = {}
            for j in range(n):
                for k in range(ap[j], ap[j + 1]):
                    key = (ai[k], j) if fmt == "csc" else (j, ai[k])
                    J[key] = J.get(key, 0.0) + a[k]
            out[t] = ([float(x) for x in m[t]["rhs"]], J)
        out["perm"] = (list(m["permutation"]["row"]), list(m["permutation"]["copy"]))
        return out

    def rows(self):
        """(kind, where, index) -> row"""
        R = {}
        for dev in self.devices:
            for r in self.regions:
                for v in VARS:
                    for i, x in enumerate(d.get_equation_numbers(device=dev, region=r, variable=v)):
                        R[(dev, r, v, i)] = x
        if self.circuit:
            for n in d.get_circuit_node_list():
                x = d.get_circuit_equation_number(node=n)
                if x >= 0:
                    R[("circuit", n)] = x
        return R

    def unknowns(self):
        U = [(dev, r, v, i) for dev in self.devices for r in self.regions for v in VARS for i in range(region_nodes(dev, r))]
        if self.circuit:
            U += [("circuit", n) for n in d.get_circuit_node_list() if d.get_circuit_equation_number(node=n) >= 0]
        return U

    def get(self, x):
        if x[0] == "circuit":
            return d.get_circuit_node_value(node=x[1], solution="dcop")
        return list(d.get_node_model_values(device=x[0], region=x[1], name=x[2]))[x[3]]

    def put(self, x, val):
        if x[0] == "circuit":
            d.set_circuit_node_value(node=x[1], solution="dcop", value=val)
        else:
            d.set_node_value(device=x[0], region=x[1], name=x[2], index=x[3], value=val)


    # ---- the documented sums -----------------------------------------------------------------
    def nm(self, dev, r, n):
        return list(d.get_node_model_values(device=dev, region=r, name=n))

    def em(self, dev, r, n):
        return list(d.get_edge_model_values(device=dev, region=r, name=n))

    def elm(self, dev, r, n):
        return list(d.get_element_model_values(device=dev, region=r, name=n))

    def ends(self, dev, r):
        """edges and element edges as pairs of node indices"""
        e = list(zip(*[[int(x) for x in self.em(dev, r, "node_index@n%d" % i)] for i in (0, 1)]))
        le = []
        if self.dim > 1:
            le = list(zip(*[[int(x) for x in self.elm(dev, r, "node_index@en%d" % i)] for i in (0, 1)]))
        return e, le

    def terms(self, dev, r, part, models):
        """{node index: sum} of one part over the whole region"""
        out = {}
        e, le = self.ends(dev, r)

        def pairs(ends, vals, cpl, s0, s1):
            for (a, b), x, c in zip(ends, vals, cpl):
                out[a] = out.get(a, 0.0) + s0 * x * c
                out[b] = out.get(b, 0.0) + s1 * x * c
        if part in ("node_model", "time_node_model", "node_current_model", "node_charge_model"):
            for i, (x, c) in enumerate(zip(self.nm(dev, r, models[0]), self.nm(dev, r, self.couple("nv")))):
                out[i] = x * c
        elif part in ("edge_model", "edge_current_model", "edge_charge_model"):
            pairs(e, self.em(dev, r, models[0]), self.em(dev, r, self.couple("ec")), 1.0, -1.0)
        elif part == "edge_volume_model":
            v = self.em(dev, r, models[0])
            pairs(e, v, self.em(dev, r, self.couple("ev0")), 1.0, 0.0)
            pairs(e, v, self.em(dev, r, self.couple("ev1")), 0.0, 1.0)
        elif part in ("element_model", "element_current_model", "element_charge_model"):
            pairs(le, self.elm(dev, r, models[0]), self.elm(dev, r, self.couple("eec")), 1.0, -1.0)
        elif part == "volume":
            pairs(le, self.elm(dev, r, models[0]), self.elm(dev, r, self.couple("en0")), 1.0, 0.0)
            pairs(le, self.elm(dev, r, models[1]), self.elm(dev, r, self.couple("en1")), 0.0, 1.0)
        return out

    def contact_sum(self, dev, r, part, model, nodes):
        """current or charge: flux out of the contact's nodes, edges inside the contact excluded"""
        e, le = self.ends(dev, r)
        s = 0.0
        if part.startswith("node"):
            v, c = self.nm(dev, r, model), self.nm(dev, r, self.couple("nv"))
            return sum(v[i] * c[i] for i in nodes)
        ends, v, c = (e, self.em(dev, r, model), self.em(dev, r, self.couple("ec"))) if part.startswith("edge") else \
            (le, self.elm(dev, r, model), self.elm(dev, r, self.couple("eec")))
        for (a, b), x, k in zip(ends, v, c):
            if (a in nodes) != (b in nodes):
                s += x * k * (1.0 if a in nodes else -1.0)
        return s

    def coords(self, dev, r):
        return list(zip(*[self.nm(dev, r, n) for n in "xyz"]))

    def contact_nodes(self, dev, c):
        r = CON[self.kind][c]
        want = devs.MESH[dev]["contacts"][c]
        return {i for i, x in enumerate(self.coords(dev, r)) if x in want}

    def reference(self, owner):
        """Residual rows (not negated) static and dynamic, and permutation, for an assignment of shared contact nodes to contacts.
        owner: {(dev, region, var, node): contact}"""
        R = self.rows()
        F = {"static": {}, "dynamic": {}}
        P = {}

        def add(t, row, v):
            F[t][row] = F[t].get(row, 0.0) + v
        cfg = self.cfg
        cnodes = {}
        for dev in self.devices:
            for c, eqs in cfg.get("contacts", {}).items():
                r = CON[self.kind][c]
                for v, (parts, cn) in eqs.items():
                    nodes = {i for i in self.contact_nodes(dev, c) if owner.get((dev, r, v, i), c) == c}
                    cnodes[(dev, c, v)] = nodes
                    crow = None
                    if cn:
                        x = d.get_circuit_equation_number(node=cn)
                        crow = x if x >= 0 else None
                    for p in self.parts(parts):
                        m = ["%s%s_v0" % (c, v), "%s%s_v1" % (c, v)] if p == "volume" else ["%s%s_%s" % (c, v, p)]
                        if "current" in p or "charge" in p:
                            if crow is not None:
                                add("static" if "current" in p else "dynamic", crow, self.contact_sum(dev, r, p, m[0], nodes))
                            continue
                        for i, x in self.terms(dev, r, p, m).items():
                            if i in nodes:
                                add("static", R[(dev, r, v, i)], x)
                        if p == "node_model":
                            for i in nodes:
                                P[R[(dev, r, v, i)]] = (-1, 0)
            act = {}
            for i, eqs in cfg.get("interfaces", {}).items():
                r0, r1 = d.get_region_list(device=dev, interface=i)
                for v, (ty, style) in eqs.items():
                    v1 = v if style in ("name", "both") else VARS[1 - VARS.index(v)]
                    im = list(d.get_interface_model_values(device=dev, interface=i, name="%s%s_im" % (i, v)))
                    prs = self.interface_pairs(dev, i, r0, r1)
                    sa = self.nm(dev, r0, self.couple("sa")), self.nm(dev, r1, self.couple("sa"))
                    for k, (a, b) in enumerate(prs):
                        if self.taken(dev, i, r0, v, a) or self.taken(dev, i, r1, v1, b):
                            continue
                        row0, row1 = R[(dev, r0, v, a)], R[(dev, r1, v1, b)]
                        if ty == "continuous":
                            add("static", row1, im[k])
                            P[row1] = (row0, 0)
                        elif ty == "fluxterm":
                            add("static", row0, im[k] * sa[0][a])
                            add("static", row1, -im[k] * sa[1][b])
                        else:
                            add("static", row1, -im[k] * sa[1][b])
                            P[row1] = (row0, 1)
        for dev in self.devices:
            for r in self.regions:
                for qi, v in enumerate(VARS):
                    for p in self.parts(cfg["bulk"][qi]):
                        m = ["b%d_v0" % qi, "b%d_v0" % qi if cfg.get("samevol") else "b%d_v1" % qi] if p == "volume" else ["b%d_%s" % (qi, p)]
                        t = "dynamic" if p == "time_node_model" else "static"
                        for i, x in self.terms(dev, r, p, m).items():
                            row = R[(dev, r, v, i)]
                            to, keep = P.get(row, (row, 0))
                            if to < 0:
                                continue
                            add(t, to, x)
                            if keep:
                                add(t, row, x)
        return F, P, cnodes

    def interface_pairs(self, dev, i, r0, r1):
        """node pairs of an interface in the order of its models: by coordinate"""
        c0, c1 = self.coords(dev, r0), self.coords(dev, r1)
        inv = {c: k for k, c in enumerate(c1)}
        # interface models know which coordinate each entry belongs to
        xs = list(d.get_interface_model_values(device=dev, interface=i, name="ix"))
        n0 = [k for k, c in enumerate(c0) if c in devs.MESH[dev]["interfaces"][i]]
        key = {}
        for a in n0:
            key[sum(q * z for q, z in zip((1.0, 64.0, 4096.0), c0[a]))] = a
        out = []
        for x in xs:
            k = min(key, key=lambda q: abs(q - x))
            assert abs(k - x) < 1e-9
            out.append((key[k], inv[c0[key[k]]]))
        return out

    def taken(self, dev, i, r, v, node):
        """a contact with the equation, or another interface coupling the equation, has the node"""
        for c, eqs in self.cfg.get("contacts", {}).items():
            if CON[self.kind][c] == r and v in eqs and node in self.contact_nodes(dev, c):
                return True
        for j, eqs in self.cfg.get("interfaces", {}).items():
            if j == i:
                continue
            r0, r1 = d.get_region_list(device=dev, interface=j)
            for x, (ty, style) in eqs.items():
                x1 = x if style in ("name", "both") else VARS[1 - VARS.index(x)]
                for rr, vv in ((r0, x), (r1, x1)):
                    if rr == r and vv == v and self.coords(dev, r)[node] in devs.MESH[dev]["interfaces"][j]:
                        return True
        return False

    def custom(self, bulk, entries):
        """Registers a custom equation: entries {mode: (rhs pairs, matrix triples)}"""
        def proc(what, mode):
            r, m = entries.get(mode, ((), ()))
            return [x for t in m for x in t], [x for t in r for x in t], bulk
        return proc
