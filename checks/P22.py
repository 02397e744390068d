#!/usr/bin/env python3
"""P22: the physics library that ships with the simulator assembles the physics it names, exactly
differentiated, in every configuration and state.

Devices of one and two regions in one to three dimensions are set up through python_packages
(simple_physics, simple_dd, model_create, Klaassen, mos_physics) in every combination of contact
connections, stages and dopings within the lattice, put in every state of a grid of potentials and
carrier densities, and the simulator's models, residual, matrix, contact currents and charges are compared
with the drift diffusion equations written down here with dual numbers.  Histories of bias steps are
solved and the results compared with conservation laws, equilibrium and the result of a direct solve.
"""
import os, sys, itertools, math, io
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P22", assumptions=["geometry models and the map from edges to elements are taken as reported (P11, P16)",
                                 "published coefficient tables are the ones in the packages at the pinned commit",
                                 "mos_physics treats the direction of the low field current as independent of the carriers and the surface mobility as a function of the potential through the normal field only, as its comments say"])
d = vc.load_devsim()
import dev as devs
import devsim.python_packages.simple_physics as sp
import devsim.python_packages.simple_dd as sdd
import devsim.python_packages.model_create as mc
import devsim.python_packages.Klaassen as kl
import devsim.python_packages.mos_physics as mp
from dual import Dual, exp, log, bern, pw, mx

Q, K, EPS0, ESI, EOX, NI = 1.6e-19, 1.3806503e-23, 8.85e-14, 11.1, 3.9, 1e10
MUN, MUP, TAU = 400.0, 200.0, 1e-5
U = 1e-5
PE, ECE, HCE = "PotentialEquation", "ElectronContinuityEquation", "HoleContinuityEquation"
EQ = {"Potential": PE, "Electrons": ECE, "Holes": HCE}
T2 = [(0., 0.), (4., 0.), (0., 3.), (4.5, 3.5), (-0.5, 6.), (2.5, 7.), (5., 6.5)]

#   layout: regions {name: material}, contacts {name: region}
LAY = {
    "line": ({"R": "Si"}, {"c0": "R", "c1": "R"}),
    "sisi": ({"R0": "Si", "R1": "Si"}, {"c0": "R0", "c1": "R1"}),
    "oxsi": ({"R0": "Ox", "R1": "Si"}, {"c0": "R0", "c1": "R1"}),
    "tri": ({"R": "Si"}, {"c0": "R", "c1": "R"}),
    "tri2": ({"R0": "Si", "R1": "Ox"}, {"c0": "R0", "c1": "R1"}),
    "tri2s": ({"R0": "Si", "R1": "Si"}, {"c0": "R0", "c1": "R1"}),
    "tet": ({"R": "Si"}, {"c0": "R", "c1": "R"}),
}


def mesh(lay):
    s = lambda pts: [tuple(U * x for x in p) for p in pts]
    if lay == "line":
        devs.gmsh("D", s([(0.,), (1.,), (3.,)]), {"R": [(0, 1), (1, 2)]}, {"c0": ("R", [(0,)]), "c1": ("R", [(2,)])})
    elif lay in ("sisi", "oxsi"):
        devs.gmsh("D", s([(0.,), (1.,), (3.,), (3.5,)]), {"R0": [(0, 1), (1, 2)], "R1": [(2, 3)]} if lay == "sisi" else {"R0": [(0, 1)], "R1": [(1, 2), (2, 3)]},
                  {"c0": ("R0", [(0,)]), "c1": ("R1", [(3,)])}, {"i0": ("R0", "R1", [(2 if lay == "sisi" else 1,)])})
    elif lay == "tri":
        devs.gmsh("D", s(T2[:4]), {"R": [(0, 1, 2), (1, 3, 2)]}, {"c0": ("R", [(0, 1)]), "c1": ("R", [(2,)])})
    elif lay in ("tri2", "tri2s"):
        devs.gmsh("D", s(T2), {"R0": [(0, 1, 2), (1, 3, 2)], "R1": [(2, 3, 5), (2, 5, 4), (3, 6, 5)]},
                  {"c0": ("R0", [(0, 1)]), "c1": ("R1", [(4, 5), (5, 6)])}, {"i0": ("R0", "R1", [(2, 3)])})
    elif lay == "tet":
        devs.gmsh("D", s([(0., 0., 0.), (2., 0., 0.), (0.4, 2., 0.1), (0.3, 0.2, 1.8), (2., 2., 2.)]), {"R": [(0, 1, 2, 3), (1, 2, 3, 4)]},
                  {"c0": ("R", [(0, 1, 2)]), "c1": ("R", [(3, 4)])})


def vals(r, n):
    return list(d.get_node_model_values(device="D", region=r, name=n))


def celec(N):
    return 1e-10 + 0.5 * abs(N + math.sqrt(N * N + 4 * NI * NI))


def chole(N):
    return 1e-10 + 0.5 * abs(-N + math.sqrt(N * N + 4 * NI * NI))


class World:
    """cfg: lay, circ (contacts on a circuit), stage ("pot", "dd"), T, mu ("const", "model"), dop: doping per silicon node"""
    def __init__(self, cfg):
        self.cfg = cfg
        self.lay, self.stage, self.T = cfg["lay"], cfg["stage"], cfg.get("T", 300.0)
        self.Vt = K * self.T / Q
        self.mats, self.cons = LAY[self.lay]
        self.circ = cfg.get("circ", ())
        self.bias = {c: 0.0 for c in self.cons}
        d.reset_devsim()
        mesh(self.lay)
        for c in self.circ:
            d.circuit_element(name="R_" + c, n1=sp.GetContactBiasName(c), n2="0", value=2.0)
        for r, m in self.mats.items():
            if m == "Si":
                sp.SetSiliconParameters("D", r, self.T)
                d.node_solution(device="D", region=r, name="NetDoping")
            else:
                sp.SetOxideParameters("D", r, self.T)
        for c in self.cons:
            if c not in self.circ:
                d.set_parameter(device="D", name=sp.GetContactBiasName(c), value=0.0)
        self.geometry()
        self.doping(cfg["dop"])
        self.potential()
        if self.stage == "dd":
            self.dd()
        if self.circ:
            d.get_matrix_and_rhs(format="csc")

    def doping(self, dop):
        self.N = {}
        it = itertools.cycle(dop)
        for r, m in self.mats.items():
            if m == "Si":
                self.N[r] = [next(it) for _ in self.x[r]]
                d.set_node_values(device="D", region=r, name="NetDoping", values=self.N[r])

    def geometry(self):
        self.x, self.edges, self.con_nodes, self.inter = {}, {}, {}, {}
        self.vol, self.L, self.cpl = {}, {}, {}
        for r in self.mats:
            d.edge_from_node_model(device="D", region=r, node_model="node_index")
            e = [[int(x) for x in d.get_edge_model_values(device="D", region=r, name="node_index@n%d" % i)] for i in (0, 1)]
            self.edges[r] = list(zip(*e))
            self.x[r] = list(zip(vals(r, "x"), vals(r, "y"), vals(r, "z")))
            self.vol[r] = vals(r, "NodeVolume")
            self.cpl[r] = list(d.get_edge_model_values(device="D", region=r, name="EdgeCouple"))
            self.L[r] = [math.dist(self.x[r][a], self.x[r][b]) for a, b in self.edges[r]]
        for c, r in self.cons.items():
            pts = devs.MESH["D"]["contacts"][c]
            self.con_nodes[c] = [i for i, p in enumerate(self.x[r]) if p in pts]
        # a node on two contacts belongs to one of them
        seen = {}
        for c in sorted(self.cons):
            for i in self.con_nodes[c]:
                seen.setdefault((self.cons[c], i), []).append(c)
        self.shared = [k for k in seen if len(seen[k]) > 1]
        if self.shared:
            raise RuntimeError("shared contact nodes")
        rs = list(self.mats)
        if len(rs) == 2:
            pts = devs.MESH["D"]["interfaces"]["i0"]
            self.inter = {self.x[rs[1]].index(p): self.x[rs[0]].index(p) for p in pts}       # node of region 1 -> node of region 0

    def potential(self):
        for r, m in self.mats.items():
            if m == "Si":
                sp.CreateSiliconPotentialOnly("D", r)
            else:
                sp.CreateOxidePotentialOnly("D", r)
        for c, r in self.cons.items():
            if self.mats[r] == "Si":
                sp.CreateSiliconPotentialOnlyContact("D", r, c, c in self.circ)
            else:
                sp.CreateOxideContact("D", r, c)
        if len(self.mats) == 2:
            sp.CreateSiliconOxideInterface("D", "i0")

    def dd(self, create=True):
        for r, m in self.mats.items():
            if m == "Si":
                for v in ("Electrons", "Holes") if create else ():
                    sp.CreateSolution("D", r, v)
                if self.cfg.get("mu") == "model":
                    # a mobility that depends on the state
                    for n, e in (("mue", "400+3*Potential@n0-2*Potential@n1+1e-16*Electrons@n0"), ("muh", "200+Potential@n0*Potential@n1+1e-17*Holes@n1")):
                        mc.CreateEdgeModel("D", r, n, e)
                        for v in EQ:
                            mc.CreateEdgeModelDerivatives("D", r, n, e, v)
                    sp.CreateSiliconDriftDiffusion("D", r, "mue", "muh")
                else:
                    sp.CreateSiliconDriftDiffusion("D", r)
        for c, r in self.cons.items():
            if self.mats[r] == "Si":
                sp.CreateSiliconDriftDiffusionAtContact("D", r, c, c in self.circ)
        if len(self.mats) == 2 and set(self.mats.values()) == {"Si"}:
            sp.CreateSiliconSiliconInterface("D", "i0")

    def vars(self, r):
        return ("Potential", "Electrons", "Holes") if self.mats[r] == "Si" and self.stage == "dd" else ("Potential",)

    def setstate(self, st):
        """st: per node triples (V, n, p), cycled over the nodes of all regions; bias values per contact"""
        pts, bias = st
        it = itertools.cycle(pts)
        self.u = {}
        for r in self.mats:
            tr = [next(it) for _ in self.x[r]]
            for k, v in enumerate(self.vars(r)):
                d.set_node_values(device="D", region=r, name=v, values=[t[k] for t in tr])
                for i, t in enumerate(tr):
                    self.u[(r, v, i)] = Dual(t[k], {(r, v, i): 1.0})
        for c, b in zip(self.cons, itertools.cycle(bias)):
            if c in self.circ:
                d.set_circuit_node_value(node=sp.GetContactBiasName(c), solution="dcop", value=b)
                self.u[c] = Dual(b, {c: 1.0})
            else:
                d.set_parameter(device="D", name=sp.GetContactBiasName(c), value=b)
                self.u[c] = Dual(b)

    # ---- the equations -------------------------------------------------------------------------
    def models(self, r):
        """name -> list of duals, node models and edge models"""
        u, Vt, E = self.u, self.Vt, self.edges[r]
        nm, em = {}, {}
        V = [u[(r, "Potential", i)] for i in range(len(self.x[r]))]
        eps = (ESI if self.mats[r] == "Si" else EOX) * EPS0
        em["ElectricField"] = [(V[a] - V[b]) / L for (a, b), L in zip(E, self.L[r])]
        em["PotentialEdgeFlux"] = [eps * x for x in em["ElectricField"]]
        if "contactcharge_edge" in d.get_edge_model_list(device="D", region=r):
            em["contactcharge_edge"] = em["PotentialEdgeFlux"]
        if self.mats[r] == "Si":
            N = self.N[r]
            nm["IntrinsicElectrons"] = [NI * exp(v / Vt) for v in V]
            nm["IntrinsicHoles"] = [NI * exp(-v / Vt) for v in V]
            nm["IntrinsicCharge"] = [p - n + x for n, p, x in zip(nm["IntrinsicElectrons"], nm["IntrinsicHoles"], N)]
            nm["PotentialIntrinsicCharge"] = [-Q * x for x in nm["IntrinsicCharge"]]
            if self.stage == "dd":
                n = [u[(r, "Electrons", i)] for i in range(len(V))]
                p = [u[(r, "Holes", i)] for i in range(len(V))]
                nm["PotentialNodeCharge"] = [-Q * (b - a + x) for a, b, x in zip(n, p, N)]
                nm["USRH"] = [(a * b - NI * NI) / (TAU * (a + NI) + TAU * (b + NI)) for a, b in zip(n, p)]
                nm["ElectronGeneration"] = [-Q * x for x in nm["USRH"]]
                nm["HoleGeneration"] = [Q * x for x in nm["USRH"]]
                nm["NCharge"] = [-Q * x for x in n]
                nm["PCharge"] = [Q * x for x in p]
                em["vdiff"] = [(V[a] - V[b]) / Vt for a, b in E]
                em["Bern01"] = [bern(x) for x in em["vdiff"]]
                if self.mob:
                    me, mh = self.mob
                elif self.cfg.get("mu") == "model":
                    me = [400 + 3 * V[a] - 2 * V[b] + 1e-16 * n[a] for a, b in E]
                    mh = [200 + V[a] * V[b] + 1e-17 * p[b] for a, b in E]
                    em["mue"], em["muh"] = me, mh
                else:
                    me, mh = [Dual(MUN)] * len(E), [Dual(MUP)] * len(E)
                # electrons drift and diffuse towards n0 where n1 is larger: B(x) + x = B(-x)
                em["ElectronCurrent"] = [Q * m * Vt / L * (n[b] * (B + x) - n[a] * B) for (a, b), m, L, x, B in zip(E, me, self.L[r], em["vdiff"], em["Bern01"])]
                em["HoleCurrent"] = [-Q * m * Vt / L * (p[b] * B - p[a] * (B + x)) for (a, b), m, L, x, B in zip(E, mh, self.L[r], em["vdiff"], em["Bern01"])]
        return nm, em

    def reference(self):
        """{(region, equation, node) or contact: Dual} static and dynamic; contact sums"""
        F, Qd = {}, {}
        sums = {}

        def add(t, k, v):
            t[k] = t[k] + v if k in t else v + 0.0
        mod = {r: self.models(r) for r in self.mats}
        con_of = {(r, i): c for c, r in self.cons.items() for i in self.con_nodes[c]}
        rs = list(self.mats)
        both = len(rs) == 2

        def row(r, v, i):
            """where the bulk equation of a node is assembled"""
            if both and r == rs[1] and i in self.inter and (v == "Potential" or all(v in self.vars(x) for x in rs)):
                return (rs[0], v, self.inter[i])
            return (r, v, i)
        dead = {(r, v, i) for (r, i) in con_of for v in self.vars(r)}
        for r in self.mats:
            nm, em = mod[r]
            parts = {"Potential": ("PotentialEdgeFlux", None, None)}
            if self.mats[r] == "Si":
                parts["Potential"] = ("PotentialEdgeFlux", "PotentialNodeCharge" if self.stage == "dd" else "PotentialIntrinsicCharge", None)
                if self.stage == "dd":
                    parts["Electrons"] = ("ElectronCurrent", "ElectronGeneration", "NCharge")
                    parts["Holes"] = ("HoleCurrent", "HoleGeneration", "PCharge")
            for v, (e, n, t) in parts.items():
                if v == "Electrons" and self.elem:
                    terms = self.elem
                else:
                    terms = [(a, b, self.cpl[r][k] * em[e][k]) for k, (a, b) in enumerate(self.edges[r])]
                for a, b, x in terms:
                    for i, s in ((a, 1.0), (b, -1.0)):
                        if (r, v, i) not in dead:
                            add(F, row(r, v, i), s * x)
                for i in range(len(self.x[r])):
                    if (r, v, i) not in dead:
                        if n:
                            add(F, row(r, v, i), self.vol[r][i] * nm[n][i])
                        if t:
                            add(Qd, row(r, v, i), self.vol[r][i] * nm[t][i])
        for c, r in self.cons.items():
            nm, em = mod[r]
            for i in self.con_nodes[c]:
                V = self.u[(r, "Potential", i)]
                if self.mats[r] == "Si":
                    N = self.N[r][i]
                    w = self.vol[r][i]         # contact conditions are weighted by the node volume
                    add(F, (r, "Potential", i), w * (V - self.u[c]) + w * (-self.Vt * math.log(celec(N) / NI) if N > 0 else self.Vt * math.log(chole(N) / NI)))
                    if self.stage == "dd":
                        add(F, (r, "Electrons", i), w * self.u[(r, "Electrons", i)] - w * (celec(N) if N > 0 else NI * NI / chole(N)))
                        add(F, (r, "Holes", i), w * self.u[(r, "Holes", i)] - w * (chole(N) if N < 0 else NI * NI / celec(N)))
                else:
                    add(F, (r, "Potential", i), self.vol[r][i] * (V - self.u[c]))
            on = set(self.con_nodes[c])

            def flux(e):
                s = Dual(0.0)
                if e == "ElectronCurrent" and self.elem:
                    terms = self.elem
                else:
                    terms = [(a, b, self.cpl[r][k] * em[e][k]) for k, (a, b) in enumerate(self.edges[r])]
                for a, b, x in terms:
                    if a in on and b in on:
                        continue
                    if a in on:
                        s = s + x
                    if b in on:
                        s = s - x
                return s
            sums[(c, PE)] = (Dual(0.0), flux("PotentialEdgeFlux"))
            if self.mats[r] == "Si" and self.stage == "dd":
                sums[(c, ECE)] = (flux("ElectronCurrent"), Dual(0.0))
                sums[(c, HCE)] = (flux("HoleCurrent"), Dual(0.0))
            if c in self.circ:
                for (cc, q), (cur, chg) in sums.items():
                    if cc == c:
                        add(F, c, cur)
                        add(Qd, c, chg)
                add(F, c, self.u[c] * 0.5)
        if both:
            for i1, i0 in self.inter.items():
                for v in self.vars(rs[1]):
                    if v == "Potential" or v in self.vars(rs[0]):
                        F.pop((rs[1], v, i1), None)
                        F[(rs[1], v, i1)] = self.u[(rs[0], v, i0)] - self.u[(rs[1], v, i1)]
        return mod, F, Qd, sums

    def numbers(self):
        R = {}
        for r in self.mats:
            for v in self.vars(r):
                for i, x in enumerate(d.get_equation_numbers(device="D", region=r, variable=v)):
                    R[(r, v, i)] = x
        for c in self.circ:
            R[c] = d.get_circuit_equation_number(node=sp.GetContactBiasName(c))
        return R

    # ---- comparison ----------------------------------------------------------------------------
    def compare(self, level=2):
        """None or (key, text)"""
        mod, F, Qd, sums = self.reference()
        for r in self.mats if level > 1 else ():
            for nodes, ref in ((True, mod[r][0]), (False, mod[r][1])):
                get = d.get_node_model_values if nodes else d.get_edge_model_values
                have = d.get_node_model_list(device="D", region=r) if nodes else d.get_edge_model_list(device="D", region=r)
                for m, want in ref.items():
                    got = list(get(device="D", region=r, name=m))
                    bad = near(got, [x.v for x in want], [x.s for x in want])
                    if bad is not None:
                        return "model", "%s in %s at %d is %r, should be %r" % (m, r, bad, got[bad], want[bad].v)
                    for v in self.vars(r):
                        for s in ((None,) if nodes else (0, 1)):
                            n = "%s:%s" % (m, v) + ("" if nodes else "@n%d" % s)
                            w, ws = [], []
                            for i, x in enumerate(want):
                                k = (r, v, i if nodes else self.edges[r][i][s])
                                w.append(x.d.get(k, 0.0))
                                ws.append(x.ds.get(k, 0.0))
                            if n in have:
                                got = list(get(device="D", region=r, name=n))
                                bad = near(got, w, ws)
                                if bad is not None:
                                    return "derivative", "%s in %s at %d is %r, should be %r" % (n, r, bad, got[bad], w[bad])
                            elif any(w) and m not in ("mue", "muh"):
                                return "derivative", "%s in %s is missing" % (n, r)
        m = d.get_matrix_and_rhs(format="csc")
        R = self.numbers()
        n = len(m["static"]["rhs"])
        for t, ref in (("static", F), ("dynamic", Qd)):
            rhs, a, ap, ai = m[t]["rhs"], m[t]["av"], m[t]["ap"], m[t]["ai"]
            J = {}
            for j in range(n):
                for k in range(ap[j], ap[j + 1]):
                    J[(ai[k], j)] = J.get((ai[k], j), 0.0) + a[k]
            W = {}
            for k, x in ref.items():
                if t == "dynamic" and k in F and k not in Qd:
                    continue
                if near([-rhs[R[k]]], [x.v], [x.s]) is not None:
                    return t + "-residual", "%s residual of %s is %r, should be %r" % (t, k, -rhs[R[k]], x.v)
                sc = max([abs(y) for y in x.ds.values()] or [0.0])
                for u in set(x.d) | set(x.ds):
                    W[(R[k], R[u])] = (x.d.get(u, 0.0), x.ds.get(u, 0.0), k, u)
            for k in set(R) - set(ref):
                if rhs[R[k]] != 0.0:
                    return t + "-residual", "%s residual of %s is %r, should be 0" % (t, k, -rhs[R[k]])
            for key in set(J) | set(W):
                w, s, k, u = W.get(key, (0.0, 0.0, key[0], key[1]))
                if near([J.get(key, 0.0)], [w], [s]) is not None:
                    return t + "-matrix", "%s matrix entry of %s with respect to %s is %r, should be %r" % (t, k, u, J.get(key, 0.0), w)
        return self.contacts(sums, 1e-7) if self.solved else None

    def contacts(self, sums, tol):
        for (c, q), (cur, chg) in sums.items():
            g = d.get_contact_current(device="D", contact=c, equation=q)
            h = d.get_contact_charge(device="D", contact=c, equation=q)
            if near([g], [cur.v], [cur.s], tol) is not None or near([h], [chg.v], [chg.s], tol) is not None:
                return "contact", "%s of %s: current %r charge %r, should be %r and %r" % (q, c, g, h, cur.v, chg.v)
        return None

    def iterate(self):
        """one Newton step: contact currents and charges are evaluated for the state it ends in"""
        d.solve(type="dc", absolute_error=1e300, relative_error=1e300, charge_error=1e300, maximum_iterations=1)
        self.u = {c: x for c, x in self.u.items() if c in self.cons}
        for r in self.mats:
            for v in self.vars(r):
                for i, y in enumerate(vals(r, v)):
                    self.u[(r, v, i)] = Dual(y, {(r, v, i): 1.0})
        for c in self.circ:
            self.u[c] = Dual(d.get_circuit_node_value(node=sp.GetContactBiasName(c), solution="dcop"), {c: 1.0})

    def step(self):
        self.iterate()
        return self.contacts(self.reference()[3], 1e-7)

    solved = False
    mob = elem = None               # mobilities of the edges, electron flux through the edges of triangles


TOL = [3e-9]


def near(got, want, scale, tol=None):
    tol = tol or TOL[0]
    for i, (g, w, s) in enumerate(zip(got, want, scale)):
        if not abs(g - w) <= tol * abs(w) + 1e-12 * s:
            return i
    return None if len(got) == len(want) else -1


PTS = [(-0.3, 1e3, 1e17), (0.0, 1e10, 1e10), (0.0, 2e15, 3e11), (0.35, 1e16, 1e4), (1e-7, 3e15, 5e15)]
BIAS = [(0.0, 0.0), (0.25, -0.5)]


def work_states(item):
    cfg, sts = item
    w = World(cfg)
    for st in sts:
        w.setstate(st)
        r = w.compare()
        ctx.count(states=1, transitions=1)
        if r:
            ctx.violation("state:%s:%s" % (r[0], vc.digest((cfg, st))), "%s in state %s: %s" % (cfg, st, r[1]))
            return


# ---- mobility ----------------------------------------------------------------------------------
KP = {"mu_min_e": 52.2, "mu_max_e": 1417, "theta1_e": 2.285, "m_e": 1.0, "f_BH": 3.828, "f_CW": 2.459, "c_D": 0.21, "Nref_D": 4.0e20,
      "Nref_1_e": 9.68e16, "alpha_1_e": 0.68, "mu_min_h": 44.9, "mu_max_h": 470.5, "theta1_h": 2.247, "m_h": 1.258, "c_A": 0.50,
      "Nref_A": 7.2e20, "Nref_1_h": 2.2e17, "alpha_1_h": 0.719, "r1": 0.7643, "r2": 2.2999, "r3": 6.5502, "r4": 2.3670, "r5": -0.01552,
      "r6": 0.6478, "s1": 0.892333, "s2": 0.41372, "s3": 0.19778, "s4": 0.28227, "s5": 0.005978, "s6": 1.80618, "s7": 0.72169,
      "vsat_e": 1.0e7, "vsat_h": 1.0e7, "alpha_e": 6.85e-21, "alpha_h": 7.82e-21, "A_e": 2.58, "A_h": 2.18, "B_e": 3.61e7, "B_h": 1.51e7,
      "C_e": 1.70e4, "C_h": 4.18e3, "kappa_e": 1.7, "kappa_h": 0.9, "tau_e": 0.0233, "tau_h": 0.0119, "eta_e": 0.0767, "eta_h": 0.123,
      "delta_e": 3.58e18, "delta_h": 4.10e15}


def klaassen(n, p, ND, NA, T):
    """the unified mobility of both carriers from densities and dopings; returns the quantities by name"""
    k, t, o = KP, T / 300.0, {}
    c = n + p
    o["Z_D"] = 1 + 1 / (k["c_D"] + (k["Nref_D"] / ND) ** 2)
    o["Z_A"] = 1 + 1 / (k["c_A"] + (k["Nref_A"] / NA) ** 2)
    o["N_D"], o["N_A"] = o["Z_D"] * ND, o["Z_A"] * NA
    for s, own, other, minority, Z, Nsame, Nopp in (("e", "e", "h", p, o["Z_D"], o["N_D"], o["N_A"]), ("h", "h", "e", n, o["Z_A"], o["N_A"], o["N_D"])):
        mx_, mn_, al = k["mu_max_" + s], k["mu_min_" + s], k["alpha_1_" + s]
        m, mo = k["m_" + own], k["m_" + other]
        o["mu_L_" + s] = Dual(mx_ * (1 / t) ** k["theta1_" + s])
        o["mu_%s_N" % s] = Dual(mx_ * mx_ / (mx_ - mn_) * t ** (3 * al - 1.5))
        o["mu_%s_c" % s] = Dual(mn_ * mx_ / (mx_ - mn_) * (1 / t) ** 0.5)
        o["PBH_" + s] = 1.36e20 / c * (m * t * t)
        sc = Nsame + Nopp + minority
        o["N_%s_sc" % s] = sc
        o["PCW_" + s] = 3.97e13 * pw((t / Z) ** 3 / sc, 2.0 / 3.0)
        P = 1 / (k["f_CW"] / o["PCW_" + s] + k["f_BH"] / o["PBH_" + s])
        o["P" + s] = P
        o["G_P" + s] = 1 - k["s1"] / pw(k["s2"] + (t / m) ** k["s4"] * P, k["s3"]) + k["s5"] / pw((m / t) ** k["s7"] * P, k["s6"])
        P6 = pw(P, k["r6"])
        o["F_P" + s] = (k["r1"] * P6 + k["r2"] + k["r3"] * m / mo) / (P6 + k["r4"] + k["r5"] * m / mo)
        eff = Nsame + o["G_P" + s] * Nopp + minority / o["F_P" + s]
        o["N_%s_sc_eff" % s] = eff
        d1 = o["mu_%s_N" % s] * sc / eff * pw(k["Nref_1_" + s] / sc, al) + o["mu_%s_c" % s] * (c / eff)
        o["mu_%s_D_A_%s" % (s, other)] = d1
        o["mu_bulk_%s_Node" % s] = 1 / (1 / d1 + 1 / o["mu_L_" + s])
    return {q: (x if isinstance(x, Dual) else Dual(x)) for q, x in o.items()}


def cmpmodel(get, have, name, want, dirs, r):
    """dirs: {suffix: directions per item}"""
    if name not in have:
        return "model", "%s in %s is missing" % (name, r)
    got = list(get(device="D", region=r, name=name))
    bad = near(got, [x.v for x in want], [x.s for x in want])
    if bad is not None:
        return "model", "%s in %s at %d is %r, should be %r" % (name, r, bad, got[bad], want[bad].v)
    for suf, ks in dirs.items():
        w = [x.d.get(k, 0.0) for x, k in zip(want, ks)]
        ws = [x.ds.get(k, 0.0) for x, k in zip(want, ks)]
        if name + suf in have:
            got = list(get(device="D", region=r, name=name + suf))
            bad = near(got, w, ws)
            if bad is not None:
                return "derivative", "%s in %s at %d is %r, should be %r" % (name + suf, r, bad, got[bad], w[bad])
        elif any(w):
            return "derivative", "%s in %s is missing" % (name + suf, r)
    return None


class Mobility:
    """a silicon region with the unified bulk mobility, velocity saturation and surface mobility on triangles"""
    def __init__(self, cfg):
        self.w = w = World.__new__(World)
        w.cfg = dict(cfg, stage="pot")
        w.solved = False
        self.T = T = cfg["T"]
        lay = cfg["lay"]
        d.reset_devsim()
        if lay == "chain":
            w.lay = "chain"
            w.mats, w.cons = {"R": "Si"}, {}
            n = cfg["n"]
            devs.gmsh("D", [(U * i,) for i in range(n)], {"R": [(i, i + 1) for i in range(n - 1)]}, {"c0": ("R", [(0,)]), "c1": ("R", [(n - 1,)])})
        else:
            w.lay = lay
            w.mats, w.cons = LAY[lay]
            mesh(lay)
        w.stage, w.T, w.Vt, w.circ, w.bias = "dd", T, K * T / Q, (), {}
        w.geometry()
        self.r = r = next(x for x, m in w.mats.items() if m == "Si")
        for x, m in w.mats.items():
            (sp.SetSiliconParameters if m == "Si" else sp.SetOxideParameters)("D", x, T)
        for v in EQ:
            mc.CreateSolution("D", r, v)
        for v in ("Donors", "Acceptors", "NetDoping"):
            d.node_solution(device="D", region=r, name=v)
        kl.Set_Mobility_Parameters("D", r)
        kl.Klaassen_Mobility("D", r)
        self.tri = lay != "chain"
        if self.tri:
            self.devices()

    def devices(self):
        w, r = self.w, self.r
        w.u0 = {}
        for x, m in w.mats.items():
            if m != "Si":
                sp.CreateOxidePotentialOnly("D", x)
        sp.CreateSiliconPotentialOnly("D", r)
        for c in w.cons:
            d.set_parameter(device="D", name=sp.GetContactBiasName(c), value=0.25)
            w.u0[c] = Dual(0.25)
            if w.cons[c] == r:
                sp.CreateSiliconPotentialOnlyContact("D", r, c)
            else:
                sp.CreateOxideContact("D", w.cons[c], c)
        if len(w.mats) == 2:
            sp.CreateSiliconOxideInterface("D", "i0")
        sp.CreateSiliconDriftDiffusion("D", r, "mu_bulk_e", "mu_bulk_h")
        for c in w.cons:
            if w.cons[c] == r:
                sp.CreateSiliconDriftDiffusionAtContact("D", r, c)
        for j in ("ElectronCurrent", "HoleCurrent"):
            mp.CreateNormalElectricFieldFromCurrentFlow("D", r, j)
        kl.Philips_Surface_Mobility("D", r, "Enormal_ElectronCurrent", "Enormal_HoleCurrent")
        kl.Philips_VelocitySaturation("D", r, "mu_vsat_e", "mu_e_0", "Eparallel_ElectronCurrent", "vsat_e")
        kl.Philips_VelocitySaturation("D", r, "mu_vsat_h", "mu_h_0", "Eparallel_HoleCurrent", "vsat_h")
        mp.CreateElementElectronCurrent2d("D", r, "ElementElectronCurrent", "mu_vsat_e")
        mp.CreateElementHoleCurrent2d("D", r, "ElementHoleCurrent", "mu_vsat_h")
        if self.w.cfg.get("eq"):
            mp.CreateElementElectronContinuityEquation("D", r, "ElementElectronCurrent")
            for c in w.cons:
                if w.cons[c] == r:
                    mp.CreateElementContactElectronContinuityEquation("D", c, "ElementElectronCurrent")
        if len(w.mats) == 2:
            d.interface_normal_model(device="D", region=r, interface="i0")
            mp.CreateNormalElectricFieldFromInterfaceNormal("D", r, "i0")
        # node of each corner of each element edge, and the edge it lies on
        d.element_from_node_model(device="D", region=r, node_model="node_index")
        en = [[int(x) for x in d.get_element_model_values(device="D", region=r, name="node_index@en%d" % i)] for i in (0, 1, 2)]
        self.en = list(zip(*en))
        idx = {e: i for i, e in enumerate(w.edges[r])}
        self.ee = [idx[(a, b)] for a, b, _ in self.en]

    def set(self, st):
        """st: (V, n, p, ND, NA) per node, cycled"""
        w, r = self.w, self.r
        it = itertools.cycle(st)
        tr = [next(it) for _ in w.x[r]]
        for k, v in enumerate(("Potential", "Electrons", "Holes", "Donors", "Acceptors")):
            d.set_node_values(device="D", region=r, name=v, values=[t[k] for t in tr])
        d.set_node_values(device="D", region=r, name="NetDoping", values=[t[3] - t[4] for t in tr])
        w.u = {(r, v, i): Dual(t[k], {(r, v, i): 1.0}) for i, t in enumerate(tr) for k, v in enumerate(("Potential", "Electrons", "Holes"))}
        w.u.update(getattr(w, "u0", {}))
        w.N = {r: [t[3] - t[4] for t in tr]}
        self.tr = tr
        for x in w.mats:
            if x != r:
                vv = [next(it)[0] for _ in w.x[x]]
                d.set_node_values(device="D", region=x, name="Potential", values=vv)
                w.u.update({(x, "Potential", i): Dual(v, {(x, "Potential", i): 1.0}) for i, v in enumerate(vv)})

    def compare(self, step=True):
        w, r = self.w, self.r
        have = d.get_node_model_list(device="D", region=r)
        ehave = d.get_edge_model_list(device="D", region=r)
        nodes = range(len(w.x[r]))
        ref = [klaassen(w.u[(r, "Electrons", i)], w.u[(r, "Holes", i)], self.tr[i][3], self.tr[i][4], self.T) for i in nodes]
        nd = {":" + v: [(r, v, i) for i in nodes] for v in ("Electrons", "Holes")}
        for q in ref[0]:
            bad = cmpmodel(d.get_node_model_values, have, q, [x[q] for x in ref], nd, r)
            if bad:
                return bad
        ed = {":%s@n%d" % (v, s): [(r, v, e[s]) for e in w.edges[r]] for v in EQ for s in (0, 1)}
        E = {}
        for s in ("e", "h"):
            q = "mu_bulk_" + s
            E[q] = [pw(ref[a][q + "_Node"], 0.5) * pw(ref[b][q + "_Node"], 0.5) for a, b in w.edges[r]]
            bad = cmpmodel(d.get_edge_model_values, ehave, q, E[q], ed, r)
            if bad:
                return bad
        if not self.tri:
            return None
        # quantities on the edges of the triangles
        have = d.get_element_model_list(device="D", region=r)
        get = d.get_element_model_values
        el = {":%s@en%d" % (v, s): [(r, v, x[s]) for x in self.en] for v in EQ for s in (0, 1, 2)}
        pot = {k: v for k, v in el.items() if k.startswith(":Potential")}

        def take(name):
            """reported element quantity as duals"""
            v = list(get(device="D", region=r, name=name))
            o = [Dual(x) for x in v]
            for suf, ks in el.items():
                if name + suf in have:
                    for x, y, k in zip(o, get(device="D", region=r, name=name + suf), ks):
                        x.d[k] = x.d.get(k, 0.0) + y
                        x.ds[k] = x.ds.get(k, 0.0) + abs(y)
            return o
        only = lambda x: Dual(x.v, {k: y for k, y in x.d.items() if k[1] == "Potential"}, x.s, {k: y for k, y in x.ds.items() if k[1] == "Potential"})
        k = KP
        NI_e = [math.sqrt((ref[a]["N_D"].v + ref[a]["N_A"].v) * (ref[b]["N_D"].v + ref[b]["N_A"].v)) for a, b in w.edges[r]]
        B = {}
        for s, j, sat in (("e", "ElectronCurrent", "vsat_e"), ("h", "HoleCurrent", "vsat_h")):
            jx, jy = take(j + "_x"), take(j + "_y")
            ex, ey = take("ElectricField_x"), take("ElectricField_y")
            sq = lambda a, b: pw(a * a + b * b + 1e-300, 0.5)
            jm = [sq(a, b) for a, b in zip(jx, jy)]
            B[j + "_mag"] = (jm, el)
            nx, ny = [a / m for a, m in zip(jx, jm)], [a / m for a, m in zip(jy, jm)]
            B[j + "_norm_x"], B[j + "_norm_y"] = (nx, el), (ny, el)
            epar = [only(a * x + b * y) for a, b, x, y in zip(nx, ny, ex, ey)]
            B["Eparallel_" + j] = (epar, el)
            em = [only(sq(a, b)) for a, b in zip(ex, ey)]
            B["ElectricField_mag"] = (em, el)
            # where the two magnitudes agree the normal component and its derivative are rounding
            if any(abs(m.v) < 1e-300 or m.v * m.v - p_.v * p_.v < 1e-4 * m.v * m.v for m, p_ in zip(em, epar)):
                return "skip", ""
            enr = [pw(a * a - b * b, 0.5) for a, b in zip(em, epar)]
            B["Enormal_" + j] = (enr, el)
            clip = [mx(x, 1e2) for x in enr]
            tp = (self.T / 300.0) ** k["kappa_" + s]
            ac = [k["B_" + s] / x + k["C_" + s] * NI_e[e] ** k["tau_" + s] * pw(x, -1.0 / 3.0) / tp for x, e in zip(clip, self.ee)]
            B["mu_ac_" + s] = (ac, el)
            gn = [k["A_" + s] + k["alpha_" + s] * (w.u[(r, "Electrons", i)] + w.u[(r, "Holes", i)]) * (ref[i]["N_D"].v + ref[i]["N_A"].v) ** -k["eta_" + s] for i in nodes]
            bad = cmpmodel(d.get_node_model_values, d.get_node_model_list(device="D", region=r), "gamma_%s_Node" % s, gn, nd, r)
            if bad:
                return bad
            gam = [pw(gn[a], 0.5) * pw(gn[b], 0.5) for a, b in w.edges[r]]
            bad = cmpmodel(d.get_edge_model_values, ehave, "gamma_" + s, gam, ed, r)
            if bad:
                return bad
            sr = [k["delta_" + s] * pw(x, -gam[e]) for x, e in zip(clip, self.ee)]
            B["mu_sr_" + s] = (sr, el)
            mb = [E["mu_bulk_" + s][e] for e in self.ee]
            m0 = [1 / (1 / a + 1 / b + 1 / c) for a, b, c in zip(mb, ac, sr)]
            B["mu_%s_0" % s] = (m0, el)
            vs = [2 * m / (1 + pw(1 + 4 * pw(mx(m * x, 0.0) / k[sat], 2.0), 0.5)) if (m * x).v > 0 else m for m, x in zip(m0, epar)]
            B["mu_vsat_" + s] = (vs, el)
            self.mu = getattr(self, "mu", {})
            self.mu[s] = vs
        V = {v: [w.u[(r, v, i)] for i in nodes] for v in EQ}
        L = w.L[r]
        vd = [(V["Potential"][a] - V["Potential"][b]) / w.Vt for a, b in w.edges[r]]
        bn = [bern(x) for x in vd]
        jn, jp = [], []
        for (a, b, _), e, me, mh in zip(self.en, self.ee, self.mu["e"], self.mu["h"]):
            n, p = V["Electrons"], V["Holes"]
            jn.append(Q * w.Vt / L[e] * me * (n[b] * (bn[e] + vd[e]) - n[a] * bn[e]))
            jp.append(-Q * w.Vt / L[e] * mh * (p[b] * bn[e] - p[a] * (bn[e] + vd[e])))
        B["ElementElectronCurrent"], B["ElementHoleCurrent"] = (jn, el), (jp, el)
        if "Enormal" in have:
            c = [list(d.get_edge_model_values(device="D", region=r, name="i0_normal_" + z)) for z in "xy"]
            c = [[z[e] for e in self.ee] for z in c]
            B["Enormal"] = ([only(cx * x + cy * y) for cx, cy, x, y in zip(c[0], c[1], ex, ey)], el)
        for q, (want, dirs) in B.items():
            bad = cmpmodel(get, have, q, want, dirs, r)
            if bad:
                return bad
        w.mob = E["mu_bulk_e"], E["mu_bulk_h"]
        if w.cfg.get("eq"):
            ec = list(get(device="D", region=r, name="ElementEdgeCouple"))
            w.elem = [(a, b, c * j) for (a, b, _), c, j in zip(self.en, ec, jn)]
        if not step:
            return w.contacts(w.reference()[3], 1e-7)
        bad = w.compare()
        if bad or not w.cfg.get("eq"):
            return bad
        w.iterate()
        # the quantities of the state reached
        tr = list(zip(*[vals(r, v) for v in EQ]))
        self.tr = [x + y[3:] for x, y in zip(tr, self.tr)]
        try:
            bad = self.compare(False)
        except (ZeroDivisionError, OverflowError):
            ctx.count(skipped=1)        # the step ended beyond the range of the formulas
            return None
        return None if bad and bad[0] == "skip" else bad


# ---- histories of solves -----------------------------------------------------------------------
STEPS = [("c0", 0.1), ("c0", -0.2), ("c1", 0.1), ("c1", 0.0), ("both", 0.05)]


class History:
    """solve for the potential, start the carriers from it, solve for all, then step the biases"""
    def __init__(self, cfg):
        self.cfg = cfg
        self.w = w = World(dict(cfg, stage="pot"))
        w.cfg["mu"] = cfg.get("mu", "const")
        w.solved = True
        self.b = {c: 0.0 for c in w.cons if c not in w.circ}
        self.solve()
        bad = self.look()
        if bad:
            raise Wrong(*bad)
        for r, m in w.mats.items():
            if m == "Si":
                for v, i in (("Electrons", "IntrinsicElectrons"), ("Holes", "IntrinsicHoles")):
                    mc.CreateSolution("D", r, v)
                    d.set_node_values(device="D", region=r, name=v, init_from=i)
        w.stage = "dd"
        w.dd(create=False)
        self.solve()
        self.first = self.save()

    def solve(self):
        for _ in range(2):
            d.solve(type="dc", absolute_error=1e10, relative_error=1e-11, maximum_iterations=60)

    def save(self):
        w = self.w
        return ({(r, v): vals(r, v) for r in w.mats for v in w.vars(r)}, {c: d.get_circuit_node_value(node=sp.GetContactBiasName(c), solution="dcop") for c in w.circ}, dict(self.b))

    def restore(self, s):
        for (r, v), x in s[0].items():
            d.set_node_values(device="D", region=r, name=v, values=x)
        for c, x in s[1].items():
            d.set_circuit_node_value(node=sp.GetContactBiasName(c), solution="dcop", value=x)
        self.bias(s[2])

    def bias(self, b):
        self.b = dict(b)
        for c, x in b.items():
            d.set_parameter(device="D", name=sp.GetContactBiasName(c), value=x)

    def step(self, op):
        b = dict(self.b)
        for c in b:
            if op[0] in (c, "both"):
                b[c] = op[1] if op[0] == c else b[c] + op[1]
        self.bias(b)
        self.solve()

    def look(self):
        """compare with the reference in the state reached"""
        w = self.w
        w.u = {}
        st = self.save()
        for (r, v), x in st[0].items():
            for i, y in enumerate(x):
                w.u[(r, v, i)] = Dual(y, {(r, v, i): 1.0})
        for c, y in st[1].items():
            w.u[c] = Dual(y, {c: 1.0})
        for c, y in self.b.items():
            w.u[c] = Dual(y)
        bad = w.compare()
        if bad:
            return bad
        mod, F, Qd, sums = w.reference()
        for k, x in F.items():
            if abs(x.v) > 1e-9 * x.s + 1e-10 * sum(y for q, y in x.ds.items() if q == k[0] or q[1] == "Potential"):
                return "unsolved", "the residual of %s is %r after the solve, its terms are %r" % (k, x.v, x.s)
        if w.stage == "dd":
            tot = sum(d.get_contact_current(device="D", contact=c, equation=q) for (c, q) in sums if q != PE)
            big = max(x.s for (c, q), (x, _) in sums.items() if q != PE)
            if abs(tot) > 1e-9 * big + 1e-40:
                return "conservation", "the contact currents add up to %r, their terms are %r" % (tot, big)
            if len({round(x.v, 12) for x in (w.u[c] for c in w.cons)}) == 1 and not w.circ:
                for r, m in w.mats.items():
                    if m == "Si":
                        for i in range(len(w.x[r])):
                            n, p = w.u[(r, "Electrons", i)].v, w.u[(r, "Holes", i)].v
                            # rounding of the majority carriers shows in few minority carriers
                            if min(n, p) > 1e5 and abs(n * p / NI ** 2 - 1) > 2e-2:
                                return "equilibrium", "np/ni^2 is %r at node %d of %s without bias" % (n * p / NI ** 2, i, r)
            for c, r in w.cons.items():
                if c in self.b and w.mats[r] == "Si":
                    je, jh = (d.get_contact_current(device="D", contact=c, equation=q) for q in (ECE, HCE))
                    so, sys.stdout = sys.stdout, io.StringIO()
                    try:
                        sp.PrintCurrents("D", c)
                        txt = sys.stdout.getvalue()
                    finally:
                        sys.stdout = so
                    f = txt.split()
                    if len(f) != 5 or f[0] != c or [float(x) for x in f[1:]] != [self.b[c], je, jh, je + jh]:
                        return "print", "PrintCurrents of %s printed %r for %r" % (c, txt, (self.b[c], je, jh, je + jh))
        return None

    def same(self, a, b):
        for k in a[0]:
            for i, (x, y) in enumerate(zip(a[0][k], b[0][k])):
                if abs(x - y) > (1e-6 if k[1] == "Potential" else 1e-3 * max(abs(x), abs(y)) + 1e5):
                    return "%s of node %d of %s is %r and %r" % (k[1], i, k[0], x, y)
        return None


class Wrong(Exception):
    pass


# ---- helpers of model_create -------------------------------------------------------------------
def helpers(cfg):
    """the currents can be asked for as soon as the solutions exist, in every order of the requests"""
    import devsim as _d
    out = 0
    for order in itertools.permutations(("B", "E", "H")):
        for pre in itertools.product((False, True), repeat=3):
            w = World.__new__(World)
            w.cfg, w.lay, w.T, w.stage, w.circ = {"lay": cfg["lay"]}, cfg["lay"], 300.0, "dd", ()
            w.Vt = K * 300.0 / Q
            w.mats, w.cons = LAY[cfg["lay"]]
            d.reset_devsim()
            mesh(cfg["lay"])
            w.geometry()
            for r in w.mats:
                sp.SetSiliconParameters("D", r, 300.0)
                for v, p in zip(EQ, pre):
                    d.node_solution(device="D", region=r, name=v)
                    if p:
                        d.edge_from_node_model(device="D", region=r, node_model=v)
                for o in order:
                    {"B": sdd.CreateBernoulli, "E": lambda a, b: sdd.CreateElectronCurrent(a, b, "mu_n"), "H": lambda a, b: sdd.CreateHoleCurrent(a, b, "mu_p")}[o]("D", r)
            it = itertools.cycle(PTS)
            w.u, w.N = {}, {}
            for r in w.mats:
                tr = [next(it) for _ in w.x[r]]
                w.N[r] = [0.0] * len(tr)
                for k, v in enumerate(EQ):
                    d.set_node_values(device="D", region=r, name=v, values=[t[k] for t in tr])
                    for i, t in enumerate(tr):
                        w.u[(r, v, i)] = Dual(t[k], {(r, v, i): 1.0})
            for r in w.mats:
                em = w.models(r)[1]
                have = d.get_edge_model_list(device="D", region=r)
                ed = {":%s@n%d" % (v, s): [(r, v, e[s]) for e in w.edges[r]] for v in EQ for s in (0, 1)}
                for q in ("vdiff", "Bern01", "ElectronCurrent", "HoleCurrent"):
                    bad = cmpmodel(d.get_edge_model_values, have, q, em[q], ed, r)
                    if bad:
                        return bad + (order, pre)
            out += 1
    return out


def missing(cfg):
    """what a helper needs and does not find is named in an error"""
    d.reset_devsim()
    mesh(cfg["lay"])
    r = next(iter(LAY[cfg["lay"]][0]))
    sp.SetSiliconParameters("D", r, 300.0)
    n = 0
    for have in itertools.chain.from_iterable(itertools.combinations(EQ, k) for k in range(3)):
        d.reset_devsim()
        mesh(cfg["lay"])
        sp.SetSiliconParameters("D", r, 300.0)
        for v in have:
            d.node_solution(device="D", region=r, name=v)
        for name, need, fn in (("CreateBernoulli", ("Potential",), sdd.CreateBernoulli), ("CreateElectronCurrent", tuple(EQ), lambda a, b: sdd.CreateElectronCurrent(a, b, "mu_n")),
                               ("CreateHoleCurrent", ("Potential", "Holes"), lambda a, b: sdd.CreateHoleCurrent(a, b, "mu_p"))):
            lack = [v for v in need if v not in have]
            n += 1
            try:
                fn("D", r)
            except Exception as e:
                if not lack:
                    return "missing", "%s fails with %s: %s though it has %s" % (name, type(e).__name__, e, have)
                if not any(v in str(e) for v in lack):
                    return "missing", "%s without %s fails with %s: %s" % (name, lack, type(e).__name__, str(e)[:100])
            else:
                if lack:
                    return "missing", "%s is satisfied without %s" % (name, lack)
    return n


def parameters(T):
    want = {"Permittivity": ESI * EPS0, "ElectronCharge": Q, "n_i": NI, "T": T, "kT": K * T, "V_t": K * T / Q, "mu_n": MUN, "mu_p": MUP,
            "n1": NI, "p1": NI, "taun": TAU, "taup": TAU}
    d.reset_devsim()
    mesh("tri2")
    sp.SetSiliconParameters("D", "R0", T)
    sp.SetOxideParameters("D", "R1", T)
    kl.Set_Mobility_Parameters("D", "R0")
    want.update(KP)
    for r, w in (("R0", want), ("R1", {"Permittivity": EOX * EPS0, "ElectronCharge": Q})):
        for k, x in w.items():
            g = d.get_parameter(device="D", region=r, name=k)
            if not abs(g - x) <= 1e-14 * abs(x):
                return "parameter", "%s of %s is %r, should be %r" % (k, r, g, x)
    return len(want) + 2


# ---- enumeration -------------------------------------------------------------------------------
def report(kind, cfg, at, bad):
    ctx.violation("%s:%s:%s" % (kind, bad[0], vc.digest((cfg, at))), "%s %s: %s" % (kind, cfg, bad[1]) + (" in state %r" % (at,) if at else ""))


def near_states(n, k):
    """all assignments of the points to n nodes that differ from one point everywhere in at most k nodes"""
    for base in range(len(PTS)):
        for m in range(k + 1):
            for where in itertools.combinations(range(n), m):
                for to in itertools.product([x for x in range(len(PTS)) if x != base], repeat=m):
                    t = [base] * n
                    for i, x in zip(where, to):
                        t[i] = x
                    yield tuple(t)


def work(item):
    kind, cfg, part = item[0], dict(item[1]), item[2]
    # the quotient rule on a series of resistors loses digits where one of them dominates
    TOL[0] = 1e-6 if kind == "mobility" else 3e-9
    if kind == "state":
        w = World(cfg)
        n = sum(len(x) for x in w.x.values())
        how, i, m = part
        gen = itertools.product(range(len(PTS)), repeat=n) if how == "all" else near_states(n, how)
        for j, t in enumerate(gen):
            if j % m != i:
                continue
            for b in BIAS if ctx.thorough or how == 0 else BIAS[(j // m) % 2:][:1]:
                w.setstate(([PTS[x] for x in t], b))
                ctx.count(transitions=1)
                ctx.state("states", (item[1], t, b))
                bad = w.compare(2) or w.step()
                if bad:
                    report("state", cfg, (t, b), bad)
                    return
        ctx.count(traces=1)
    elif kind == "history":
        try:
            h = History(cfg)
        except Wrong as e:
            report("history", cfg, (), e.args)
            return
        bad = h.look()
        if bad:
            report("history", cfg, (), bad)
            return
        seen = {}

        def go(ops, depth, at):
            for op in STEPS:
                o = ops + (op,)
                ctx.note((cfg, o))
                h.restore(at)
                h.step(op)
                ctx.count(transitions=1, traces=1)
                bad = h.look()
                if bad:
                    report("history", cfg, o, bad)
                    return False
                s = h.save()
                key = tuple(sorted((c, round(x, 9)) for c, x in h.b.items()))
                ctx.state("states", (item[1], key))
                if key in seen:
                    x = h.same(seen[key], s)
                    if x:
                        report("history", cfg, o, ("path", "%s at the biases %r depending on the way there" % (x, key)))
                        return False
                seen.setdefault(key, s)
                if depth > 1 and not go(o, depth - 1, s):
                    return False
            return True
        go((), part, h.first)
    elif kind == "mobility":
        if cfg["lay"] == "chain":
            for stride in part:
                pts = [LATTICE[(k * stride) % len(LATTICE)] for k in range(len(LATTICE))]
                m = Mobility(dict(cfg, n=len(pts)))
                m.set(pts)
                bad = m.compare()
                ctx.count(transitions=len(pts), traces=1)
                for p in pts:
                    ctx.state("states", (item[1], p))
                if bad:
                    report("mobility", cfg, stride, bad)
                    return
            return
        m = Mobility(cfg)
        n = len(m.w.x[m.r])
        i, k = part
        for j, t in enumerate(itertools.product(range(len(MPTS)), repeat=n)):
            if j % k != i:
                continue
            m.set([MPTS[x] for x in t])
            ctx.count(transitions=1)
            bad = m.compare()
            if bad and bad[0] == "skip":
                ctx.count(skipped=1)
                continue
            ctx.state("states", (item[1], t))
            if bad:
                report("mobility", cfg, t, bad)
                return
        ctx.count(traces=1)
    else:
        r = {"helpers": helpers, "missing": missing}[kind](cfg) if kind != "parameters" else parameters(cfg["T"])
        if isinstance(r, tuple):
            report(kind, cfg, r[2:], r)
        else:
            ctx.count(transitions=r, traces=1)


LATTICE = [(0.0, n, p, D, A) for D in (1e12, 1e15, 1e17, 1e19, 1e20) for A in (1e12, 1e15, 1e17, 1e19, 1e20) for n in (1e2, 1e8, 1e14, 1e17, 1e20) for p in (1e2, 1e8, 1e14, 1e17, 1e20)]
MPTS = [(0.0, 1e10, 1e12, 1e17, 1e14), (0.3, 1e16, 1e4, 1e14, 1e17), (-0.2, 1e4, 1e15, 1e16, 1e19), (0.11, 3e17, 2e13, 1e15, 1e13), (2.5, 1e11, 1e13, 1e12, 1e15)]


def items(th):
    I = lambda **k: tuple(sorted(k.items()))
    out = []
    si = {l: tuple(c for c, r in LAY[l][1].items() if LAY[l][0][r] == "Si") for l in LAY}
    circs = lambda l: [()] + [si[l][:1]] + ([si[l]] if len(si[l]) > 1 else [])
    D3 = [(1e16, -1e16, 0.0), (0.0, 2e17, -3e15), (-1e18, 1e14, 1e18)]
    # every doping of the line
    for dop in itertools.product((1e16, 0.0, -1e18), repeat=3):
        for T in (250.0, 300.0, 400.0):
            for c in circs("line"):
                for stage in ("pot", "dd"):
                    if not th and T != 300.0 and (c or stage == "pot"):
                        continue
                    out.append(("state", I(lay="line", circ=c, stage=stage, mu="const", T=T, dop=dop), (2 if th else 0, 0, 1)))
    # every state of the smaller devices
    for lay in LAY:
        big = lay in ("tri2", "tri2s")
        for c in circs(lay):
            for mu in ("const", "model"):
                for k, dop in enumerate(D3):
                    for stage in ("pot", "dd"):
                        if stage == "pot" and mu == "model":
                            continue
                        if not th and (k and lay != "line" or lay in ("sisi", "oxsi", "tet") and (c and mu == "const")):
                            continue
                        full = lay in ("line", "tri") or th and not big
                        m = 8 if full and lay not in ("line",) else 2
                        for i in range(m):
                            out.append(("state", I(lay=lay, circ=c, stage=stage, mu=mu, dop=dop), ("all" if full else 2 if th or not big else 1, i, m)))
    for lay in LAY:
        for dop in ((1e16, 1e16, -1e16, -1e15), (1e17, 0.0, -1e15, -1e17), (-1e16,)):
            for c in [()] + ([("c1",)] if lay in ("line", "oxsi", "tet") else []):
                for mu in ("const",) + (("model",) if th else ()):
                    out.append(("history", I(lay=lay, circ=c, dop=dop, mu=mu), 3 if th else 2))
    for T in (250.0, 300.0, 400.0):
        out.append(("mobility", I(lay="chain", T=T), tuple(range(1, 40, 2 if th else 8))))
        out.append(("parameters", I(T=T), None))
    for lay in ("tri", "tri2"):
        for T in (250.0, 400.0):
            for eq in (0, 1):
                if th or (lay == "tri" or eq) and (T == 400.0 or eq):
                    for i in range(8):
                        out.append(("mobility", I(lay=lay, T=T, eq=eq), (i, 8 if th else 16)))
    for lay in ("line", "sisi", "tri", "tet"):
        out.append(("helpers", I(lay=lay), None))
        out.append(("missing", I(lay=lay), None))
    return out


if __name__ == "__main__":
    ctx.run(items(ctx.thorough), work, "physics", setup=vc.quiet, timeout=600)
    s = ctx.stats
    ctx.finish(len(ctx.sets.get("states", ())), s.get("transitions", 0), s.get("traces", 0),
               "devices of one and two regions set up by the physics packages: every assignment of five state points to the nodes (line, two triangles; within two nodes of uniform otherwise; all in the thorough tier), 27 dopings, three temperatures, contact connections and mobilities; every sequence of bias steps to depth 2 (thorough 3); the unified mobility on a lattice of 625 densities and dopings in several edge pairings; surface and saturation mobilities and element currents on every assignment of five points to the nodes; every order of requests to the model helpers")
