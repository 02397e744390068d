#!/usr/bin/env python3
"""P01: no stale model value after any history of changes and reads.

Explicit-state exploration over operation histories on the real simulator.  A history starts
from a world whose whole model graph has been evaluated (everything is cached), applies up to
DEPTH operations of the world's alphabet (changes and reads), then reads every model.  The
oracle is the same base state (definitions, solution values, parameters, circuit values) built
in a fresh simulator that has no history; it is computed once per distinct base state.
"""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P01", assumptions=["the fresh evaluation used as oracle is checked against closed formulas by P16, P18 and P02",
                                 "models whose defining expression refers to a deleted model are not compared while it is missing"])
d = vc.load_devsim()
import dev as devs


class World:
    """defs: key -> (create function, deps, [(reader kind, region or interface, model)])"""
    def __init__(self):
        self.n = 0


def rd(kind, where, name):
    if kind == "node":
        return list(d.get_node_model_values(device="D", region=where, name=name))
    if kind == "edge":
        return list(d.get_edge_model_values(device="D", region=where, name=name))
    if kind == "element":
        return list(d.get_element_model_values(device="D", region=where, name=name))
    if kind == "interface":
        return list(d.get_interface_model_values(device="D", interface=where, name=name))
    if kind == "contact":   # contact restricted: only the contact's node counts
        return d.get_node_model_values(device="D", region=where, name=name)[0]
    if kind == "cedge":
        return d.get_edge_model_values(device="D", region=where, name=name)[0]
    raise KeyError(kind)


def nm(r, name, eq):
    return ("nm", r, name, eq)


# ---- definitions as data: (kind, region, name, args...) ------------------------------------------
def create(x):
    k = x[0]
    R = dict(device="D", region=x[1])
    if k == "nm": d.node_model(name=x[2], equation=x[3], **R)
    elif k == "em": d.edge_model(name=x[2], equation=x[3], **R)
    elif k == "el": d.element_model(name=x[2], equation=x[3], **R)
    elif k == "efn": d.edge_from_node_model(node_model=x[2], **R)
    elif k == "elfn": d.element_from_node_model(node_model=x[2], **R)
    elif k == "elfe":
        d.element_from_edge_model(edge_model=x[2], **R)
        for v in x[3]:
            d.element_from_edge_model(edge_model=x[2], derivative=v, **R)
    elif k == "elpe": d.element_pair_from_edge_model(edge_model=x[2], **R)
    elif k == "elpeD":
        for v in x[3]:
            d.element_pair_from_edge_model(edge_model=x[2], derivative=v, **R)
    elif k == "vel": d.vector_element_model(element_model=x[2], **R)
    elif k == "avg": d.edge_average_model(edge_model=x[2], node_model=x[3], average_type=x[4], **R)
    elif k == "avgd": d.edge_average_model(edge_model=x[2], node_model=x[3], derivative=x[5], average_type=x[4], **R)
    elif k == "vg": d.vector_gradient(node_model=x[2], calc_type=x[3], **R)
    elif k == "im": d.interface_model(device="D", interface=x[1], name=x[2], equation=x[3])
    elif k == "cnm": d.contact_node_model(device="D", contact=x[4], name=x[2], equation=x[3])
    elif k == "cem": d.contact_edge_model(device="D", contact=x[4], name=x[2], equation=x[3])
    elif k == "ns": d.node_solution(name=x[2], **R)
    elif k == "es": d.edge_solution(name=x[2], **R)
    elif k == "els": d.element_solution(name=x[2], **R)
    elif k == "cyl":
        d.cylindrical_edge_couple(**R); d.cylindrical_node_volume(**R); d.cylindrical_surface_area(**R)
    else: raise KeyError(k)


KOF = {"nm": "node", "em": "edge", "el": "element", "im": "interface", "cnm": "contact", "cem": "cedge", "ns": "node", "es": "edge", "els": "element"}


def setvals(kind, region, name, vals):
    f = {"ns": d.set_node_values, "es": d.set_edge_values, "els": d.set_element_values}[kind]
    f(device="D", region=region, name=name, values=list(vals))


def setpar(scope, name, v):
    k = {}
    if scope >= 1: k["device"] = "D"
    if scope == 2: k["region"] = "R0"
    d.set_parameter(name=name, value=v, **k)


# ---- worlds --------------------------------------------------------------------------------------
def world_node():
    """1D, two regions with an interface, contacts, circuit: node, edge, interface, contact models."""
    w = World()
    w.mesh = lambda: devs.line2("D")
    w.nn = {"R0": 3, "R1": 3}; w.ne = {"R0": 2, "R1": 2}
    w.circuit = True
    w.base = {
        "u": ("ns", "R0", "u"), "u1": ("ns", "R1", "u"), "S": ("ns", "R0", "S"),
        "A": nm("R0", "A", "p*u+2"), "B": nm("R0", "B", "A*A+u"), "C": nm("R0", "C", "B-3*A+S"),
        "N": nm("R0", "N", "n1*2+A"), "Al": nm("R0", "Al", "al+1"),
        "eA": ("efn", "R0", "A"), "E": ("em", "R0", "E", "A@n1-A@n0*p"), "E2": ("em", "R0", "E2", "E*E+EdgeInverseLength"),
        "av": ("avg", "R0", "avB", "B", "arithmetic"), "gr": ("avg", "R0", "grB", "B", "gradient"),
        "geo": ("avg", "R0", "geoA", "A", "geometric"),
        "K": ("cnm", "R0", "K", "B+p", "c0"), "KE": ("cem", "R0", "KE", "E+A@n0", "c0"),
        "I": ("im", "i0", "I", "B@r0-u@r1*p"), "I2": ("im", "i0", "I2", "I*2+A@r0"),
        "A1": nm("R1", "A", "7*u"), "I3": ("im", "i0", "I3", "A@r1+I2"),
    }
    w.deps = {"A": ("u",), "B": ("A", "u"), "C": ("B", "A", "S"), "N": ("A",), "Al": (), "eA": ("A",), "E": ("eA", "A"), "E2": ("E",),
              "av": ("B",), "gr": ("B",), "geo": ("A",), "K": ("B",), "KE": ("E", "eA"), "I": ("A", "B", "u1"), "I2": ("I", "A"), "A1": ("u1",), "I3": ("A1", "I2")}
    w.reads = {"u": [("node", "R0", "u")], "S": [("node", "R0", "S")], "u1": [("node", "R1", "u")],
               "eA": [("edge", "R0", "A@n0"), ("edge", "R0", "A@n1")], "av": [("edge", "R0", "avB")], "gr": [("edge", "R0", "grB")], "geo": [("edge", "R0", "geoA")],
               "A1": [("node", "R1", "A")]}
    w.values = {"u": ("ns", "R0", "u", (1.0, 2.0, 4.0)), "u1": ("ns", "R1", "u", (3.0, 5.0, 6.0)), "S": ("ns", "R0", "S", (0.5, 0.25, 8.0))}
    w.pars = {(0, "p"): 3.0, (0, "q"): 1.0}
    w.circ = 2.0
    w.ops = [
        ("setv", "u", (2.0, 1.0, 3.0)), ("set1", "u", 0, 9.0), ("setall", "u", 4.0), ("setv", "u1", (1.0, 1.5, 2.5)),
        ("init", "S", "B"), ("init", "u", "S"),
        ("par", 0, "p", 5.0), ("par", 1, "p", 7.0), ("par", 2, "p", 11.0), ("parother", "p", 13.0),
        ("def", "A", nm("R0", "A", "u*u+1")), ("def", "A", nm("R0", "A", "p+4")), ("def", "B", nm("R0", "B", "A+5")),
        ("def", "E", ("em", "R0", "E", "A@n0+2*A@n1")), ("def", "I", ("im", "i0", "I", "A@r0+u@r1")), ("def", "A1", nm("R1", "A", "u-p")),
        ("del", "A"), ("del", "B"), ("del", "E"), ("del", "I"),
        ("def", "A", ("ns", "R0", "A")), ("cset", "n1", 6.0), ("cset", "al", 8.0), ("csolve", 10.0),
        ("read", "B"), ("read", "C"), ("read", "E2"), ("read", "I2"), ("read", "K"), ("read", "A"),
    ]
    return w


def world_solve():
    """1D with equations: a solve changes the solution variables."""
    w = World()
    w.mesh = lambda: devs.line2("D")
    w.nn = {"R0": 3, "R1": 3}; w.ne = {"R0": 2, "R1": 2}
    w.circuit = True
    w.base = {"u": ("ns", "R0", "u"), "v": ("ns", "R1", "v"), "F": nm("R0", "F", "u-t"), "Fu": nm("R0", "F:u", "1"),
              "G": nm("R1", "G", "v-2*t-1"), "Gv": nm("R1", "G:v", "1"),
              "A": nm("R0", "A", "u*u"), "eu": ("efn", "R0", "u"), "E": ("em", "R0", "E", "u@n0-u@n1+3*p"), "av": ("avg", "R0", "avu", "u", "gradient"),
              "B": nm("R1", "B", "v+p"), "I": ("im", "i0", "I", "u@r0-v@r1"), "N": nm("R1", "N", "n1+v"), "K": ("cnm", "R0", "K", "u+A", "c0")}
    w.deps = {"F": ("u",), "Fu": (), "G": ("v",), "Gv": (), "A": ("u",), "eu": ("u",), "E": ("eu",), "av": ("u",), "B": ("v",), "I": ("u", "v"), "N": ("v",), "K": ("u", "A")}
    w.reads = {"u": [("node", "R0", "u")], "v": [("node", "R1", "v")], "eu": [("edge", "R0", "u@n0"), ("edge", "R0", "u@n1")], "av": [("edge", "R0", "avu")]}
    w.values = {"u": ("ns", "R0", "u", (1.0, 2.0, 4.0)), "v": ("ns", "R1", "v", (3.0, 5.0, 6.0))}
    w.pars = {(0, "p"): 3.0, (0, "t"): 1.0}
    w.circ = 2.0
    w.eq = True
    w.ops = [("dsolve",), ("dsolvetr",), ("par", 0, "t", 5.0), ("par", 1, "t", 2.0), ("par", 0, "p", 5.0), ("setv", "u", (2.0, 1.0, 3.0)), ("setv", "v", (7.0, 1.0, 3.0)),
             ("csolve", 10.0), ("cset", "n1", 6.0), ("def", "A", nm("R0", "A", "u+1")),
             ("read", "A"), ("read", "E"), ("read", "I"), ("read", "N"), ("read", "F")]
    return w


def world_element(dim):
    w = World()
    w.mesh = (lambda: devs.tri2("D")) if dim == 2 else (lambda: devs.tet1x("D"))
    w.circuit = False
    w.dim = dim
    n = 2 if dim == 2 else 3
    w.base = {"u": ("ns", "R0", "u"), "A": nm("R0", "A", "u*u+p"), "eu": ("efn", "R0", "u"), "eA": ("efn", "R0", "A"),
              "E": ("em", "R0", "E", "(A@n0-u@n1)*EdgeInverseLength"), "E0": ("em", "R0", "E:u@n0", "A@n1+p"), "E1": ("em", "R0", "E:u@n1", "-u@n0"),
              "L": ("elfe", "R0", "E", ("u",)), "Ln": ("elfn", "R0", "A"), "M": ("el", "R0", "M", "E_x*A@en0+E_y*p+A@en%d" % n),
              "P": ("elpe", "R0", "E"), "V": ("vel", "R0", "M"),
              "W": ("el", "R0", "W", "M*M+E_x:u@en0+E_y:u@en1"), "X": ("es", "R0", "X"), "Y": ("els", "R0", "Y"),
              "Q": ("el", "R0", "Q", "Y+M"), "EX": ("em", "R0", "EX", "X+E")}
    w.deps = {"A": ("u",), "eu": ("u",), "eA": ("A",), "E": ("eu", "eA"), "E0": ("eA",), "E1": ("eu",), "L": ("E", "E0", "E1"), "Ln": ("A",), "M": ("L", "Ln"),
              "P": ("E",), "V": ("M",), "W": ("M", "L"), "Q": ("Y", "M"), "EX": ("X", "E")}
    xyz = ("x", "y") if dim == 2 else ("x", "y", "z")
    en = range(3 if dim == 2 else 4)
    w.reads = {"u": [("node", "R0", "u")], "eu": [("edge", "R0", "u@n0")], "eA": [("edge", "R0", "A@n1")],
               "L": [("element", "R0", "E_" + c) for c in xyz] + [("element", "R0", "E_%s:u@en%d" % (c, i)) for c in xyz for i in en],
               "Ln": [("element", "R0", "A@en%d" % i) for i in en],
               "P": [("element", "R0", "E_node0_x"), ("element", "R0", "E_node1_y")], "V": [("element", "R0", "M_" + c) for c in xyz],
               "X": [("edge", "R0", "X")], "Y": [("element", "R0", "Y")]}
    w.ops = [("setu", 1), ("setu", 2), ("par", 0, "p", 5.0), ("par", 2, "p", 11.0),
             ("def", "A", nm("R0", "A", "u+4")), ("def", "E", ("em", "R0", "E", "(u@n0-u@n1)*p")), ("def", "E0", ("em", "R0", "E:u@n0", "p")),
             ("def", "M", ("el", "R0", "M", "E_x+E_y")), ("del", "A"), ("del", "E"), ("del", "M"), ("setx", 1), ("sety", 1), ("inity",), ("initx",),
             ("read", "W"), ("read", "V"), ("read", "M"), ("read", "L"), ("read", "E"), ("read", "P")]
    if dim == 2:
        w.base["VG"] = ("vg", "R0", "A", "default")
        w.deps["VG"] = ("A",)
        w.reads["VG"] = [("node", "R0", "A_gradx"), ("node", "R0", "A_grady")]
        w.base["cyl"] = ("cyl", "R0")
        w.deps["cyl"] = ()
        w.reads["cyl"] = [("node", "R0", "CylindricalNodeVolume"), ("edge", "R0", "CylindricalEdgeCouple"), ("node", "R0", "CylindricalSurfaceArea")]
        w.ops += [("par", 1, "raxis_zero", -2.0), ("par", 1, "raxis_variable", "y"), ("read", "cyl")]
    w.pars = {(0, "p"): 3.0}
    if dim == 2:
        w.pars[(1, "raxis_variable")] = "x"
        w.pars[(1, "raxis_zero")] = -1.0
    w.values = {}
    return w


def init_sizes(w):
    """Fills in the solution vectors of an element world from the real entity counts."""
    if w.values:
        return
    d.reset_devsim()
    w.mesh()
    n = len(d.get_node_model_values(device="D", region="R0", name="NodeVolume"))
    e = len(d.get_edge_model_values(device="D", region="R0", name="EdgeLength"))
    l = len(d.get_element_model_values(device="D", region="R0", name="ElementNodeVolume"))
    w.sz = (n, e, l)
    w.values = {"u": ("ns", "R0", "u", tuple(1.0 + i * i for i in range(n))), "X": ("es", "R0", "X", tuple(0.5 * i - 1 for i in range(e))),
                "Y": ("els", "R0", "Y", tuple(3.0 - i for i in range(l)))}


def build(w, st):
    """Fresh simulator in base state st."""
    d.reset_devsim()
    w.mesh()
    defs, vals, pars, circ = st
    for (s, n), v in sorted(pars.items()):
        if s == 3:
            d.set_parameter(device="D", region="R1", name=n, value=v)
        else:
            setpar(s, n, v)
    if w.circuit:
        d.add_circuit_node(name="n1")
        d.circuit_element(name="R1", n1="n1", n2="0", value=1.0)
        d.circuit_element(name="I1", n1="n1", n2="0", value=2.0)
        d.circuit_node_alias(node="n1", alias="al")
        d.solve(type="dc", absolute_error=1e3, relative_error=1e3, maximum_iterations=3)
        d.set_circuit_node_value(node="n1", value=circ)
        d.set_circuit_node_value(node="al", value=circ)
    for k in defined(w, defs):
        create(defs[k])
    for k, (kind, r, n, v) in sorted(vals.items()):
        if k in defs and defs[k][0] == kind:
            setvals(kind, r, n, v)
    if getattr(w, "eq", False):
        d.equation(device="D", region="R0", name="eu", variable_name="u", node_model="F")
        d.equation(device="D", region="R1", name="ev", variable_name="v", node_model="G")


def defined(w, defs):
    """keys whose whole dependency closure exists."""
    ok = {}

    def f(k, seen=()):
        if k in seen or k not in defs:
            return False
        if k not in ok:
            dep = () if defs[k][0] in ("ns", "es", "els") else DEPS(w, k, defs)
            ok[k] = all(f(x, seen + (k,)) for x in dep)
        return ok[k]
    return [k for k in w.base if f(k)]


def DEPS(w, k, defs):
    return w.deps.get(k, ())


def readers(w, k, defs):
    if k in w.reads:
        return w.reads[k]
    x = defs[k]
    return [(KOF[x[0]], x[1], x[2])]


def readall(w, defs, reverse=False):
    out = {}
    ks = defined(w, defs)
    if reverse:
        ks = ks[::-1]
    for k in ks:
        for r in readers(w, k, defs):
            try:
                out[r] = rd(*r)
            except d.error as e:
                out[r] = "ERR"
    return out


_memo = {}


def canon(st):
    defs, vals, pars, circ = st
    return (tuple(sorted(defs.items())), tuple(sorted(vals.items())), tuple(sorted(pars.items(), key=str)), circ)


def fresh(w, st):
    c = (w.name, canon(st))
    if c not in _memo:
        build(w, st)
        _memo[c] = readall(w, st[0])
        ctx.state("base_states", c)
    return _memo[c]


def par_effective(st, name):
    pars = st[2]
    for s in (2, 1, 0):
        if (s, name) in pars:
            return pars[(s, name)]


def step_state(w, st, op):
    """Base state after op, or None where op is not enabled."""
    defs, vals, pars, circ = st
    k = op[0]
    if k == "setv" or k == "setall" or k == "set1":
        key = op[1]
        if key not in defs or defs[key][0] != "ns": return None
        kind, r, n, v = vals[key]
        nv = op[2] if k == "setv" else (op[2],) * len(v) if k == "setall" else tuple(op[3] if i == op[2] else x for i, x in enumerate(v))
        return defs, dict(vals, **{key: (kind, r, n, tuple(nv))}), pars, circ
    if k == "setu":
        n = w.sz[0]
        return defs, dict(vals, u=("ns", "R0", "u", tuple(float((i * 7 * op[1]) % 5 + op[1]) for i in range(n)))), pars, circ
    if k == "setx":
        return defs, dict(vals, X=("es", "R0", "X", tuple(float(i % 3) for i in range(w.sz[1])))), pars, circ
    if k == "sety":
        return defs, dict(vals, Y=("els", "R0", "Y", tuple(float(i % 4) for i in range(w.sz[2])))), pars, circ
    if k in ("inity", "initx"):
        key, src = ("Y", "M") if k == "inity" else ("X", "E")
        if src not in defined(w, defs): return None
        v = fresh(w, st)[readers(w, src, defs)[0]]
        return defs, dict(vals, **{key: vals[key][:3] + (tuple(v),)}), pars, circ
    if k == "init":
        if op[2] not in defined(w, defs) or op[1] not in defs: return None
        v = fresh(w, st)[readers(w, op[2], defs)[0]]
        kind, r, n, _ = vals[op[1]]
        return defs, dict(vals, **{op[1]: (kind, r, n, tuple(v))}), pars, circ
    if k == "par":
        return defs, vals, dict(pars, **{}) | {(op[1], op[2]): op[3]}, circ
    if k == "parother":
        return defs, vals, pars | {(3, op[1]): op[2]}, circ
    if k == "def":
        key, x = op[1], op[2]
        # an expression binds its names to models or parameters when it is defined
        if x[0] not in ("ns", "es", "els") and not all(y in defs for y in w.deps.get(key, ())):
            return None
        nd = dict(defs)
        nd[key] = x
        nv = dict(vals)
        nv.pop(key, None) if x[0] != "ns" else nv.__setitem__(key, ("ns", x[1], x[2], (0.0,) * 3))
        return nd, nv, pars, circ
    if k == "del":
        if op[1] not in defs: return None
        nd = dict(defs)
        nd.pop(op[1])
        nv = dict(vals)
        nv.pop(op[1], None)
        return nd, nv, pars, circ
    if k == "cset" or k == "csolve":
        return defs, vals, pars, op[-1]
    if k in ("dsolve", "dsolvetr"):
        t = pars.get((1, "t"), pars[(0, "t")])
        return defs, dict(vals, u=("ns", "R0", "u", (t,) * 3), v=("ns", "R1", "v", (2 * t + 1,) * 3)), pars, 2.0 if w.csrc is None else w.csrc
    if k == "read":
        return st if op[1] in defs else None
    raise KeyError(op)


def apply(w, st, nst, op):
    """Performs op on the live simulator (nst is the base state it should lead to)."""
    defs = st[0]
    k = op[0]
    if k == "setv": d.set_node_values(device="D", region=st[1][op[1]][1], name=st[1][op[1]][2], values=list(op[2]))
    elif k == "set1": d.set_node_value(device="D", region="R0", name=op[1], index=op[2], value=op[3])
    elif k == "setall": d.set_node_value(device="D", region="R0", name=op[1], value=op[2])
    elif k in ("setu", "setx", "sety"):
        x = nst[1][{"setu": "u", "setx": "X", "sety": "Y"}[k]]
        setvals(x[0], x[1], x[2], x[3])
    elif k == "inity": d.set_element_values(device="D", region="R0", name="Y", init_from="M")
    elif k == "initx": d.set_edge_values(device="D", region="R0", name="X", init_from="E")
    elif k == "init": d.set_node_values(device="D", region="R0", name=op[1], init_from=op[2])
    elif k == "par": setpar(op[1], op[2], op[3])
    elif k == "parother": d.set_parameter(device="D", region="R1", name=op[1], value=op[2])
    elif k == "def": create(op[2])
    elif k == "del":
        x = defs[op[1]]
        if x[0] in ("nm", "ns"): d.delete_node_model(device="D", region=x[1], name=x[2])
        elif x[0] == "em": d.delete_edge_model(device="D", region=x[1], name=x[2])
        elif x[0] == "el": d.delete_element_model(device="D", region=x[1], name=x[2])
        elif x[0] == "im": d.delete_interface_model(device="D", interface=x[1], name=x[2])
    elif k == "cset": d.set_circuit_node_value(node=op[1], value=op[2])
    elif k == "csolve":
        w.csrc = op[1]
        d.circuit_alter(name="I1", value=op[1])
        if getattr(w, "eq", False):
            # solve only moves the circuit when the device is already solved: keep the device as it was
            v = {x: st[1][x] for x in ("u", "v")}
            d.solve(type="dc", absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
            for x in v.values():
                setvals(x[0], x[1], x[2], x[3])
        else:
            d.solve(type="dc", absolute_error=1e3, relative_error=1e3, maximum_iterations=3)
    elif k == "dsolve": d.solve(type="dc", absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
    elif k == "dsolvetr": d.solve(type="transient_dc", absolute_error=1e30, relative_error=1e30, maximum_iterations=1)
    elif k == "read":
        for r in readers(w, op[1], defs):
            try:
                rd(*r)
            except d.error:
                pass


def start(w):
    init_sizes(w)
    return (dict(w.base), dict(w.values), dict(w.pars), getattr(w, "circ", None))


def run_history(w, hist, reverse):
    """Replays hist on a live simulator; returns (state, reads) or None where an op is not enabled."""
    st = start(w)
    w.csrc = 2.0
    sts = [st]
    for op in hist:
        # state function may need the solve source
        st2 = step_state(w, st, op)
        if st2 is None:
            return None
        if op[0] == "csolve":
            w.csrc = op[1]
        sts.append(st2)
        st = st2
    want = fresh(w, st)
    w.csrc = 2.0
    build(w, sts[0])
    readall(w, sts[0][0])
    for i, op in enumerate(hist):
        apply(w, sts[i], sts[i + 1], op)
    got = readall(w, st[0], reverse)
    return st, want, got


WORLDS = {}
for n, f in (("node", world_node), ("solve", world_solve), ("el2", lambda: world_element(2)), ("el3", lambda: world_element(3))):
    WORLDS[n] = f()
    WORLDS[n].name = n


def t1x(dev):
    C = [(0., 0., 0.), (1., 0., 0.), (0.1, 1.2, 0.), (0.2, 0.3, 1.1), (1.1, 1.0, 0.9)]
    devs.gmsh(dev, C, {"R0": [(0, 1, 2, 3), (1, 2, 3, 4)]}, {"c0": ("R0", [(0, 1, 2)]), "c1": ("R0", [(4,)])})


devs.tet1x = t1x


def close(a, b):
    if a == b:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return False
    if not isinstance(a, list):
        a, b = [a], [b]
    return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-11 * max(abs(x), abs(y), 1e-30) for x, y in zip(a, b))


def work(item):
    wn, prefix, depth = item
    w = WORLDS[wn]
    prefix = [tuple(w.ops[i]) for i in prefix]
    tails = itertools.product(range(len(w.ops)), repeat=depth - len(prefix))
    for t in tails:
        hist = prefix + [w.ops[i] for i in t]
        if hist and hist[-1][0] == "read":
            continue  # covered by the shorter history and the final reads
        bad = any(hist[i][0] == "read" and hist[i + 1] == hist[i] for i in range(len(hist) - 1))
        if bad:
            continue
        for reverse in (True, False):
            ctx.note((wn, hist, reverse))
            res = run_history(w, hist, reverse)
            if res is None:
                break
            st, want, got = res
            ctx.count(histories=1, transitions=len(hist), reads=len(got))
            diff = [k for k in want if not close(want[k], got.get(k))]
            if diff:
                k = diff[0]
                ctx.violation("stale:%s:%s" % (wn, "|".join(sorted(set(o[0] for o in hist if o[0] != "read")))),
                              "world %s, history %s, final reads %s: %d stale models, first %s reads %s, from scratch %s" % (
                                  wn, hist, "dependents first" if reverse else "sources first", len(diff), k, got.get(k), want[k]),
                              {"item": [wn, [w.ops.index(o) for o in hist], len(hist)]})
        else:
            ctx.sample({"world": wn, "history": hist}, 3)


# ---- parameters of two devices with two regions each ----------------------------------------------
PSC = [(), ("D",), ("E",), ("D", "R0"), ("D", "R1"), ("E", "R0")]
PREG = [("D", "R0"), ("D", "R1"), ("E", "R0"), ("E", "R1")]
POPS = [(s, n) for s in PSC for n in ("p", "q")]


def pset(s, n, v):
    d.set_parameter(name=n, value=v, **dict(zip(("device", "region"), s)))


def pwork(item):
    """every sequence of settings: after it (and, in the second variant, after each of them) every model is read"""
    for t in itertools.product(range(len(POPS)), repeat=item[1] - len(item[0])):
        seq = [POPS[i] for i in tuple(item[0]) + t]
        for every in (False, True):
            d.reset_devsim()
            devs.line2("D")
            devs.line2("E")
            store = {((), "p"): 3.0, ((), "q"): 0.5}
            for (s, n), v in store.items():
                pset(s, n, v)
            for dv, r in PREG:
                k = dict(device=dv, region=r)
                d.node_model(name="A", equation="p+0*x", **k)
                d.node_model(name="B", equation="A+8*q", **k)
                d.edge_model(name="F", equation="64*p+q", **k)
            val = 16.0

            def look(j):
                for dv, r in PREG:
                    p, q = [store.get(((dv, r), n), store.get(((dv,), n), store.get(((), n)))) for n in ("p", "q")]
                    k = dict(device=dv, region=r)
                    got = (d.get_node_model_values(name="B", **k)[0], d.get_node_model_values(name="A", **k)[1], d.get_edge_model_values(name="F", **k)[0])
                    want = (p + 8 * q, p, 64 * p + q)
                    ctx.count(reads=3)
                    if got != want:
                        ctx.violation("par:%s" % (seq[j - 1],), "after setting %s: models on %s %s read %s, with the parameters now in force %s" % (
                            [(s + (n,)) for s, n in seq[:j]], dv, r, got, want), {"item": [[POPS.index(o) for o in seq], len(seq)]})
                        return
            look(0)
            for j, (s, n) in enumerate(seq):
                val *= 2
                store[(s, n)] = val
                pset(s, n, val)
                if every:
                    look(j + 1)
            if not every or not seq:
                look(len(seq))
            ctx.count(histories=1, transitions=len(seq))
            ctx.state("base_states", tuple(sorted((k, v) for k, v in store.items())))


# ---- definitions that refer to each other ----------------------------------------------------------
KINDS = {"node": (1, "node_model", "node"), "edge": (1, "edge_model", "edge"), "tri": (2, "element_model", "element"), "tet": (3, "element_model", "element")}
GN = ("A", "B", "C")


def gwork(item):
    """Three models, each a constant or one plus one of the three: every such graph, every redefinition from it, every
    reading order.  A model that leads to a cycle is an error on each read, every other one is the length of its chain."""
    kind, first = item
    dim, cmd, rk = KINDS[kind]
    d.reset_devsim()
    {1: lambda: devs.line("D"), 2: lambda: devs.tri("D"), 3: lambda: devs.tet1("D")}[dim]()
    R = d.get_region_list(device="D")[0]

    def define(n, to):
        getattr(d, cmd)(device="D", region=R, name=n, equation="1" if to is None else GN[to] + "+1")

    def value(g, i):
        n, seen = 1, set()
        while g[i] is not None:
            if i in seen:
                return None
            seen.add(i)
            i, n = g[i], n + 1
        return float(n)

    def look(g, order, what):
        for i in order:
            ctx.count(reads=1)
            try:
                got = set(rd(rk, R, GN[i]))
            except d.error:
                got = None
            want = value(g, i)
            if got != (None if want is None else {want}):
                ctx.violation("cycle:%s" % kind, "%s models %s: %s reads %s, expected %s (%s)" % (
                    kind, {n: "1" if x is None else GN[x] + "+1" for n, x in zip(GN, g)}, GN[i], got, want, what), {"item": [kind, first]})
                return False
        return True
    opts = (None, 0, 1, 2)
    perms = list(itertools.permutations(range(3))) if ctx.thorough or dim == 1 else [(0, 1, 2), (2, 1, 0)]
    for g in itertools.product(opts, repeat=3):
        if g[0] != (None, 0, 1, 2)[first]:
            continue
        ctx.state("graphs", (kind, g))
        for i in range(3):
            for to in opts:
                if to == g[i]:
                    continue
                for o in perms:
                    for n in range(3):      # the names are known before they are used
                        define(GN[n], None)
                    for n in range(3):
                        define(GN[n], g[n])
                    if not look(g, o, "as defined, read in the order %s" % (o,)):
                        return
                    define(GN[i], to)
                    h = g[:i] + (to,) + g[i + 1:]
                    if not look(h, o[::-1] if ctx.thorough else o[1:] + o[:1], "after redefining %s from %s" % (GN[i], g)):
                        return
                    ctx.count(histories=1, transitions=1)


def setup():
    vc.quiet()


if __name__ == "__main__":
    items = []
    for wn, w in WORLDS.items():
        n = len(w.ops)
        full = {"node": 3, "solve": 4 if ctx.thorough else 3, "el2": 3, "el3": 3}[wn] if ctx.thorough else {"node": 3, "solve": 3, "el2": 2, "el3": 2}[wn]
        for dep in range(0, full + 1):
            if dep <= 1:
                items += [[wn, [], dep]]
            else:
                items += [[wn, [i], dep] for i in range(n)] if dep == 2 else [[wn, [i, j], dep] for i in range(n) for j in range(n)]
        ctx.bounds["depth_" + wn] = full
        ctx.bounds["alphabet_" + wn] = n
    if not ctx.thorough:
        # depth 3 with a read in the middle: change, read, change
        for wn in ("el2", "el3"):
            w = WORLDS[wn]
            for i, o in enumerate(w.ops):
                if o[0] == "read":
                    continue
                for j, r in enumerate(w.ops):
                    if r[0] == "read":
                        items.append([wn, [i, j], 3])
    ctx.run(items, work, "hist", setup=setup, timeout=300)
    pd = 4 if ctx.thorough else 3
    ctx.bounds["depth_parameters"] = pd
    ctx.bounds["alphabet_parameters"] = len(POPS)
    pit = [[[], 0], [[], 1]] + [[[i], k] for k in range(2, pd + 1) for i in range(len(POPS))] if pd < 4 else \
        [[[], 0], [[], 1]] + [[[i], k] for k in (2, 3) for i in range(len(POPS))] + [[[i, j], 4] for i in range(len(POPS)) for j in range(len(POPS))]
    ctx.run(pit, pwork, "par", setup=setup, timeout=300)
    ctx.bounds["models_in_cycles"] = len(GN)
    ctx.run([[k, f] for k in KINDS for f in range(4)], gwork, "cycle", setup=setup, timeout=300)
    ctx.finish(len(ctx.sets.get("base_states", ())), ctx.stats.get("transitions", 0), ctx.stats.get("histories", 0),
               "every operation history of the stated depths over the alphabet of each world, from an all-cached start, with reads interposed; final reads in two orders compared with the base state built from scratch")
