#!/usr/bin/env python3
"""P02: parameter scoping and lifetime.

Explicit-state exploration of the parameter store: every history up to the depth over
set_parameter at seven scopes (global, two devices, their regions), two names and numeric, text
and numeric-text values, set_material, deleting and recreating devices, and resetting the
simulator, replayed on the real module and compared with a reference store on every observable:
get_parameter and get_parameter_list at every scope, models evaluated in every region, device,
region, contact and circuit lists, materials.
"""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P02")
d = vc.load_devsim()
import dev as devs

DEVS = {"D": ("R0", "R1"), "DD": ("R0",)}
SCOPES = [(), ("D",), ("DD",), ("D", "R0"), ("D", "R1"), ("DD", "R0")]
NAMES = ("p", "q")
MISSING = "<missing>"


def kw(s):
    return dict(zip(("device", "region"), s))


def mk(dev):
    if dev == "D":
        devs.line2("D")
    else:
        devs.gmsh("DD", [(0.,), (1.,), (2.5,)], {"R0": [(0, 1), (1, 2)]}, {"c0": ("R0", [(0,)])})
    for r in DEVS[dev]:
        for n in NAMES:
            d.node_model(device=dev, region=r, name="M_" + n, equation=n + "*2+1")
        d.edge_model(device=dev, region=r, name="E_p", equation="p*3")


class Ref:
    def __init__(self, fresh_global):
        self.fresh = fresh_global
        self.reset()

    def reset(self):
        self.store = {(): dict(self.fresh)}
        self.devices = {}
        self.circuit = []

    def create(self, dev):
        self.devices[dev] = {r: "Si" for r in DEVS[dev]}
        if dev == "D":
            self.devices[dev].update({"@c0": "metal", "@c1": "metal"})
        else:
            self.devices[dev]["@c0"] = "metal"

    def delete(self, dev):
        del self.devices[dev]
        for s in list(self.store):
            if s and s[0] == dev:
                del self.store[s]

    def look(self, s, n):
        for k in range(len(s), -1, -1):
            v = self.store.get(s[:k], {}).get(n, MISSING)
            if v != MISSING:
                return v
        return MISSING

    def key(self):
        return repr((sorted((k, sorted((a, b) for a, b in v.items() if a in NAMES + ("extra",))) for k, v in self.store.items()), sorted((k, sorted(v.items())) for k, v in self.devices.items()), self.circuit))


VALUES = [2.0, -7.5, "text", "4.5", 3]
OPS = []
for s in SCOPES:
    for v in (VALUES if s in ((), ("D",), ("D", "R0")) else VALUES[:1] + VALUES[2:3]):
        OPS.append(("set", s, "p", v))
for s in ((), ("D",), ("D", "R0"), ("D", "R1")):
    OPS.append(("set", s, "q", 5.0))
OPS += [("delete", "D"), ("delete", "DD"), ("create", "D"), ("create", "DD"), ("reset",), ("mat", "D", "R0", None, "Ox"), ("mat", "D", None, "c0", "Al"), ("mat", "DD", "R0", None, "Ge"),
        ("circuit",), ("readall",), ("deletemesh",)]


def num(v):
    if isinstance(v, (int, float)):
        return float(v)
    try:
        return float(v)
    except ValueError:
        return None


def observe(ref):
    """Compares every observable of the simulator with the reference. Returns the first difference."""
    live = sorted(ref.devices)
    got = sorted(d.get_device_list())
    if got != live:
        return "devices", got, live
    for s in SCOPES:
        if s and s[0] not in ref.devices:
            try:
                v = d.get_parameter(name="p", **kw(s))
                return "parameter on a missing device", (s, v), "error"
            except d.error:
                pass
            continue
        for n in NAMES:
            want = ref.look(s, n)
            try:
                v = d.get_parameter(name=n, **kw(s))
            except d.error:
                v = MISSING
            if v != want or type(v) is not type(want):
                return "get_parameter", (s, n, v), want
        l = sorted(d.get_parameter_list(**kw(s)))
        want = sorted(ref.store.get(s, {}))
        if l != want:
            return "get_parameter_list", (s, l), want
        if len(s) == 2:
            for n in NAMES:
                w = num(ref.look(s, n)) if ref.look(s, n) != MISSING else None
                try:
                    v = list(d.get_node_model_values(name="M_" + n, **kw(s)))
                except d.error:
                    v = None
                if w is None and n not in ref.circuit:
                    if v is not None:
                        return "model of a missing or text parameter", (s, n, v), "error"
                elif w is not None and (v is None or any(x != 2 * w + 1 for x in v)):
                    return "model value", (s, n, v), 2 * w + 1
            w = ref.look(s, "p")
            w = None if w == MISSING else num(w)
            try:
                v = list(d.get_edge_model_values(name="E_p", **kw(s)))
            except d.error:
                v = None
            if w is not None and (v is None or any(x != 3 * w for x in v)) or (w is None and v is not None):
                return "edge model value", (s, v), w
    for dev, m in ref.devices.items():
        if sorted(d.get_region_list(device=dev)) != sorted(DEVS[dev]):
            return "regions", d.get_region_list(device=dev), DEVS[dev]
        for r, want in m.items():
            v = d.get_material(device=dev, **({"contact": r[1:]} if r[0] == "@" else {"region": r}))
            if v != want:
                return "material", (dev, r, v), want
    if sorted(d.get_circuit_node_list()) != sorted(ref.circuit):
        return "circuit nodes", d.get_circuit_node_list(), ref.circuit
    return None


FRESH = None


def apply(ref, op, meshes):
    """False where the operation is not enabled in this state."""
    k = op[0]
    if k == "set":
        _, s, n, v = op
        if s and s[0] not in ref.devices:
            try:
                d.set_parameter(name=n, value=v, **kw(s))
                return "set_parameter on a missing device succeeds"
            except d.error:
                return True
        d.set_parameter(name=n, value=v, **kw(s))
        ref.store.setdefault(s, {})[n] = v
    elif k == "delete":
        if op[1] not in ref.devices: return False
        d.delete_device(device=op[1])
        ref.delete(op[1])
    elif k == "deletemesh":
        if not meshes: return False
        m = sorted(meshes)[0]
        d.delete_mesh(mesh=m)
        meshes.discard(m)
    elif k == "create":
        if op[1] in ref.devices: return False
        if op[1] in meshes:
            d.create_device(mesh=op[1], device=op[1])
            for r in DEVS[op[1]]:
                for n in NAMES:
                    d.node_model(device=op[1], region=r, name="M_" + n, equation=n + "*2+1")
                d.edge_model(device=op[1], region=r, name="E_p", equation="p*3")
        else:
            mk(op[1])
            meshes.add(op[1])
        ref.create(op[1])
    elif k == "reset":
        d.reset_devsim()
        ref.reset()
        meshes.clear()
    elif k == "mat":
        _, dev, r, c, m = op
        if dev not in ref.devices: return False
        d.set_material(device=dev, material=m, **({"region": r} if r else {"contact": c}))
        ref.devices[dev][r or "@" + c] = m
    elif k == "circuit":
        if ref.circuit: return False
        d.add_circuit_node(name="n1")
        d.circuit_element(name="V1", n1="n1", n2="0", value=1.0)
        ref.circuit = ["n1", "V1.I"]
    elif k == "readall":
        for dev in ref.devices:
            for r in DEVS[dev]:
                for n in NAMES:
                    try: d.get_node_model_values(device=dev, region=r, name="M_" + n)
                    except d.error: pass
                try: d.get_edge_model_values(device=dev, region=r, name="E_p")
                except d.error: pass
    return True


# histories start from an untouched store, from one where every scope has every name, and from one where only the
# regions have
BASES = {
    "empty": [],
    "full": [("set", s, n, 10.0 * i + k + 0.5) for i, s in enumerate(SCOPES) for k, n in enumerate(NAMES)] + [("circuit",), ("mat", "D", "R0", None, "Ox"), ("mat", "D", "R1", None, "Ox"), ("mat", "D", None, "c0", "Al")],
    "regions": [("set", s, n, 10.0 * i + k + 0.25) for i, s in enumerate(SCOPES) if len(s) == 2 for k, n in enumerate(NAMES)],
}


def run_history(hist, everystep, base):
    d.reset_devsim()
    ref = Ref(FRESH)
    meshes = set()
    for dev in DEVS:
        mk(dev)
        ref.create(dev)
        meshes.add(dev)
    for op in BASES[base]:
        apply(ref, op, meshes)
    for i, op in enumerate(hist):
        r = apply(ref, op, meshes)
        if r is False:
            return "disabled", None, None
        if r is not True:
            return r, None, None
        if everystep and i < len(hist) - 1:
            x = observe(ref)
            if x:
                return x
    x = observe(ref)
    ctx.state("states", ref.key())
    return x


def work(item):
    prefix, depth, base = item
    for t in itertools.product(range(len(OPS)), repeat=depth - len(prefix)):
        hist = [OPS[i] for i in list(prefix) + list(t)]
        ctx.note(hist)
        for every in ((False, True) if len(hist) > 1 else (True,)):
            x = run_history(hist, every, base)
            if x and x[0] == "disabled":
                break
            ctx.count(histories=1, transitions=len(hist))
            if x:
                ctx.violation("param:" + x[0], "from the %s store, after %s%s: %s gives %r, expected %r" % (base, hist, " with every observable read after each step" if every else "", x[0], x[1], x[2]),
                              {"item": [list(prefix) + list(t), depth, base]})
                return
    if depth:
        ctx.sample({"history": hist}, 3)


# ---- leftovers after reset: each facility is used, then the simulator is reset ----------------------------
def use_function():
    d.register_function(name="myfun", nargs=1, procedure=lambda x: 3.0 * x)


def use_custom():
    d.custom_equation(name="cc", procedure=lambda what, t: ([], [], 0))


def use_transient():
    devs.line2("D")
    eq()
    d.solve(type="transient_dc", absolute_error=1e10, relative_error=1e10, maximum_iterations=2)


def use_param():
    for n in ("node_volume_model", "edge_couple_model", "extended_model", "extended_solver", "extended_equation", "threads_available", "direct_solver", "info", "debug_level"):
        d.set_parameter(name=n, value={"node_volume_model": "AtContactNode", "edge_couple_model": "EdgeLength", "direct_solver": "custom", "debug_level": "info"}.get(n, True if n.startswith("ext") else 2))


def use_circuit():
    d.circuit_element(name="R1", n1="a", n2="0", value=2.0)
    d.circuit_element(name="I1", n1="a", n2="0", value=2.0)
    d.circuit_node_alias(node="a", alias="b")
    d.solve(type="dc", absolute_error=1.0, relative_error=1e-10, maximum_iterations=9)


def use_mesh():
    d.create_1d_mesh(mesh="m1")
    d.create_2d_mesh(mesh="m2")
    d.create_gmsh_mesh(mesh="m3", coordinates=[0., 0, 0, 1, 0, 0], physical_names=["a"], elements=[1, 0, 0, 1])


def use_math():
    d.set_parameter(name="p", value=3.0)
    devs.line2("D")
    d.node_model(device="D", region="R0", name="F", equation="exp(p)")
    d.get_node_model_values(device="D", region="R0", name="F")


def eq():
    d.node_solution(device="D", region="R0", name="u")
    d.node_model(device="D", region="R0", name="F", equation="u-1")
    d.node_model(device="D", region="R0", name="F:u", equation="1")
    d.node_model(device="D", region="R0", name="G", equation="u")
    d.node_model(device="D", region="R0", name="G:u", equation="1")
    d.equation(device="D", region="R0", name="E", variable_name="u", node_model="F", time_node_model="G")


def tryit(f):
    try:
        return repr(f())
    except d.error as e:
        return "error " + str(e)


def probe():
    """Everything a script can see of a simulator that was just started."""
    out = []
    par = {n: d.get_parameter(name=n) for n in d.get_parameter_list()}
    out.append(sorted((n, repr(v)) for n, v in par.items()))
    out.append(list(d.get_device_list()))
    out.append(list(d.get_circuit_node_list()))
    out.append(list(d.get_circuit_solution_list()))
    out.append(tryit(lambda: d.get_circuit_node_value(node="a")))
    use_mesh()
    use_circuit()
    out.append(tryit(lambda: d.get_circuit_node_value(node="b")))
    devs.line2("D")
    out.append(tryit(lambda: d.node_model(device="D", region="R0", name="X", equation="myfun(2)")))
    out.append(tryit(lambda: list(d.get_node_model_values(device="D", region="R0", name="X"))))
    eq()
    out.append(tryit(lambda: d.solve(type="transient_bdf1", tdelta=1.0, absolute_error=1e10, relative_error=1e10, maximum_iterations=1)))
    out.append(tryit(lambda: d.solve(type="dc", absolute_error=1e-10, relative_error=1e-10, maximum_iterations=5)))
    out.append(tryit(lambda: list(d.get_node_model_values(device="D", region="R0", name="u"))))
    out.append(tryit(lambda: list(d.get_contact_charge(device="D", contact="c0", equation="E") for _ in (1,))))
    out.append(tryit(lambda: sorted((k, [float(x) for x in v]) for k, v in d.get_matrix_and_rhs(format="csc").items() if k in ("static_rhs", "static_matrix"))))
    out.append(sorted(d.get_circuit_node_list()))
    return out


USES = [use_function, use_custom, use_transient, use_param, use_circuit, use_mesh, use_math]


def work_reset(item):
    d.reset_devsim()
    want = item[1]
    for i in item[0]:
        try:
            USES[i]()
        except d.error:
            pass
    d.reset_devsim()
    got = probe()
    ctx.count(histories=1, transitions=len(item[0]) + 1)
    ctx.state("states", repr(got))
    for i, (a, b) in enumerate(zip(got, want)):
        if repr(a) != repr(b):
            ctx.violation("reset:probe%d" % i, "after %s and reset_devsim, probe %d gives %r, in a fresh process %r" % ([USES[j].__name__ for j in item[0]], i, a, b))
            return


def setup():
    vc.quiet()


if __name__ == "__main__":
    real, sys.stdout = sys.stdout, vc.Null()
    d.reset_devsim()
    FRESH = {n: d.get_parameter(name=n) for n in d.get_parameter_list()}
    r, w = os.pipe()
    if os.fork() == 0:
        import pickle
        os.write(w, pickle.dumps(probe()))
        os._exit(0)
    os.close(w)
    b = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c: break
        b += c
    os.wait()
    import pickle
    want = pickle.loads(b)
    sys.stdout = real
    full = 4 if ctx.thorough else 3
    items = []
    for b in BASES:
        n = full if b == "empty" else full - 1
        items += [[[], 0, b], [[], 1, b]] + [[[i], 2, b] for i in range(len(OPS))]
        items += [[[i, j], k, b] for k in range(3, n + 1) for i in range(len(OPS)) for j in range(len(OPS))]
    ctx.bounds.update(depth=full, alphabet=len(OPS))
    ctx.run(items, work, "hist", setup=setup, timeout=300)
    combos = [list(c) for k in (1, 2, 3) for c in itertools.permutations(range(len(USES)), k)]
    ctx.run([[c, want] for c in combos], work_reset, "reset", setup=setup, timeout=60)
    ctx.finish(len(ctx.sets.get("states", ())), ctx.stats.get("transitions", 0), ctx.stats.get("histories", 0),
               "every history of the stated depth, with and without reading every observable after each step, compared with a reference store; every ordered selection of up to three facilities used before a reset, probed against a fresh process")
