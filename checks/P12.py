#!/usr/bin/env python3
"""P12: a device that is written to a file and loaded again is the same device.

Every combination of up to two (thorough: three) features out of the saved-feature alphabet, on every base
geometry: the device is built in one process, written, and loaded in another one; every query and the assembled
system are compared, then the inputs are changed in both and everything is compared again, then the loaded
device is written again and that file has to equal the first. Every byte prefix of files that contain every
section kind is loaded: it must be refused without a crash, leave no device or mesh behind, and not stand in the
way of loading the complete file."""
import os, sys, itertools, json, pickle, re, shutil, signal, struct, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P12", assumptions=["parameters and circuit nodes are not part of a device file; both processes set them before the device is built or loaded",
                                 "names do not contain the double quote character, which the format cannot express",
                                 "values are written from and read into double precision"])
d = vc.load_devsim()
import dev as devs
from child import child
from snap import snap, differ, val, regions

SPECIAL = [5e-324, 1.7976931348623157e308, -0.0, 0.1, 1.0 / 3.0, 2.2250738585072014e-308, 1e22, 1e23, -7.2057594037927933e16,
           9007199254740993.0, 1.0000000000000002, 0.30000000000000004, -1e-17, 123456789.12345679, 3.141592653589793]
SCRATCH = tempfile.mkdtemp(prefix="p12_")


# ---- base geometries -------------------------------------------------------------------------------
def b_line(D="D"): devs.line(D)
def b_line0(D="D"): devs.line(D, contacts=False)
def b_line2(D="D"): devs.line2(D)


def b_line1d(D="D"):
    d.create_1d_mesh(mesh=D)
    for p, t in ((0.0, "a"), (1.0, "b"), (2.7, "e")):
        d.add_1d_mesh_line(mesh=D, pos=p, ps=0.6, tag=t)
    d.add_1d_region(mesh=D, region="R0", material="Si", tag1="a", tag2="b")
    d.add_1d_region(mesh=D, region="R1", material="Ox", tag1="b", tag2="e")
    d.add_1d_contact(mesh=D, name="c0", tag="a", material="metal")
    d.add_1d_contact(mesh=D, name="c1", tag="e", material="al")
    d.add_1d_interface(mesh=D, name="i0", tag="b")
    d.finalize_mesh(mesh=D)
    d.create_device(mesh=D, device=D)


def b_mesh2d(D="D"):
    d.create_2d_mesh(mesh=D)
    for p in (0.0, 1.0, 3.0):
        d.add_2d_mesh_line(mesh=D, dir="x", pos=p, ps=1.5)
    for p in (0.0, 1.0, 2.5):
        d.add_2d_mesh_line(mesh=D, dir="y", pos=p, ps=2.0)
    d.add_2d_region(mesh=D, region="R0", material="Si", xl=0.0, xh=1.0, yl=0.0, yh=2.5)
    d.add_2d_region(mesh=D, region="R1", material="Ox", xl=1.0, xh=3.0, yl=0.0, yh=2.5)
    d.add_2d_contact(mesh=D, name="c0", region="R0", material="metal", xl=0.0, xh=0.0, yl=0.0, yh=2.5, bloat=1e-9)
    d.add_2d_contact(mesh=D, name="c1", region="R1", material="metal", xl=3.0, xh=3.0, yl=0.0, yh=2.5, bloat=1e-9)
    d.add_2d_interface(mesh=D, name="i0", region0="R0", region1="R1", xl=1.0, xh=1.0, yl=0.0, yh=2.5, bloat=1e-9)
    d.finalize_mesh(mesh=D)
    d.create_device(mesh=D, device=D)


def b_tri(D="D"): devs.tri(D)
def b_tri2(D="D"): devs.tri2(D)
def b_tet1(D="D"): devs.tet1(D)
def b_tet2(D="D"): devs.tet2(D)


def b_tri2r(D="D"):
    devs.gmsh(D, devs.C2[::-1], {"R0": [tuple(6 - i for i in t) for t in devs.T2A], "R1": [tuple(6 - i for i in t[::-1]) for t in devs.T2B]},
              {"c0": ("R0", [(6, 5)]), "c1": ("R1", [(2, 1), (1, 0)])}, {"i0": ("R1", "R0", [(3, 4)])}, {"R0": "Si3N4", "R1": "two words"})


def b_ifn(D="D"):
    """two separate regions joined by create_interface_from_nodes, crossing node numbers"""
    devs.gmsh(D, devs.C2[:4] + [(10. + x, y) for x, y in devs.C2[:4]], {"R0": devs.T2A, "R1": [tuple(4 + i for i in t) for t in devs.T2A]},
              {"c0": ("R0", [(0, 1)]), "c1": ("R1", [(6, 7)])})
    d.create_interface_from_nodes(device=D, name="i0", region0="R0", region1="R1", nodes0=[2, 3, 0], nodes1=[3, 1, 2])


def b_ifn1(D="D"):
    devs.gmsh(D, [(0.,), (1.,), (3.,), (10.,), (11.,), (12.5,)], {"R0": [(0, 1), (1, 2)], "R1": [(3, 4), (4, 5)]}, {"c0": ("R0", [(0,)]), "c1": ("R1", [(5,)])})
    d.create_interface_from_nodes(device=D, name="i0", region0="R0", region1="R1", nodes0=[2, 1], nodes1=[0, 1])


def b_ifn_cfi(D="D"):
    """a contact created from an interface that has nodes but no elements"""
    b_ifn(D)
    d.create_contact_from_interface(device=D, region="R0", interface="i0", name="cx", material="poly")


def b_cfi(D="D"):
    devs.tri2(D)
    d.create_contact_from_interface(device=D, region="R1", interface="i0", name="cx", material="poly")


def b_cfi3(D="D"):
    devs.tet2(D)
    d.create_contact_from_interface(device=D, region="R0", interface="i0", name="cx", material="poly")


def b_cfi1(D="D"):
    devs.line2(D)
    d.create_contact_from_interface(device=D, region="R0", interface="i0", name="cx", material="poly")


def b_pt(D="D"):
    """2D contacts on single points; coordinates that need 17 digits"""
    devs.gmsh(D, [(1. / 3, 0.1), (4. + 2**-50, 1e-17), (0.3 - 0.1, 3.3), (4.7, 3.0000000000000004)], {"R": devs.T2A}, {"c0": ("R", [(0, 1)]), "c1": ("R", [(3,)])})


def b_two(D="D"):
    devs.line("D")
    devs.tri2("E")


def b_reader(D="D"):
    """a device that was itself loaded"""
    b_tri2(D)


BASES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("b_") and k != "b_reader"}


# ---- features ---------------------------------------------------------------------------------------
def nn(k): return len(d.get_node_model_values(name="x", **k))
def ne(k): return len(d.get_edge_model_values(name="EdgeLength", **k))
def nel(k): return len(d.get_element_model_values(name="ElementEdgeCouple", **k))


def ramp(n, a, b): return [a + b * ((i * 7) % 11) + 0.1 * i for i in range(n)]


def common():
    """what a device file does not hold"""
    d.set_parameter(name="p", value=1.25)
    d.set_parameter(name="q", value=0.75)
    d.set_parameter(name="raxis_variable", value="x")
    d.set_parameter(name="raxis_zero", value=-20.0)
    for n in ("n1", "n 2"):
        d.add_circuit_node(name=n, value=0.5)
    d.circuit_element(name="V1", n1="n1", n2="0", value=1.0)
    d.circuit_element(name="R1", n1="n 2", n2="0", value=2.0)


def f_values():
    for k, dim in regions():
        n = nn(k)
        d.node_solution(name="uni", **k)
        d.set_node_values(name="uni", values=[0.1] * n, **k)
        d.node_solution(name="zero", **k)
        for j, s in enumerate((0, 5, 9)):
            d.node_solution(name="sp%d" % j, **k)
            d.set_node_values(name="sp%d" % j, values=[SPECIAL[(i + s) % len(SPECIAL)] for i in range(n)], **k)
        d.edge_solution(name="euni", **k)
        d.set_edge_values(name="euni", values=[1. / 3] * ne(k), **k)
        d.edge_solution(name="esp", **k)
        d.set_edge_values(name="esp", values=[SPECIAL[(3 * i) % len(SPECIAL)] for i in range(ne(k))], **k)
        d.edge_solution(name="er", **k)
        d.set_edge_values(name="er", values=ramp(ne(k), 1., 2.), **k)
        if dim > 1:
            d.element_solution(name="eluni", **k)
            d.set_element_values(name="eluni", values=[-1. / 7] * nel(k), **k)
            d.element_solution(name="elr", **k)
            d.set_element_values(name="elr", values=ramp(nel(k), 1., 2.), **k)


def f_initfrom():
    """an overridden expression model: its values were set directly"""
    for k, dim in regions():
        d.node_model(name="ov", equation="V*3", **k)
        d.node_solution(name="cp", **k)
        d.set_node_values(name="cp", init_from="ov", **k)
        d.set_node_value(name="cp", index=1, value=1. / 3, **k)
        d.edge_model(name="ove", equation="EdgeLength*3", **k)
        d.edge_solution(name="cpe", **k)
        d.set_edge_values(name="cpe", init_from="ove", **k)


def f_expr():
    for k, dim in regions():
        for dt in ("scalar", "nodisplay"):
            d.node_model(name="nm_" + dt, equation="V^2 + p*x", display_type=dt, **k)
            d.node_model(name="nm_%s:V" % dt, equation="2*V", **k)
        d.edge_from_node_model(node_model="V", **k)
        for dt in ("scalar", "vector", "nodisplay"):
            d.edge_model(name="em_" + dt, equation="(V@n0 - V@n1)*q*EdgeInverseLength", display_type=dt, **k)
        d.node_model(name="deep", equation="ifelse(V > 2, exp(-V/p), log(1 + V^2)) + step(V-1) + pow(V,3)", **k)
        if dim > 1:
            d.element_from_edge_model(edge_model="em_scalar", **k)
            for dt in ("scalar", "nodisplay"):
                d.element_model(name="el_" + dt, equation="em_scalar_x * em_scalar_y + V@en0 * q" if False else "em_scalar_x * em_scalar_y * q", display_type=dt, **k)


def f_derived():
    for k, dim in regions():
        for t in ("arithmetic", "geometric", "gradient", "negative_gradient"):
            d.edge_average_model(node_model="V", edge_model="av_" + t, average_type=t, **k)
            d.edge_average_model(node_model="V", edge_model="av_" + t, average_type=t, derivative="V", **k)
        d.edge_from_node_model(node_model="V", **k)


def f_elem():
    for k, dim in regions():
        if dim == 1:
            continue
        d.edge_from_node_model(node_model="V", **k)
        d.edge_model(name="fld", equation="(V@n0 - V@n1)*EdgeInverseLength*q", **k)
        for j, s in ((0, ""), (1, "-")):
            d.edge_model(name="fld:V@n%d" % j, equation="%sEdgeInverseLength*q" % s, **k)
        d.element_from_edge_model(edge_model="fld", **k)
        d.element_from_edge_model(edge_model="fld", derivative="V", **k)
        d.element_from_node_model(node_model="V", **k)
        d.element_model(name="elx", equation="fld_x^2 + fld_y", **k)
        d.vector_element_model(element_model="elx", **k)
        if dim == 2:
            d.element_pair_from_edge_model(edge_model="fld", **k)
            d.element_pair_from_edge_model(edge_model="fld", derivative="V", **k)


def f_grad():
    for k, dim in regions():
        for t in ("default", "avoidzero"):
            d.node_solution(name="g" + t, **k)
            d.set_node_values(name="g" + t, values=ramp(nn(k), 1., 2.), **k)
            d.vector_gradient(node_model="g" + t, calc_type=t, **k)


def f_cyl():
    for k, dim in regions():
        if dim != 2:
            continue
        d.cylindrical_edge_couple(**k)
        d.cylindrical_node_volume(**k)
        d.cylindrical_surface_area(**k)


def f_contactmodel():
    for D in sorted(d.get_device_list()):
        for j, C in enumerate(sorted(d.get_contact_list(device=D))):
            k = dict(device=D, region=d.get_region_list(device=D, contact=C)[0])
            d.edge_from_node_model(node_model="V", **k)
            for dt in ("scalar", "nodisplay"):
                d.contact_node_model(device=D, contact=C, name="cn_%s%d" % (dt, j), equation="V - p", display_type=dt)
                d.contact_edge_model(device=D, contact=C, name="ce_%s%d" % (dt, j), equation="V@n0 * q", display_type=dt)


def interfaces():
    for D in sorted(d.get_device_list()):
        for I in sorted(d.get_interface_list(device=D)):
            yield D, I


def f_imodel():
    for D, I in interfaces():
        d.interface_model(device=D, interface=I, name="zi", equation="V@r0 - V@r1*p")
        d.interface_model(device=D, interface=I, name="ai", equation="zi * zi + q")
        for R in d.get_region_list(device=D, interface=I):
            if d.get_dimension(device=D) > 1:
                val(lambda: d.interface_normal_model(device=D, region=R, interface=I))


def _models(k):
    d.node_model(name="nm", equation="V^2 + p*x", **k)
    d.node_model(name="nm:V", equation="2*V", **k)
    d.edge_from_node_model(node_model="V", **k)
    d.edge_model(name="em", equation="(V@n0 - V@n1)*q*EdgeInverseLength", **k)
    d.edge_model(name="em:V@n0", equation="q*EdgeInverseLength", **k)
    d.edge_model(name="em:V@n1", equation="-q*EdgeInverseLength", **k)


def _elmodels(k):
    d.element_from_edge_model(edge_model="em", **k)
    d.element_from_edge_model(edge_model="em", derivative="V", **k)
    d.element_model(name="elm", equation="em_x*2 + em_y", **k)
    for j in range(3 if d.get_dimension(device=k["device"]) == 2 else 4):
        d.element_model(name="elm:V@en%d" % j, equation="em_x:V@en%d*2 + em_y:V@en%d" % (j, j), **k)


def f_eq(update="default", time=False):
    for k, dim in regions():
        _models(k)
        o = dict(node_model="nm", edge_model="em")
        if time:
            d.node_model(name="tm", equation="V*3", **k)
            d.node_model(name="tm:V", equation="3", **k)
            o["time_node_model"] = "tm"
        d.equation(name="eqV", variable_name="V", variable_update=update, **o, **k)


def f_eq_pos(): f_eq("positive")
def f_eq_log(): f_eq("log_damp")
def f_eq_time(): f_eq(time=True)


def f_eq_el():
    for k, dim in regions():
        _models(k)
        if dim > 1:
            _elmodels(k)
            d.equation(name="eqV", variable_name="V", element_model="elm", **k)
        else:
            d.equation(name="eqV", variable_name="V", edge_volume_model="em", **k)


def f_eq_vol():
    for k, dim in regions():
        _models(k)
        if dim > 1:
            _elmodels(k)
            d.equation(name="eqV", variable_name="V", volume_node0_model="elm", volume_node1_model="elm", edge_model="em", **k)
        else:
            d.equation(name="eqV", variable_name="V", edge_model="em", edge_volume_model="em", **k)


def f_eq_two():
    """a second equation with an awkward name"""
    for k, dim in regions():
        _models(k)
        d.node_solution(name="W", **k)
        d.set_node_values(name="W", values=ramp(nn(k), -1., 0.5), **k)
        d.node_model(name="wm", equation="W*x + 1", **k)
        d.node_model(name="wm:W", equation="x", **k)
        d.equation(name="a quation {of} #W", variable_name="W", node_model="wm", **k)


def f_ceq():
    for D in sorted(d.get_device_list()):
        for j, C in enumerate(sorted(d.get_contact_list(device=D))):
            k = dict(device=D, region=d.get_region_list(device=D, contact=C)[0])
            _models(k)
            d.equation(name="eqV", variable_name="V", node_model="nm", edge_model="em", **k)
            d.contact_node_model(device=D, contact=C, name="cm%d" % j, equation="V - p")
            d.contact_node_model(device=D, contact=C, name="cm%d:V" % j, equation="1")
            o = dict(node_model="cm%d" % j)
            if j == 0:
                o.update(edge_model="em", edge_current_model="em", node_current_model="nm", edge_charge_model="em", node_charge_model="nm")
            else:
                o.update(edge_charge_model="em", circuit_node="n1" if j == 1 else "n 2", edge_volume_model="em")
                if d.get_dimension(device=D) > 1:
                    _elmodels(k)
                    o.update(element_model="elm", element_current_model="elm", element_charge_model="elm", volume_node0_model="elm", volume_node1_model="elm")
            d.contact_equation(device=D, contact=C, name="eqV", **o)


def _ieq(t):
    for D, I in interfaces():
        for R in d.get_region_list(device=D, interface=I):
            k = dict(device=D, region=R)
            _models(k)
            d.equation(name="eqV", variable_name="V", node_model="nm", edge_model="em", **k)
        d.interface_model(device=D, interface=I, name="im", equation="V@r0 - V@r1")
        d.interface_model(device=D, interface=I, name="im:V@r0", equation="1")
        d.interface_model(device=D, interface=I, name="im:V@r1", equation="-1")
        d.interface_equation(device=D, interface=I, name="eqV", interface_model="im", type=t)


def f_ieq_c(): _ieq("continuous")
def f_ieq_f(): _ieq("fluxterm")
def f_ieq_h(): _ieq("hybrid")


def f_names():
    """one name for models of every kind, and names out of the ordinary"""
    for k, dim in regions():
        d.node_solution(name="sol", **k)
        d.set_node_values(name="sol", values=ramp(nn(k), 1., 2.), **k)
        for n in ("V@home", "a b", "#c", "begin_region", "-x", "1e5", "end_node_model", "caf\u00e9", "{}[]$", "tab\tx", "back\\slash"):
            d.node_solution(name=n, **k)
            d.set_node_values(name=n, values=ramp(nn(k), 1.5, 0.5), **k)
    for D in d.get_device_list():
        for R in d.get_region_list(device=D):
            d.set_material(device=D, region=R, material="mat of " + R)
        for C in d.get_contact_list(device=D):
            d.set_material(device=D, contact=C, material="metal-#" + C)


def f_display():
    """solutions that are not to be displayed, models replaced by other kinds, deleted models"""
    for k, dim in regions():
        d.node_model(name="was", equation="V*2", **k)
        d.node_solution(name="was", **k)
        d.set_node_values(name="was", values=ramp(nn(k), 1., 2.), **k)
        d.node_solution(name="now", **k)
        d.node_model(name="now", equation="V*5", **k)
        d.node_solution(name="gone", **k)
        d.delete_node_model(name="gone", **k)
        d.edge_model(name="gone", equation="1", **k)
        d.delete_edge_model(name="gone", **k)


FEATURES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}


def build(base, feats):
    common()
    BASES[base]()
    for k, dim in regions():
        d.node_solution(name="V", **k)
        d.set_node_values(name="V", values=ramp(nn(k), 1.0 + 0.3 * len(k["region"]), 0.7), **k)
    for f in feats:
        FEATURES[f]()


def change():
    """later changes of what the saved models depend on"""
    d.set_parameter(name="p", value=-2.5)
    d.set_parameter(name="q", value=1.5)
    for k, dim in regions():
        for n in sorted(d.get_node_model_list(**k)):
            if n in ("V", "W", "gdefault", "gavoidzero"):
                v = ramp(nn(k), 2.25, 0.4)
                if n[0] == "g":
                    v[0] = 0.0  # what a gradient that avoids zeros leaves out
                d.set_node_values(name=n, values=v, **k)
    if "D" in d.get_device_list() and "c0" in d.get_contact_list(device="D"):
        d.set_material(device="D", contact="c0", material="changed")


def read(path):
    with open(path, "rb") as f:
        return f.read()


def roundtrip(item):
    base, feats = item
    path = "%s/%d.dev" % (SCRATCH, os.getpid())
    path2 = path + "2"
    ctx.note("write")

    def plot(s):
        # which models are shown, and how, is seen in the plot file only
        def t():
            d.write_devices(file=path + "t", type="tecplot")
            return read(path + "t").split(b"\n")
        s["plot"] = val(t)

    def write():
        build(base, feats)
        s = snap()
        plot(s)
        d.write_devices(file=path, type="devsim")
        change()
        return s, snap()

    def load():
        common()
        d.load_devices(file=path)
        s = snap()
        plot(s)
        d.write_devices(file=path2, type="devsim")
        change()
        return s, snap()
    a = child(write)
    if a[0] == "died":
        return ctx.violation("write-crash:%s:%s" % (base, "+".join(feats)), "writing %s %s: %s" % (base, feats, a[1]))
    if a[0] == "error":
        raise RuntimeError("world %s %s cannot be built: %s" % (base, feats, a[1]))
    ctx.note("load")
    b = child(load)
    ctx.count(worlds=1)
    if b[0] != "ok":
        return ctx.violation("load:%s:%s" % (base, "+".join(feats)), "loading the file of %s %s: %s" % (base, feats, b[1][:600]))
    for which, x, y in (("after load", a[1][0], b[1][0]), ("after changing the inputs", a[1][1], b[1][1])):
        ctx.count(observables=len(x))
        df = differ(x, y)
        if df:
            ctx.violation("differs:%s:%s" % (base, "+".join(feats)), "%s %s %s: %d differences, first: %s" % (base, feats, which, len(df), df[:3]))
            break
    ctx.state("worlds", json.dumps(sorted((str(k), str(v)) for k, v in a[1][0].items())))
    f1, f2 = (re.sub(rb'-equation "[^"]*"', b"-equation", read(p)) for p in (path, path2))
    if f1 != f2:
        l1, l2 = f1.split(b"\n"), f2.split(b"\n")
        i = next((i for i in range(min(len(l1), len(l2))) if l1[i] != l2[i]), min(len(l1), len(l2)))
        ctx.violation("rewrite:%s:%s" % (base, "+".join(feats)), "%s %s: the loaded device is written differently, line %d: %s / %s" % (
            base, feats, i + 1, l1[i:i + 1], l2[i:i + 1]))
    ctx.count(bytes_written=len(f1))
    os.unlink(path)
    os.unlink(path2)
    os.unlink(path + "t")


def combos(n):
    fs = sorted(FEATURES)
    for b in sorted(BASES):
        for r in range(n + 1):
            for c in itertools.combinations(fs, r):
                yield (b, c)


# ---- damaged files -----------------------------------------------------------------------------------
DAMAGE = {"line": ("line", ("expr", "ceq")), "line2": ("line2", ("ieq_c", "imodel")), "tri2": ("tri2", ("elem", "ieq_f", "display")), "two": ("two", ("eq_two",)),
          "tet1": ("tet1", ("eq_vol", "names"))}
REF = {}


def reference(name):
    """file, snapshot of the loaded file"""
    if name not in REF:
        base, feats = DAMAGE[name]
        path = "%s/ref_%s_%d" % (SCRATCH, name, os.getpid())

        def write():
            build(base, feats)
            d.write_devices(file=path, type="devsim")

        def load():
            common()
            d.load_devices(file=path)
            return snap(False)
        a = child(write)
        assert a[0] == "ok", a
        b = child(load)
        assert b[0] == "ok", b
        REF[name] = (read(path), b[1])
        os.unlink(path)
    return REF[name]


def world_state():
    return (sorted(d.get_device_list()), sorted(d.get_mesh_list()), sorted(d.get_parameter_list()), sorted(d.get_circuit_node_list()))


def clear():
    for x in list(d.get_device_list()):
        d.delete_device(device=x)
    for x in list(d.get_mesh_list()):
        d.delete_mesh(mesh=x)


def attempt(path, content, full, s_full, expect, where, deep):
    """load damaged content in this process: refused (expect True), or either way without a trace"""
    s0 = world_state()
    with open(path, "wb") as f:
        f.write(content)
    ctx.note(where)
    try:
        d.load_devices(file=path)
        ok = True
    except d.error as e:
        ok = False
        if not str(e).strip():
            ctx.violation("silent:" + where, where + ": error without a message")
    ctx.count(loads=1)
    if ok and expect is True:
        ctx.violation("accepted:" + where, "%s is accepted, devices %s" % (where, sorted(d.get_device_list())))
    if not ok and expect is False:
        ctx.violation("refused:" + where, "%s is refused" % where)
    if ok:
        try:
            snap(False)
        except d.error:
            pass        # an empty name, which no command accepts
        clear()
    s1 = world_state()
    if s1 != s0:
        ctx.violation("trace:" + where, "%s: %s became %s" % (where, s0, s1))
        clear()
    if deep:
        with open(path, "wb") as f:
            f.write(full)
        try:
            d.load_devices(file=path)
            df = differ(s_full, snap(False))
            if df:
                ctx.violation("after:" + where, "the complete file loaded after %s differs: %s" % (where, df[:2]))
        except d.error as e:
            ctx.violation("after:" + where, "the complete file cannot be loaded after %s: %s" % (where, str(e)[:300]))
        ctx.count(loads=1)
        clear()


def truncated(item):
    name, lo, hi, deep = item
    full, s_full = reference(name)
    hi = min(hi, len(full))

    def go():
        ctx.viol, ctx.stats = [], {}
        common()
        path = "%s/cut_%d" % (SCRATCH, os.getpid())
        for n in range(lo, hi):
            part = full[:n]
            t = part.rstrip()
            whole = t.endswith(b"\nend_device") and t.count(b"\nend_device") == (b"\n" + t).count(b"\nbegin_device")
            attempt(path, part, full, s_full, not whole, "%s cut after %d bytes" % (name, n), deep and (n % 8 == 0 or part[-1:] == b"\n"))
        os.unlink(path)
        return ctx.viol, ctx.stats
    merge(item, child(go, 300))


def merge(item, r):
    if r[0] != "ok":
        return ctx.violation("crash:%s" % (item,), "%s: %s" % (item, r[1]))
    for k, w, rep in r[1][0]:
        ctx.violation(k, w)
    ctx.count(**r[1][1])


def lines_of(name):
    return reference(name)[0].split(b"\n")


NUM = re.compile(rb"-?\d+(?:\.\d+e[+-]\d+)?")


def damages(name, n):
    """every one-place damage of line n"""
    ls = lines_of(name)
    l = ls[n]
    out = [("line removed", []), ("line doubled", [l, l])]
    if n + 1 < len(ls):
        out.append(("swapped with the next", [ls[n + 1], l]))
    if l and not l.startswith(b"COMMAND"):
        for m in list(NUM.finditer(l))[:6]:
            if b'"' in l:
                continue
            for v in (b"-1", b"99999", b"0", b"99999999999999999999", b"1e999", b"nan", b"x", b""):
                out.append(("number %d -> %s" % (m.start(), v.decode()), [l[:m.start()] + v + l[m.end():]]))
    for q in re.finditer(rb'"[^"]*"', l):
        for v in (b'""', b'"nosuch"'):
            out.append(("string %d -> %s" % (q.start(), v.decode()), [l[:q.start()] + v + l[q.end():]]))
    for w in re.finditer(rb"(?<![\"\w])-?[a-zA-Z_]+(?=[\s]|$)", l.split(b'"')[0]):
        out.append(("word %d removed" % w.start(), [l[:w.start()] + l[w.end():]]))
    return out


def damaged(item):
    name, lo, hi = item
    full, s_full = reference(name)
    ls = lines_of(name)

    def go():
        ctx.viol, ctx.stats = [], {}
        common()
        path = "%s/dam_%d" % (SCRATCH, os.getpid())
        last = None
        for n in range(lo, min(hi, len(ls))):
            for k, (what, new) in enumerate(damages(name, n)):
                skip = 2 if what.startswith("swapped") else 1
                attempt(path, b"\n".join(ls[:n] + new + ls[n + skip:]), full, s_full, None, "%s line %d %s" % (name, n + 1, what), k % 4 == 0)
        os.unlink(path)
        return ctx.viol, ctx.stats
    merge(item, child(go, 300))


def unwritable(item):
    """every writer on targets that cannot be written"""
    kind, target, base = item

    def go():
        ctx.viol, ctx.stats = [], {}
        common()
        BASES[base]()
        dirn = tempfile.mkdtemp(dir=SCRATCH)
        os.chdir(dirn)
        path = {"full": "/dev/full", "dir": dirn, "missing": dirn + "/no/such/file", "empty": ""}[target]
        if kind == "vtk" and target == "full":
            path = dirn + "/f"
            os.symlink("/dev/full", path + ".vtm")
            os.symlink("/dev/full", path + "_0.vtu")
        for dv in ([], ["D"], ["nosuch"]):
            good = "%s/keep" % dirn
            o = dict(device=dv[0]) if dv else {}
            s0 = snap(False)
            try:
                d.write_devices(file=path, type=kind, **o)
                if target != "empty" and not (kind == "vtk" and target == "dir"):
                    ctx.violation("write:%s:%s:%s" % (kind, target, dv), "write_devices type %s on %s device %s reports success" % (kind, target, dv))
            except d.error as e:
                pass
            ctx.count(writes=1)
            if snap(False) != s0:
                ctx.violation("writestate:%s:%s" % (kind, target), "a failed write changes the state")
        shutil.rmtree(dirn)
        return ctx.viol, ctx.stats
    merge(item, child(go))


def unreadable(item):
    target = item[0]

    def go():
        ctx.viol, ctx.stats = [], {}
        dirn = tempfile.mkdtemp(dir=SCRATCH)
        os.chdir(dirn)
        open(dirn + "/e", "w").close()
        with open(dirn + "/bin", "wb") as f:
            f.write(bytes(range(256)) * 40)
        with open(dirn + "/long", "wb") as f:
            f.write(b"begin_device \"" + b"a" * 300000)
        with open(dirn + "/nodev", "wb") as f:
            f.write(b"# only a comment\n\n")
        p = {"dir": dirn, "missing": dirn + "/x", "empty": dirn + "/e", "binary": dirn + "/bin", "long": dirn + "/long", "comment": dirn + "/nodev", "noname": ""}[target]
        s0 = world_state()
        for call in (lambda: d.load_devices(file=p), lambda: d.create_gmsh_mesh(file=p, mesh="G")):
            try:
                call()
                ctx.violation("read:%s" % target, "reading %s reports success" % target)
            except d.error as e:
                pass
            ctx.count(loads=1)
            if call is not None and world_state() != s0:
                ctx.violation("readstate:%s" % target, "reading %s: %s became %s" % (target, s0, world_state()))
        return ctx.viol, ctx.stats
    merge(item, child(go))


def main():
    ctx.run(list(combos(3 if ctx.thorough else 2)), roundtrip, "roundtrip", timeout=60, setup=vc.quiet)
    names = sorted(DAMAGE) if ctx.thorough else ["line", "line2", "two"]
    cuts, dams = [], []
    for n in names:
        full = reference(n)[0]
        cuts += [(n, i, i + 400, True) for i in range(0, len(full), 400)]
        dams += [(n, i, i + 8) for i in range(0, len(lines_of(n)), 8)]
    ctx.run(cuts, truncated, "cut", timeout=400, setup=vc.quiet)
    ctx.run(dams, damaged, "damage", timeout=400, setup=vc.quiet)
    ctx.run([(k, t, b) for k in ("devsim", "devsim_data", "vtk", "tecplot") for t in ("full", "dir", "missing", "empty") for b in ("tri2", "line", "tet2")], unwritable, "write", timeout=60, setup=vc.quiet)
    ctx.run([(t,) for t in ("dir", "missing", "empty", "binary", "long", "comment", "noname")], unreadable, "read", timeout=60, setup=vc.quiet)
    shutil.rmtree(SCRATCH)
    s = ctx.stats
    ctx.finish(states=len(ctx.sets.get("worlds", ())) + s.get("loads", 0), transitions=s.get("observables", 0) + s.get("loads", 0) + s.get("writes", 0), traces=s.get("worlds", 0),
               rule="every base geometry x every subset of at most %d saved features, and every byte prefix and every one-place damage of the reference files" % (3 if ctx.thorough else 2),
               extra={"features": sorted(FEATURES), "bases": sorted(BASES)})


main()
