#!/usr/bin/env python3
"""P13: a command that fails says so and changes nothing.

A populated simulator (1D, 2D and 3D devices with equations, interfaces, contacts, circuit, unfinished and
finished meshes) is brought into each of several histories. From each, every command is called with a valid
call's arguments after every single corruption out of the alphabet (thorough: every pair of corruptions), each in
a forked process. A call that raises must raise the simulator's own error with a message, must leave everything
observable and the reference counts of its arguments unchanged, and the uncorrupted call and a solve
made afterwards must give what they give without the failed call. Corruptions that cannot be valid must raise."""
import os, sys, itertools, json, math, mmap, re, shutil, struct, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P13", assumptions=["arguments outside the option tables' types are judged only by: no crash, no foreign exception, no partial effect",
                                 "the numbers in a mesh description that is accepted are judged by P11"])
d = vc.load_devsim()
import dev as devs
from child import child
import snap
from snap import world, differ
snap.FAST[0] = True
GOODPID = [0]
SCRATCH = tempfile.mkdtemp(prefix="p13_")


def p_gv(x, y=0.0):
    return x * x + y


def p_custom(what, mode):
    return ([], [], True)


# ---- the populated simulator --------------------------------------------------------------------------
def eqs(D, R, extra=()):
    k = dict(device=D, region=R)
    d.node_solution(name="u", **k)
    d.edge_from_node_model(node_model="u", **k)
    n = len(d.get_node_model_values(name="u", **k))
    d.set_node_values(name="u", values=[0.2 + 0.1 * i for i in range(n)], **k)
    d.edge_model(name="g", equation="mu*(u@n0-u@n1)*EdgeInverseLength", **k)
    d.edge_model(name="g:u@n0", equation="mu*EdgeInverseLength", **k)
    d.edge_model(name="g:u@n1", equation="-mu*EdgeInverseLength", **k)
    d.node_model(name="s", equation="0.1*u + u^3 - gp", **k)
    d.node_model(name="s:u", equation="0.1 + 3*u^2", **k)
    d.node_model(name="q", equation="u", **k)
    d.node_model(name="q:u", equation="1", **k)
    d.node_solution(name="free", **k)
    d.edge_solution(name="efree", **k)
    d.equation(name="E", variable_name="u", node_model="s", edge_model="g", time_node_model="q", **k)
    d.set_parameter(name="rp", value=2.0, **k)


def common(D):
    d.contact_node_model(device=D, contact="c0", name="cm0", equation="u-b0")
    d.contact_node_model(device=D, contact="c0", name="cm0:u", equation="1")
    d.contact_edge_model(device=D, contact="c0", name="cem0", equation="g*2")
    d.contact_equation(device=D, contact="c0", name="E", node_model="cm0", edge_current_model="g")
    d.set_parameter(device=D, name="b0", value=0.25)
    d.set_parameter(device=D, name="dp", value=3.0)
    d.interface_model(device=D, interface="i0", name="im", equation="u@r0-u@r1")
    d.interface_model(device=D, interface="i0", name="im:u@r0", equation="1")
    d.interface_model(device=D, interface="i0", name="im:u@r1", equation="-1")
    d.interface_equation(device=D, interface="i0", name="E", interface_model="im", type="continuous")


def meshes():
    for m in ("m1", "m1f"):
        d.create_1d_mesh(mesh=m)
        for t, p in (("a", 0.0), ("b", 1.0), ("c", 2.5)):
            d.add_1d_mesh_line(mesh=m, tag=t, pos=p, ps=0.5)
        d.add_1d_region(mesh=m, region="R0", material="Si", tag1="a", tag2="b")
        d.add_1d_region(mesh=m, region="R1", material="Ox", tag1="b", tag2="c")
        d.add_1d_contact(mesh=m, name="c0", tag="a", material="metal")
        d.add_1d_contact(mesh=m, name="c1", tag="c", material="metal")
        d.add_1d_interface(mesh=m, name="i0", tag="b")
    for m in ("m2", "m2f"):
        d.create_2d_mesh(mesh=m)
        for dr in "xy":
            for p in (0.0, 1.0, 2.0):
                d.add_2d_mesh_line(mesh=m, dir=dr, pos=p, ps=1.0)
        d.add_2d_region(mesh=m, region="R0", material="Si", xl=0.0, xh=1.0, yl=0.0, yh=2.0)
        d.add_2d_region(mesh=m, region="R1", material="Ox", xl=1.0, xh=2.0, yl=0.0, yh=2.0)
        d.add_2d_contact(mesh=m, name="c0", region="R0", material="metal", xl=0.0, xh=0.0, yl=0.0, yh=2.0, bloat=0.1)
        d.add_2d_interface(mesh=m, name="i0", region0="R0", region1="R1", xl=1.0, xh=1.0, bloat=0.1)
    for m in ("mg", "mgf"):
        d.create_gmsh_mesh(mesh=m, **GM)
        d.add_gmsh_region(mesh=m, gmsh_name="g0", region="R0", material="Si")
        d.add_gmsh_region(mesh=m, gmsh_name="g1", region="R1", material="Ox")
        d.add_gmsh_contact(mesh=m, gmsh_name="gc", region="R0", name="c0", material="metal")
        d.add_gmsh_interface(mesh=m, gmsh_name="gi", region0="R0", region1="R1", name="i0")
    for m in ("m1f", "m2f", "mgf"):
        d.finalize_mesh(mesh=m)


GM = dict(coordinates=[0., 0., 0., 1., 0., 0., 0., 1., 0., 1., 1., 0.], physical_names=["g0", "g1", "gc", "gi"],
          elements=[2, 0, 0, 1, 2, 2, 1, 1, 3, 2, 1, 2, 0, 2, 1, 3, 1, 2])


def populate(solved):
    devs.line2("G")
    GOODPID[0] = os.getpid()
    d.write_devices(file=SCRATCH + "/good_%d.dev" % os.getpid(), device="G")
    d.delete_device(device="G")
    d.delete_mesh(mesh="G")
    meshes()
    d.set_parameter(name="gp", value=0.5)
    d.set_parameter(name="mu", value=1.5)
    d.register_function(name="uf", procedure=p_gv, nargs=2)
    d.symdiff(expr="declare(uf(x,y))")
    devs.line2("L")
    devs.tri2("T")
    devs.tet2("K")
    for D in ("L", "T", "K"):
        for R in ("R0", "R1"):
            eqs(D, R)
        common(D)
    for D in ("T", "K"):
        for R in ("R0", "R1"):
            k = dict(device=D, region=R)
            d.element_from_edge_model(edge_model="g", **k)
            d.element_from_edge_model(edge_model="g", derivative="u", **k)
            d.element_model(name="em", equation="g_x*2", **k)
            d.element_solution(name="elfree", **k)
    d.circuit_element(name="V1", n1="n1", n2="0", value=1.0, acreal=1.0)
    d.circuit_element(name="R1", n1="n1", n2="n2", value=2.0)
    d.circuit_element(name="R2", n1="n2", n2="0", value=3.0)
    d.add_circuit_node(name="nx", value=0.5)
    d.circuit_element(name="R3", n1="nx", n2="0", value=3.0)
    d.circuit_node_alias(node="n1", alias="nalias")
    for D in ("L", "T", "K"):
        d.contact_node_model(device=D, contact="c1", name="cm1", equation="u-n1")
        d.contact_node_model(device=D, contact="c1", name="cm1:u", equation="1")
        d.contact_node_model(device=D, contact="c1", name="cm1:n1", equation="-1")
        d.contact_equation(device=D, contact="c1", name="E", node_model="cm1", edge_current_model="g", circuit_node="n1")
    for D in ("T",):
        d.set_parameter(device=D, name="raxis_variable", value="x")
        d.set_parameter(device=D, name="raxis_zero", value=-10.0)
    if solved:
        d.solve(type="transient_dc", absolute_error=1e-6, relative_error=1e-10, maximum_iterations=30)


def w_full():
    populate(True)


def w_unsolved():
    populate(False)


def w_empty():
    pass


WORLDS = {"full": w_full, "unsolved": w_unsolved, "empty": w_empty}

# ---- one valid call of every command (several for some) --------------------------------------------------
L = dict(device="L", region="R0")
T = dict(device="T", region="R0")
K = dict(device="K", region="R0")
NEWG = {k: v for k, v in GM.items()}
SOLVE = dict(type="dc", absolute_error=1e-6, relative_error=1e-10, maximum_iterations=30)
CALLS = [
    ("reset_devsim", {}), ("get_device_list", {}), ("get_mesh_list", {}), ("delete_circuit", {}), ("get_circuit_node_list", {}), ("get_circuit_solution_list", {}),
    ("get_region_list", dict(device="L")), ("get_region_list", dict(device="L", contact="c0")), ("get_region_list", dict(device="L", interface="i0")),
    ("get_interface_list", dict(device="L")), ("get_contact_list", dict(device="L")),
    ("get_element_node_list", dict(reorder=True, **T)), ("get_element_node_list", dict(contact="c0", **T)), ("get_element_node_list", dict(interface="i0", **T)),
    ("get_element_node_list", dict(interface="i0", **K)), ("get_element_node_list", dict(**L)),
    ("set_parameter", dict(name="gp", value=0.75)), ("set_parameter", dict(name="dp", device="L", value="text")), ("set_parameter", dict(name="new", value=1.0, **L)),
    ("set_parameter", dict(name="threads_available", value=2)), ("set_parameter", dict(name="extended_model", value=True)), ("set_parameter", dict(name="debug_level", value="info")),
    ("set_parameter", dict(name="debug_level", value="verbose", **L)), ("set_parameter", dict(name="raxis_zero", value=-1.0, **T)),
    ("set_parameter", dict(name="node_volume_model", value="NodeVolume")),
    ("get_parameter", dict(name="gp")), ("get_parameter", dict(name="dp", device="L")), ("get_parameter", dict(name="rp", **L)),
    ("get_parameter_list", {}), ("get_parameter_list", dict(device="L")), ("get_parameter_list", dict(**L)),
    ("set_material", dict(material="Ge", **L)), ("set_material", dict(material="Al", device="L", contact="c0")),
    ("get_material", dict(**L)), ("get_material", dict(device="L", contact="c0")), ("get_dimension", dict(device="K")),
    ("node_solution", dict(name="w", **L)), ("edge_solution", dict(name="w", **L)), ("element_solution", dict(name="w", **T)),
    ("node_model", dict(name="w", equation="u*2", display_type="scalar", **L)), ("node_model", dict(name="s", equation="u*2+uf(u,u)", **L)),
    ("edge_model", dict(name="w", equation="u@n0*g", display_type="vector", **L)), ("element_model", dict(name="w", equation="g_x*em", display_type="nodisplay", **T)),
    ("element_model", dict(name="w", equation="g_x*em", **K)),
    ("contact_node_model", dict(device="L", contact="c0", name="w", equation="u*2", display_type="scalar")),
    ("contact_edge_model", dict(device="L", contact="c0", name="w", equation="g*2", display_type="scalar")),
    ("interface_model", dict(device="L", interface="i0", name="w", equation="u@r0*2")),
    ("edge_from_node_model", dict(node_model="q", **L)), ("element_from_node_model", dict(node_model="q", **T)), ("vector_gradient", dict(node_model="u", calc_type="default", **T)),
    ("vector_gradient", dict(node_model="u", calc_type="avoidzero", **K)),
    ("edge_average_model", dict(node_model="q", edge_model="w", average_type="arithmetic", **L)), ("edge_average_model", dict(node_model="u", edge_model="w", average_type="geometric", derivative="u", **L)),
    ("edge_average_model", dict(node_model="u", edge_model="w", average_type="gradient", **L)),
    ("element_from_edge_model", dict(edge_model="efree", **T)), ("element_from_edge_model", dict(edge_model="g", derivative="u", **K)),
    ("element_pair_from_edge_model", dict(edge_model="efree", **T)), ("element_pair_from_edge_model", dict(edge_model="g", derivative="u", **T)),
    ("vector_element_model", dict(element_model="g_x", **T)), ("vector_element_model", dict(element_model="em", **T)), ("vector_element_model", dict(element_model="em", **K)),
    ("debug_triangle_models", dict(**T)), ("interface_normal_model", dict(interface="i0", **T)), ("interface_normal_model", dict(interface="i0", **K)),
    ("cylindrical_edge_couple", dict(**T)), ("cylindrical_node_volume", dict(**T)), ("cylindrical_surface_area", dict(**T)),
    ("get_node_model_list", dict(**L)), ("get_edge_model_list", dict(**L)), ("get_element_model_list", dict(**T)), ("get_interface_model_list", dict(device="L", interface="i0")),
    ("get_node_model_values", dict(name="u", **L)), ("get_edge_model_values", dict(name="g", **L)), ("get_element_model_values", dict(name="em", **T)), ("get_interface_model_values", dict(device="L", interface="i0", name="im")),
    ("print_node_values", dict(name="u", **L)), ("print_edge_values", dict(name="g", **L)), ("print_element_values", dict(name="em", **T)), ("print_element_values", dict(name="em", **K)),
    ("delete_node_model", dict(name="q", **L)), ("delete_edge_model", dict(name="g", **L)), ("delete_element_model", dict(name="em", **T)), ("delete_interface_model", dict(device="L", interface="i0", name="im")),
    ("set_node_values", dict(name="free", values=[1.0, 2.0, 3.0], **L)), ("set_node_values", dict(name="free", init_from="u", **L)), ("set_edge_values", dict(name="efree", values=[1.0, 2.0], **L)),
    ("set_edge_values", dict(name="efree", init_from="g", **L)), ("set_element_values", dict(name="elfree", init_from="em", **T)), ("set_element_values", dict(name="elfree", values=[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], **T)),
    ("set_node_value", dict(name="free", index=1, value=2.5, **L)), ("set_node_value", dict(name="u", index=0, value=2.5, **T)),
    ("symdiff", dict(expr="diff(x^2*log(x),x)")), ("register_function", dict(name="uf2", procedure=p_gv, nargs=2)), ("register_function", dict(name="uf", procedure=p_gv, nargs=1)),
    ("equation", dict(name="E2", variable_name="free", node_model="s", edge_model="g", time_node_model="q", variable_update="positive", edge_volume_model="g", **L)),
    ("equation", dict(name="E", variable_name="u", node_model="s", edge_model="g", variable_update="log_damp", **L)),
    ("equation", dict(name="E2", variable_name="free", element_model="em", volume_node0_model="em", volume_node1_model="em", **T)),
    ("contact_equation", dict(device="L", contact="c0", name="E", node_model="cm0", edge_model="g", edge_current_model="g", node_charge_model="s", edge_charge_model="g", node_current_model="s", edge_volume_model="g")),
    ("contact_equation", dict(device="T", contact="c0", name="E", node_model="cm0", element_model="em", element_current_model="em", element_charge_model="em", volume_node0_model="em", volume_node1_model="em")),
    ("contact_equation", dict(device="L", contact="c1", name="E", node_model="cm1", edge_current_model="g", circuit_node="n1")),
    ("interface_equation", dict(device="L", interface="i0", name="E", type="fluxterm", interface_model="im")), ("interface_equation", dict(device="L", interface="i0", name="F", type="hybrid", interface_model="im", name0="E", name1="E")),
    ("custom_equation", dict(name="ce", procedure=p_custom)),
    ("get_equation_list", dict(**L)), ("get_contact_equation_list", dict(device="L", contact="c0")), ("get_interface_equation_list", dict(device="L", interface="i0")),
    ("get_equation_command", dict(name="E", **L)), ("get_contact_equation_command", dict(device="L", contact="c0", name="E")), ("get_interface_equation_command", dict(device="L", interface="i0", name="E")),
    ("delete_equation", dict(name="E", **L)), ("delete_contact_equation", dict(device="L", contact="c0", name="E")), ("delete_interface_equation", dict(device="L", interface="i0", name="E")),
    ("get_equation_numbers", dict(equation="E", **L)), ("get_equation_numbers", dict(variable="u", **L)),
    ("get_contact_current", dict(device="L", contact="c0", equation="E")), ("get_contact_charge", dict(device="L", contact="c0", equation="E")),
    ("solve", dict(SOLVE, maximum_error=1e30, maximum_divergence=20, symbolic_iteration_limit=1, solver_type="direct", info=True)),
    ("solve", dict(type="transient_bdf1", absolute_error=1e-6, relative_error=1e-10, maximum_iterations=30, tdelta=0.1, gamma=1.0, charge_error=1e10)),
    ("solve", dict(type="transient_dc", absolute_error=1e-6, relative_error=1e-10, maximum_iterations=30)),
    ("solve", dict(type="ac", frequency=10.0)), ("solve", dict(type="noise", frequency=10.0, output_node="V1.I")),
    ("get_matrix_and_rhs", dict(format="csr")), ("set_initial_condition", dict(static_rhs=[0.0] * 71, dynamic_rhs=[0.0] * 71)),
    ("add_1d_contact", dict(mesh="m1", name="w", material="metal", tag="b")), ("add_1d_interface", dict(mesh="m1", name="w", tag="b")), ("add_1d_mesh_line", dict(mesh="m1", pos=4.0, ps=1.0, ns=0.5, tag="z")),
    ("add_1d_region", dict(mesh="m1", region="R2", material="Si", tag1="a", tag2="b")),
    ("add_2d_contact", dict(mesh="m2", name="w", region="R1", material="metal", xl=2.0, xh=2.0, yl=0.0, yh=2.0, bloat=0.1)), ("add_2d_interface", dict(mesh="m2", name="w", region0="R0", region1="R1", xl=1.0, xh=1.0, yl=0.0, yh=2.0, bloat=0.1)),
    ("add_2d_mesh_line", dict(mesh="m2", pos=1.5, ps=0.5, ns=0.5, dir="x")), ("add_2d_region", dict(mesh="m2", region="R2", material="Si", xl=0.0, xh=1.0, yl=0.0, yh=1.0, bloat=0.1)),
    ("add_gmsh_contact", dict(mesh="mg", name="w", material="metal", gmsh_name="gc", region="R0")), ("add_gmsh_interface", dict(mesh="mg", name="w", gmsh_name="gi", region0="R0", region1="R1")),
    ("add_gmsh_region", dict(mesh="mg", region="R2", gmsh_name="g0", material="Si")),
    ("create_1d_mesh", dict(mesh="w")), ("create_2d_mesh", dict(mesh="w")), ("create_gmsh_mesh", dict(mesh="w", **NEWG)), ("create_gmsh_mesh", dict(mesh="w", file="GMSH")),
    ("create_contact_from_interface", dict(device="T", region="R0", interface="i0", name="w", material="metal")), ("create_contact_from_interface", dict(device="L", region="R1", interface="i0", name="w", material="metal")),
    ("create_interface_from_nodes", dict(device="L", name="w", region0="R0", region1="R1", nodes0=[0], nodes1=[2])), ("create_interface_from_nodes", dict(device="T", name="w", region0="R0", region1="R1", nodes0=[2, 3], nodes1=[0, 1])),
    ("create_device", dict(mesh="m1f", device="W")), ("create_device", dict(mesh="m2f", device="W")), ("create_device", dict(mesh="mgf", device="W")),
    ("delete_device", dict(device="L")), ("delete_mesh", dict(mesh="m1")), ("delete_mesh", dict(mesh="mgf")),
    ("finalize_mesh", dict(mesh="m1")), ("finalize_mesh", dict(mesh="m2")), ("finalize_mesh", dict(mesh="mg")),
    ("load_devices", dict(file="GOOD")), ("write_devices", dict(file="OUT", device="L", type="devsim")), ("write_devices", dict(file="OUT", type="devsim_data")),
    ("write_devices", dict(file="OUT", type="tecplot", device="T", include_test=lambda s: s == "u")), ("write_devices", dict(file="OUT", type="vtk", device="T", include_test=lambda s: s == "u")),
    ("add_circuit_node", dict(name="w", value=0.5, variable_update="positive")), ("circuit_element", dict(name="R9", n1="n1", n2="n2", value=2.0)), ("circuit_element", dict(name="V9", n1="nx", n2="0", value=2.0, acreal=1.0, acimag=0.5)),
    ("circuit_element", dict(name="C9", n1="n1", n2="n2", value=2.0)), ("circuit_element", dict(name="L9", n1="n1", n2="n2", value=2.0)), ("circuit_element", dict(name="I9", n1="n1", n2="n2", value=2.0)),
    ("circuit_alter", dict(name="V1", param="value", value=0.5)), ("circuit_alter", dict(name="R1", value=0.5)), ("circuit_node_alias", dict(node="n2", alias="w")),
    ("get_circuit_node_value", dict(node="n1", solution="dcop")), ("set_circuit_node_value", dict(node="n1", solution="dcop", value=0.5)), ("get_circuit_equation_number", dict(node="n1")),
]
REQUIRED = {
    "add_circuit_node": "name", "circuit_element": "name n1 n2", "circuit_alter": "name value", "circuit_node_alias": "node alias", "get_circuit_node_value": "node", "set_circuit_node_value": "node",
    "get_circuit_equation_number": "node", "equation": "device region name variable_name", "get_equation_list": "device region", "delete_equation": "device region name", "get_equation_command": "device region name",
    "interface_equation": "device interface name type", "get_interface_equation_list": "device interface", "delete_interface_equation": "device interface name", "get_interface_equation_command": "device interface name",
    "contact_equation": "device contact name", "get_contact_equation_list": "device contact", "delete_contact_equation": "device contact name", "get_contact_equation_command": "device contact name",
    "custom_equation": "name procedure", "get_equation_numbers": "device region", "get_region_list": "device", "get_interface_list": "device", "get_contact_list": "device", "get_element_node_list": "device region",
    "set_parameter": "name value", "get_parameter": "name", "set_material": "device material", "get_material": "device", "solve": "type", "get_contact_current": "device equation contact",
    "get_contact_charge": "device equation contact", "set_initial_condition": "static_rhs dynamic_rhs", "create_1d_mesh": "mesh", "create_2d_mesh": "mesh", "finalize_mesh": "mesh", "delete_mesh": "mesh",
    "add_1d_mesh_line": "mesh pos ps", "add_2d_mesh_line": "mesh pos ps dir", "add_1d_interface": "mesh name tag", "add_1d_contact": "mesh name material tag", "add_2d_interface": "mesh name region0 region1",
    "add_2d_contact": "mesh name material region", "add_1d_region": "mesh region material tag1 tag2", "add_2d_region": "mesh region material", "create_device": "mesh device", "delete_device": "device", "load_devices": "file",
    "write_devices": "file", "create_gmsh_mesh": "mesh", "add_gmsh_interface": "mesh name gmsh_name region0 region1", "add_gmsh_contact": "mesh name material gmsh_name region", "add_gmsh_region": "mesh region gmsh_name material",
    "create_contact_from_interface": "name material device region interface", "create_interface_from_nodes": "device name region0 region1 nodes0 nodes1", "node_solution": "device region name",
    "edge_solution": "device region name", "element_solution": "device region name", "node_model": "device region name equation", "edge_model": "device region name equation", "element_model": "device region name equation",
    "contact_node_model": "device contact name equation", "contact_edge_model": "device contact name equation", "cylindrical_edge_couple": "device region", "cylindrical_node_volume": "device region",
    "cylindrical_surface_area": "device region", "edge_from_node_model": "device region node_model", "element_from_node_model": "device region node_model", "vector_gradient": "device region node_model",
    "edge_average_model": "device region node_model edge_model", "interface_model": "device interface name equation", "set_node_values": "device region name", "set_edge_values": "device region name",
    "set_element_values": "device region name", "set_node_value": "device region name value", "print_node_values": "device region name", "print_edge_values": "device region name", "print_element_values": "device region name",
    "get_node_model_values": "device region name", "get_edge_model_values": "device region name", "get_element_model_values": "device region name", "get_interface_model_values": "device interface name",
    "delete_node_model": "device region name", "delete_edge_model": "device region name", "delete_element_model": "device region name", "delete_interface_model": "device interface name",
    "get_node_model_list": "device region", "get_edge_model_list": "device region", "get_element_model_list": "device region", "get_interface_model_list": "device interface",
    "vector_element_model": "device region element_model", "element_from_edge_model": "device region edge_model", "element_pair_from_edge_model": "device region edge_model", "debug_triangle_models": "device region",
    "interface_normal_model": "device region interface", "symdiff": "expr", "register_function": "name procedure nargs",
}
REF = {"device", "region", "contact", "interface", "mesh", "region0", "region1", "edge_model", "node_model", "element_model", "init_from", "node", "tag", "tag1", "tag2", "type", "format", "equation", "variable"}
NUMBER = {"pos", "ps", "ns", "xl", "xh", "yl", "yh", "bloat", "acreal", "acimag", "absolute_error", "relative_error", "maximum_error", "charge_error", "gamma", "tdelta", "frequency", "index", "nargs", "maximum_iterations",
          "maximum_divergence", "symbolic_iteration_limit"}
LISTS = {"values", "static_rhs", "dynamic_rhs", "nodes0", "nodes1", "coordinates", "physical_names", "elements"}
MISSING = "<missing>"


class Raiser:
    def _r(self, *a):
        raise ValueError("no")
    __str__ = __repr__ = __float__ = __int__ = __index__ = __bool__ = __len__ = __getitem__ = __iter__ = __call__ = __contains__ = _r


class NoLen:
    """a sequence without a length"""
    def __getitem__(self, i):
        return 1.0


class Liar:
    """a sequence that has no items"""
    def __len__(self):
        return 3

    def __getitem__(self, i):
        raise KeyError(i)


class Bytes:
    """an array that is none"""
    typecode = "d"
    itemsize = 8

    def tobytes(self):
        return 5


VALUES = {
    "missing": MISSING, "None": None, "empty": "", "nosuch": "nosuch", "surrogate": "\ud800", "nul": "nul", "bytes": b"x\xff", "1.5": 1.5, "nan": math.nan, "inf": math.inf, "-1": -1, "0": 0, "huge": 2 ** 70,
    "1e300": 1e300, "True": True, "list": [], "listnosuch": ["nosuch"], "listNone": [None], "listneg": [-1], "listhuge": [2 ** 62], "dict": {}, "object": object, "raiser": Raiser, "nolen": NoLen, "liar": Liar, "badarray": Bytes,
    "quote": 'a"b', "space": "a b", "long": "x" * 70000, "expr": "u@n0 +", "u": "u", "deep": "(" * 200, "func": len,
}
SHORT = ["missing", "None", "empty", "nosuch", "-1", "nan", "list", "object"]


def make(name):
    v = VALUES[name]
    return v() if isinstance(v, type) else v


def corrupt(kw, changes):
    kw = dict(kw)
    for a, c in changes:
        if c == "unknown":
            kw["no_such_option"] = object()
        elif c == "unnamed":
            kw[""] = object()
        elif c == "positional":
            kw["<pos>"] = object()
        elif c == "missing":
            kw.pop(a)
        elif c == "nul":
            kw[a] = (kw[a] if isinstance(kw[a], str) else "x") + "\0x"
        elif c == "short":
            kw[a] = list(kw[a])[:-1]
        elif c == "more":
            kw[a] = list(kw[a]) + list(kw[a])[:1]
        elif c == "mixed":
            kw[a] = list(kw[a])[:-1] + ["nosuch"]
        else:
            kw[a] = make(c)
    return kw


def mustfail(cmd, kw, changes):
    for a, c in changes:
        if c in ("unknown", "unnamed", "positional"):
            return True
        if c == "missing" and a in REQUIRED.get(cmd, "").split():
            return True
        if a in NUMBER and c in ("None", "empty", "nosuch", "list", "dict", "object", "raiser", "space", "func", "long"):
            return True
        if a in LISTS and c in ("None", "1.5", "0", "object", "func", "dict", "liar"):
            return True
        if a in ("device", "region", "contact", "interface") and c in ("nosuch", "nul", "space", "object", "list", "1.5") and cmd not in CREATES:
            return True
        if a == "mesh" and c in ("nosuch", "nul", "1.5") and not cmd.startswith("create_") or a == "mesh" and cmd == "create_device" and c == "nosuch":
            return True
        if a in ("init_from", "edge_model", "node_model", "element_model") and c == "nosuch" and cmd in ("set_node_values", "set_edge_values", "set_element_values", "edge_from_node_model", "element_from_node_model", "vector_gradient",
                                                                                                      "element_from_edge_model", "element_pair_from_edge_model", "vector_element_model"):
            return True
        if a == "name" and c == "nosuch" and cmd.split("_")[0] in ("get", "delete", "print"):
            return True
    return False


CREATES = {"create_device", "add_1d_region", "add_2d_region", "add_gmsh_region", "add_2d_contact", "add_2d_interface", "add_gmsh_contact", "add_gmsh_interface"}


def place(kw):
    kw = dict(kw)
    f = {"GOOD": SCRATCH + "/good_%d.dev" % GOODPID[0], "OUT": SCRATCH + "/out_%d" % os.getpid(), "GMSH": SCRATCH + "/good.msh"}
    if isinstance(kw.get("file"), str) and kw["file"] in f:
        kw["file"] = f[kw["file"]]
    return kw


MSH = """$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
2
2 1 "g0"
1 2 "gc"
$EndPhysicalNames
$Nodes
4
1 0 0 0
2 1 0 0
3 0 1 0
4 1 1 0
$EndNodes
$Elements
3
1 2 2 1 1 1 2 3
2 2 2 1 1 2 4 3
3 1 2 2 2 1 2
$EndElements
"""


def call(cmd, kw):
    kw = dict(kw)
    pos = [kw.pop("<pos>")] if "<pos>" in kw else []
    f = getattr(d, cmd)
    try:
        r = f(*pos, **kw)
    except d.error as e:
        try:
            return ("error", str(e))
        except Exception as x:
            return ("error", "unprintable " + repr(x))
    except BaseException as e:
        return ("foreign", "%s: %s" % (type(e).__name__, str(e)[:200]))
    return ("ok", r)


def probe(cmd, kw):
    """what follows: the valid call, the end of the open meshes, a solve"""
    out = {}
    r = call(cmd, place(kw))
    if r[0] == "ok":
        r = ("ok", repr(r[1])[:20000] if cmd not in ("symdiff",) else r[1])
    out["valid call"] = r[0] if r[0] != "ok" or "at 0x" in str(r[1]) else r
    if r[0] == "error":
        out["after valid"] = world(False)
    for m in sorted(d.get_mesh_list()):
        if m in ("m1", "m2", "mg", "w"):
            out["finalize", m] = call("finalize_mesh", dict(mesh=m))[0]
            out["create", m] = call("create_device", dict(mesh=m, device="Z" + m))[0]
    out["solve"] = call("solve", SOLVE)[0]
    out["end"] = world(False)
    return out


def flat(p):
    o = {}
    for k, v in p.items():
        if isinstance(v, dict):
            for kk, vv in v.items():
                o[(k, kk)] = vv
        else:
            o[k] = v
    return o


BASE = {}


def enter(wname):
    """this worker process becomes the given world"""
    if BASE.get("world") == wname:
        return
    assert "world" not in BASE
    WORLDS[wname]()
    BASE.update(world=wname, snap=world(False), probe={})


def group(item):
    wname, calls = item

    def go():
        ctx.viol, ctx.stats, ctx.sets = [], {}, {}
        enter(wname)
        seen = set()
        for ci, clist in calls:
            if ctx.thorough:
                seen = set()
            seen = variant(wname, ci, clist, seen)
        return ctx.viol, ctx.stats, ctx.sets
    r = child(go, 600)
    if r[0] != "ok":
        raise RuntimeError("%s: %s" % (item, r))
    for k, w, rep in r[1][0]:
        ctx.violation(k, w)
    ctx.count(**r[1][1])
    for k, v in r[1][2].items():
        ctx.sets.setdefault(k, set()).update(v)


def variant(wname, ci, clist, seen):
    cmd, kw = CALLS[ci]
    s0 = BASE["snap"]
    ref = child(lambda: flat(probe(cmd, kw)))
    if ref[0] != "ok":
        ctx.violation("valid:%s" % cmd, "%s %s in world %s: %s" % (cmd, shorten(kw), wname, ref[1]))
        return seen
    if ref[1]["valid call"] == "error":
        # not possible in this history
        df = strip(cmd, differ(s0, {k[1]: v for k, v in ref[1].items() if k[0] == "after valid"}))
        if df:
            ctx.violation("changed:%s:valid" % cmd, "%s %s fails in world %s but changes %s" % (cmd, shorten(kw), wname, df[:3]))
        print("the valid call fails: %s %s: %s" % (cmd, shorten(kw), child(lambda: call(cmd, place(kw)))), file=sys.stderr) if wname == "full" else None
    at = mmap.mmap(-1, 4096)
    i = 0
    while i < len(clist):
        at[:8] = struct.pack("q", i)
        r = child(lambda: batch(at, seen, wname, cmd, kw, clist, i, s0, ref[1]), 30 + len(clist))
        stop = struct.unpack("q", at[:8])[0]
        done = r[1][0] if r[0] == "ok" else []
        if r[0] != "ok":
            # the calls before the one that ended the process are made again
            r2 = child(lambda: batch(at, seen, wname, cmd, kw, clist[:stop], i, s0, ref[1]), 30 + len(clist)) if stop > i else ("ok", ([], seen))
            if r2[0] == "ok":
                done, seen = r2[1]
                done = list(done)
            done.append((stop, ("died", r[1], None, None, None)))
        else:
            seen = r[1][1]
        for n, res in done:
            judge(wname, cmd, kw, clist[n], res)
        i = max([n for n, _ in done] + [i]) + 1
    return seen


def shorten(kw):
    return {k: (v if not isinstance(v, str) or len(v) < 40 else v[:20] + "...") for k, v in kw.items() if not callable(v)}


def batch(at, seen, wname, cmd, kw, clist, i, s0, ref):
    """Corrupted calls one after the other, up to the first that is accepted or leaves a trace."""
    out = []
    seen = set(seen)
    for n in range(i, len(clist)):
        at[:8] = struct.pack("q", n)
        res = one(seen, cmd, kw, clist[n], s0, ref)
        out.append((n, res))
        if res[0] != "error" or res[2]:
            break
    return out, seen


def strip(cmd, df):
    """A solve that fails may have numbered the unknowns, and made the (empty) storage of its results
    and of the points it can go back to."""
    if cmd != "solve":
        return df
    def own(name):
        return name.endswith("_prev") or name.startswith(("ssac_", "noise_")) or name == "dcop"

    def storage(k, a, b):
        if isinstance(k, tuple) and (k[0] == "circuit number" or str(k[-1]).endswith("_prev") or k[0] == "circuit" and a == "None" and b in ("0.0", "0.5")):
            return True
        if k == "circuit solutions" or str(k[-1]).endswith("_models"):
            a, b = (re.findall("'([^']*)'", t) for t in (a, b))
            return set(a) <= set(b) and all(map(own, set(b) - set(a)))
        return False
    return [x for x in df if not storage(*x)]


def kind_of(msg):
    return re.sub(r'"[^"]*"', '""', msg)


def one(seen, cmd, kw, changes, s0, ref):
    bad = corrupt(place(kw), changes)
    refs = {k: sys.getrefcount(v) for k, v in bad.items()}
    r = call(cmd, bad)
    if r[0] == "foreign":
        return (r[0], r[1], None, None, None)
    if r[0] == "ok":
        r = None
        try:
            world(False)
            d.reset_devsim()
        except BaseException as e:
            return ("poisoned", "%s: %s" % (type(e).__name__, str(e)[:200]), None, None, None)
        return ("ok", "", None, None, None)
    after = {k: sys.getrefcount(v) for k, v in bad.items()}
    leak = [k for k in refs if refs[k] != after[k]]
    if r[1].startswith("unprintable"):
        return ("foreign", r[1], None, None, None)
    try:
        df = strip(cmd, differ(s0, world(False)))
    except BaseException as e:
        return ("poisoned", "%s: %s" % (type(e).__name__, str(e)[:200]), None, None, None)
    pr = None
    # one continuation per kind of error of a call
    if kind_of(r[1]) not in seen:
        seen.add(kind_of(r[1]))
        p = child(lambda: flat(probe(cmd, kw)), 20)
        pr = differ(ref, p[1]) if p[0] == "ok" else [p]
    return (r[0], r[1], df, leak, pr)


def judge(wname, cmd, kw, changes, res):
    label = "%s %s with %s in world %s" % (cmd, shorten(kw), ", ".join("%s=%s" % c for c in changes), wname)
    key = "%s:%s" % (cmd, "+".join("%s=%s" % c for c in changes))
    ctx.count(calls=1)
    ctx.state("calls", json.dumps((wname, cmd, sorted(kw), changes), default=str))
    kind, msg, df, leak, pr = res
    if kind == "died":
        return ctx.violation("crash:" + key, "%s: %s" % (label, msg))
    if kind == "poisoned":
        return ctx.violation("poisoned:" + key, "after %s a query raises %s" % (label, msg))
    if kind == "foreign":
        return ctx.violation("foreign:" + key, "%s raises %s" % (label, msg))
    if kind == "ok":
        ctx.count(accepted=1)
        if mustfail(cmd, kw, changes):
            ctx.violation("accepted:" + key, "%s is accepted" % label)
        return
    ctx.count(rejected=1, continuations=int(pr is not None))
    if not msg.strip():
        ctx.violation("silent:" + key, "%s: the error has no message" % label)
    if "UNEXPECTED" in msg.replace("UNEXPECTED missing time data", "") or "Uncaught FPE" in msg:
        ctx.violation("unexpected:" + key, "%s: %s" % (label, msg[:200]))
    if df:
        ctx.violation("changed:" + key, "%s fails (%s) but changes %s" % (label, msg[:100], df[:3]))
    if leak:
        ctx.violation("refcount:" + key, "%s changes the reference count of %s" % (label, leak))
    if pr:
        ctx.violation("after:" + key, "after the failed %s (%s): %s" % (label, msg[:100], pr[:3]))


def items():
    for w in ("full", "unsolved", "empty"):
        per = {}
        for ci, (cmd, kw) in enumerate(CALLS):
            if w == "unsolved" and not ctx.thorough and not re.search("circuit|solve|equation|matrix|initial|current|charge", cmd):
                continue
            singles = [(("", "unknown"),), (("", "unnamed"),), (("", "positional"),)]
            for a in sorted(kw):
                vs = list(VALUES) if (w == "full" or ctx.thorough) else SHORT if w == "unsolved" else SHORT[::2]
                if isinstance(kw[a], list):
                    vs = vs + ["short", "more", "mixed"]
                singles += [((a, v),) for v in vs]
            per.setdefault(cmd, []).append((ci, tuple(singles)))
            if w == "full" and ctx.thorough:
                pairs = [((a, x), (b, y)) for a, b in itertools.combinations(sorted(kw), 2) for x in SHORT for y in SHORT]
                for i in range(0, len(pairs), 400):
                    yield (w, ((ci, tuple(pairs[i:i + 400])),))
        for cmd in sorted(per, key=lambda c: -sum(len(x) for _, x in per[c])):
            yield (w, tuple(per[cmd]))


def main():
    with open(SCRATCH + "/good.msh", "w") as f:
        f.write(MSH)
    names = {n for n in dir(d) if callable(getattr(d, n)) and not n.startswith("_") and n != "error" and type(getattr(d, n)).__name__ == "builtin_function_or_method"}
    unknown = names ^ {c for c, _ in CALLS}
    print("commands without a valid call:", sorted(unknown))
    os.mkdir(SCRATCH + "/cwd")
    os.chdir(SCRATCH + "/cwd")
    ctx.run(items(), group, "corrupt", timeout=900, setup=vc.quiet)
    os.chdir("/")
    shutil.rmtree(SCRATCH)
    s = ctx.stats
    ctx.finish(states=len(ctx.sets.get("calls", ())), transitions=s.get("calls", 0), traces=s.get("calls", 0),
               rule="every valid call of the table x every argument x every corruption of the alphabet, in every world" + ("; every pair of arguments x the short alphabet" if ctx.thorough else ""),
               extra={"commands": len(names)})


main()
