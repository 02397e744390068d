"""Everything observable of the simulator through its query commands."""
import array
import devsim as d

FAST = [False]     # values as bytes instead of lists

def regions():
    for D in sorted(d.get_device_list()):
        for R in sorted(d.get_region_list(device=D)):
            yield dict(device=D, region=R), d.get_dimension(device=D)


# ---- complete observable snapshot ------------------------------------------------------------------
def val(fn):
    try:
        v = fn()
    except d.error as e:
        return "error"
    if FAST[0] and isinstance(v, array.array):
        return (v.typecode, v.tobytes())
    if isinstance(v, (int, float)):
        return repr(v)
    return [x.hex() for x in v] if v and isinstance(v[0], float) else list(v) if isinstance(v, (tuple, list)) else v


def snap(matrix=True):
    s = {}
    for D in sorted(d.get_device_list()):
        s[D, "dim"] = d.get_dimension(device=D)
        s[D, "regions"] = sorted(d.get_region_list(device=D))
        s[D, "contacts"] = sorted(d.get_contact_list(device=D))
        s[D, "interfaces"] = sorted(d.get_interface_list(device=D))
        for R in s[D, "regions"]:
            k = dict(device=D, region=R)
            s[D, R, "material"] = d.get_material(**k)
            s[D, R, "elements"] = d.get_element_node_list(**k)
            for kind in ("node", "edge", "element"):
                if kind == "element" and s[D, "dim"] == 1:
                    continue
                names = sorted(getattr(d, "get_%s_model_list" % kind)(**k))
                s[D, R, kind + "_models"] = names
                for n in names:
                    s[D, R, kind, n] = val(lambda: getattr(d, "get_%s_model_values" % kind)(name=n, **k))
            s[D, R, "equations"] = sorted(d.get_equation_list(**k))
            for e in s[D, R, "equations"]:
                s[D, R, "equation", e] = sorted(d.get_equation_command(name=e, **k).items())
        for C in s[D, "contacts"]:
            k = dict(device=D, contact=C)
            s[D, C, "region"] = d.get_region_list(**k)
            s[D, C, "material"] = d.get_material(**k)
            s[D, C, "elements"] = sorted(map(sorted, d.get_element_node_list(region=s[D, C, "region"][0], **k)))
            s[D, C, "equations"] = sorted(d.get_contact_equation_list(**k))
            for e in s[D, C, "equations"]:
                s[D, C, "equation", e] = sorted(d.get_contact_equation_command(name=e, **k).items())
        for I in s[D, "interfaces"]:
            k = dict(device=D, interface=I)
            s[D, I, "region"] = d.get_region_list(**k)
            for R in s[D, I, "region"]:
                s[D, I, R, "elements"] = val(lambda: sorted(map(sorted, d.get_element_node_list(region=R, **k))))
            s[D, I, "models"] = sorted(d.get_interface_model_list(**k))
            for n in s[D, I, "models"]:
                s[D, I, "model", n] = val(lambda: d.get_interface_model_values(name=n, **k))
            s[D, I, "equations"] = sorted(d.get_interface_equation_list(**k))
            for e in s[D, I, "equations"]:
                s[D, I, "equation", e] = sorted(d.get_interface_equation_command(name=e, **k).items())
    if matrix:
        def m():
            # by equation and node: the numbering of the unknowns is not part of the meaning
            x = d.get_matrix_and_rhs(format="csc")
            row, col = {}, {}
            for k, dim in regions():
                for e in d.get_equation_list(**k):
                    v = d.get_equation_command(name=e, **k)["variable_name"]
                    for i, (r, c) in enumerate(zip(d.get_equation_numbers(equation=e, **k), d.get_equation_numbers(variable=v, **k))):
                        row[r] = (k["device"], k["region"], e, i)
                        col[c] = (k["device"], k["region"], v, i)
            for n in d.get_circuit_node_list():
                row[d.get_circuit_equation_number(node=n)] = col[d.get_circuit_equation_number(node=n)] = ("circuit", n)
            out = []
            for part in ("static", "dynamic"):
                z = x[part]
                ent = {}
                for c in range(len(z["ap"]) - 1):
                    for j in range(z["ap"][c], z["ap"][c + 1]):
                        key = (part, str(row.get(z["ai"][j], ("?", z["ai"][j]))), str(col.get(c, ("?", c))))
                        ent[key] = ent.get(key, 0.0) + z["av"][j]
                out += sorted((k, v.hex()) for k, v in ent.items())
                out += sorted((part, str(row.get(i, ("?", i))), v.hex()) for i, v in enumerate(z["rhs"]))
            out.append(x["format"])
            return out
        s["matrix"] = val(m)
    return s


def listed(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], bytes):
        x = array.array(v[0])
        x.frombytes(v[1])
        return list(x)
    return v


def differ(a, b):
    out = []
    for k in sorted(set(a) | set(b), key=str):
        if a.get(k) != b.get(k):
            x, y = listed(a.get(k)), listed(b.get(k))
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                i = [j for j in range(len(x)) if x[j] != y[j]][0]
                x, y = "[%d] %s" % (i, str(x[i])[:300]), "[%d] %s" % (i, str(y[i])[:300])
            out.append((k, str(x)[:1500], str(y)[:1500]))
    return out


def world(matrix=True):
    """devices, meshes, parameters, circuit"""
    s = snap(matrix)
    s["meshes"] = sorted(d.get_mesh_list())
    for k in [{}] + [dict(device=D) for D in sorted(d.get_device_list())] + [k for k, _ in regions()]:
        names = sorted(d.get_parameter_list(**k))
        s["parameters", str(k)] = [(n, repr(d.get_parameter(name=n, **k))) for n in names]
    nodes = sorted(d.get_circuit_node_list())
    s["circuit"] = nodes
    s["circuit solutions"] = sorted(d.get_circuit_solution_list())
    for n in nodes:
        s["circuit number", n] = val(lambda: d.get_circuit_equation_number(node=n))
        for v in s["circuit solutions"]:
            s["circuit", n, v] = val(lambda: d.get_circuit_node_value(node=n, solution=v))
    return s
