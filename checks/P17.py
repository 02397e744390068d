#!/usr/bin/env python3
"""P17: exported files carry exactly the simulator's data.

Every combination of how a model is present and displayed in the regions of a device, for every kind of model,
geometry, precision, selection and format; array lengths around the block size of the binary format; names and file
places that need care. Each file is parsed by a reader written here from the format's definition, and everything in it
is compared with what the query commands report.
"""
import os, sys, itertools, math, re, base64, struct, zlib, tempfile, shutil
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P17", assumptions=[
    "the tecplot format shows a model as displayed in the first region, in order of name, that has it; an element model if any region displays it; zeros in the regions without it",
    "tecplot values have the six digits of the print precision",
    "scalar edge models are shown at a node as the average over its edges, vector models as the average of the components weighted with the edges' directions, element models as the average over the element's edges",
    "devsim_data files hold the values of node and edge models"])
d = vc.load_devsim()
import dev as devs
from child import child
TH = ctx.thorough


class Bad(Exception):
    pass


def need(ok, what, *info):
    ctx.count(transitions=1)
    if not ok:
        raise Bad(what + "".join(" " + (i if isinstance(i, str) else vc._short(i)) for i in info))


def scratch():
    global _T
    if "_T" not in globals() or _T[0] != os.getpid():
        _T = (os.getpid(), tempfile.mkdtemp(prefix="vc_p17_"))
        import atexit
        p, t = _T
        atexit.register(lambda: os.getpid() == p and shutil.rmtree(t, ignore_errors=True))
    return _T[1]


def clean():
    for x in list(d.get_device_list()):
        d.delete_device(device=x)
    for x in list(d.get_mesh_list()):
        d.delete_mesh(mesh=x)


# ------------------------------------------------------------------ what the simulator says
def nval(dev, r, n): return list(d.get_node_model_values(device=dev, region=r, name=n))
def eval_(dev, r, n): return list(d.get_edge_model_values(device=dev, region=r, name=n))
def lval(dev, r, n): return list(d.get_element_model_values(device=dev, region=r, name=n))


class Snap:
    """a region: nodes, elements, edges, and the values of every model as shown at nodes and elements"""
    def __init__(self, dev, r, shown):
        self.x = list(zip(*[nval(dev, r, c) for c in "xyz"]))
        self.el = [tuple(t) for t in d.get_element_node_list(device=dev, region=r)]
        self.dim = d.get_dimension(device=dev)
        d.edge_from_node_model(device=dev, region=r, node_model="node_index")
        self.edges = list(zip(map(int, eval_(dev, r, "node_index@n0")), map(int, eval_(dev, r, "node_index@n1"))))
        for k in ("node_index@n0", "node_index@n1"):
            d.delete_edge_model(device=dev, region=r, name=k)
        self.shown = shown      # name: (kind, display)
        self.nodes = list(d.get_node_model_list(device=dev, region=r))
        self.emods = list(d.get_edge_model_list(device=dev, region=r))
        self.lmods = list(d.get_element_model_list(device=dev, region=r)) if self.dim > 1 else []
        self.val = {}
        for n in self.nodes:
            self.val["n", n] = nval(dev, r, n)
        for n in self.emods:
            self.val["e", n] = eval_(dev, r, n)
        for n in self.lmods:
            self.val["l", n] = lval(dev, r, n)

    def disp(self, kind, n):
        if (kind, n) in self.shown:
            return self.shown[kind, n]
        return "scalar"        # the models a region starts with

    def on_nodes(self, n):
        s, c = [0.0] * len(self.x), [0] * len(self.x)
        for (a, b), v in zip(self.edges, self.val["e", n]):
            for k in (a, b):
                s[k] += v
                c[k] += 1
        return [p / q if q else p for p, q in zip(s, c)]

    def vec(self, n):
        s = [[0.0] * 3 for _ in self.x]
        w = [[0.0] * 3 for _ in self.x]
        for (a, b), v in zip(self.edges, self.val["e", n]):
            u = [q - p for p, q in zip(self.x[a], self.x[b])]
            l = math.sqrt(sum(t * t for t in u))
            for c in range(3):
                t = u[c] / l
                for k in (a, b):
                    s[k][c] += v * t * abs(t)
                    w[k][c] += abs(t)
        return [[p / q if q > 1e-14 else 0.0 for p, q in zip(a, b)] for a, b in zip(s, w)]

    def on_elements(self, n):
        m = 3 if self.dim == 2 else 6
        v = self.val["l", n]
        return [sum(v[k:k + m]) / m for k in range(0, len(v), m)]


def like(got, want, tol, what):
    need(len(got) == len(want), "length of " + what, len(got), "expected", len(want))
    sc = max([abs(v) for v in want] or [0.0])
    for k, (a, b) in enumerate(zip(got, want)):
        if not (abs(a - b) <= tol * sc):
            raise Bad("%s[%d]: %r, expected %r" % (what, k, a, b))


def same(got, want, what):
    need(len(got) == len(want), "length of " + what, len(got), "expected", len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        if struct.pack("d", a) != struct.pack("d", b):
            raise Bad("%s[%d]: %r, expected %r" % (what, k, a, b))


def digits(got, want, what, slack=None):
    """six printed digits"""
    need(len(got) == len(want), "length of " + what, len(got), "expected", len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        if not (abs(a - b) <= 5.1e-6 * abs(b) + (slack or 0.0)):
            raise Bad("%s[%d]: %r, expected %r" % (what, k, a, b))


# ------------------------------------------------------------------ vtk
def darray(e):
    """the values of a DataArray"""
    t, f = e.get("type"), e.get("format")
    text = (e.text or "").strip()
    if f == "ascii":
        return [int(v) for v in text.split()]
    need(f == "binary" and t == "Float64", "array format", f, t)
    b = base64.b64decode(text[:8], validate=True)
    nb = struct.unpack("<I", b[:4])[0]
    hl = 4 * (3 + nb)
    hc = (hl + 2) // 3 * 4
    head = struct.unpack("<%dI" % (3 + nb), base64.b64decode(text[:hc], validate=True))
    _n, size, last = head[:3]
    raw = base64.b64decode(text[hc:], validate=True)
    need(len(raw) == sum(head[3:]), "compressed size", len(raw))
    out, at = b"", 0
    for k in range(nb):
        o = zlib.decompress(raw[at:at + head[3 + k]])
        at += head[3 + k]
        need(len(o) == (last if k == nb - 1 and last else size), "size of block", k, len(o))
        out += o
    need(len(out) % 8 == 0, "array of doubles")
    return list(struct.unpack("<%dd" % (len(out) // 8), out))


def vtk(base, S, sel):
    """S: {region: Snap}; sel(name) -> written"""
    here = os.path.dirname(base)
    t = ET.parse(base + ".vtm").getroot()
    need(t.tag == "VTKFile" and t.get("type") == "vtkMultiBlockDataSet", "vtm type")
    need(t.get("byte_order") == "LittleEndian" and t.get("compressor") == "vtkZLibDataCompressor", "vtm attributes")
    ds = t.find("vtkMultiBlockDataSet").findall("DataSet")
    need(len(ds) == len(S), "blocks", len(ds))
    need(len({x.get("group") for x in ds}) == len(ds), "groups")
    files = [os.path.join(here, x.get("file")) for x in ds]
    v = open(base + ".visit").read().split("\n")
    need(v[0] == "!NBLOCKS %d" % len(S), "visit header", v[0])
    need([os.path.join(here, f) for f in v[1:] if f] == files, "visit files", v)
    for f, r in zip(files, sorted(S)):
        s = S[r]
        t = ET.parse(f).getroot()
        need(t.tag == "VTKFile" and t.get("type") == "UnstructuredGrid" and t.get("byte_order") == "LittleEndian" and t.get("compressor") == "vtkZLibDataCompressor", "vtu type")
        ps = t.find("UnstructuredGrid").findall("Piece")
        need(len(ps) == 1, "pieces")
        p = ps[0]
        need(int(p.get("NumberOfPoints")) == len(s.x), "NumberOfPoints", p.get("NumberOfPoints"))
        need(int(p.get("NumberOfCells")) == len(s.el), "NumberOfCells", p.get("NumberOfCells"))
        a = p.find("Points").findall("DataArray")
        need(len(a) == 1 and a[0].get("NumberOfComponents") == "3", "points")
        same(darray(a[0]), [c for q in s.x for c in q], "points")
        cells = {x.get("Name"): darray(x) for x in p.find("Cells").findall("DataArray")}
        n = s.dim + 1
        need(cells["offsets"] == [n * (k + 1) for k in range(len(s.el))], "offsets")
        need(cells["types"] == [{1: 3, 2: 5, 3: 10}[s.dim]] * len(s.el), "types")
        c = cells["connectivity"]
        need(sorted(tuple(sorted(c[k:k + n])) for k in range(0, len(c), n)) == sorted(tuple(sorted(t)) for t in s.el), "connectivity", c)
        order = [tuple(sorted(c[k:k + n])) for k in range(0, len(c), n)]
        perm = [[tuple(sorted(t)) for t in s.el].index(t) for t in order] if len(order) < 100 else range(len(order))
        want = {}
        for m in s.nodes:
            if sel(m) and s.disp("n", m) == "scalar":
                want[m] = (1, s.val["n", m], 0.0)
        for m in s.emods:
            k = s.disp("e", m)
            if sel(m) and k == "scalar":
                want[m] = (1, s.on_nodes(m), 1e-14)
            elif sel(m) and k == "vector":
                want[m] = (3, [x for q in s.vec(m) for x in q], 1e-13)
        # a vector component of an edge along an axis may carry rounding noise of the unit vector
        pd = p.findall("PointData")
        need(len(pd) <= 1, "PointData")
        compare(pd, want, "point data of " + r)
        want = {}
        for m in s.lmods:
            if sel(m) and s.disp("l", m) == "scalar":
                v = s.on_elements(m)
                want[m] = (1, [v[k] for k in perm], 1e-14)
        cd = p.findall("CellData")
        need(len(cd) <= 1, "CellData")
        compare(cd, want, "cell data of " + r)


def compare(block, want, where):
    got = block[0].findall("DataArray") if block else []
    names = [g.get("Name") for g in got]
    need(sorted(names) == sorted(want), where, "names", sorted(set(names) ^ set(want)), sorted(names))
    for g in got:
        n = g.get("Name")
        c, v, tol = want[n]
        need(int(g.get("NumberOfComponents", "1")) == c, where, "components of", n)
        (same if tol == 0.0 else lambda a, b, w: like(a, b, tol, w))(darray(g), v, where + " " + n)


# ------------------------------------------------------------------ tecplot
def tecplot(file, dev, S, sel):
    text = open(file).read()
    need(all(len(l) < 32000 for l in text.split("\n")), "line length")
    m = re.match(r'TITLE = "([^"]*)"\s+VARIABLES = ((?:"[^"]*",?\s*)+)', text)
    need(m is not None, "header", text[:200])
    need(m.group(1) == dev, "title", m.group(1))
    var = re.findall(r'"([^"]*)"', m.group(2))
    zones = re.split(r'(?m)^(?=ZONE )', text[m.end():])
    zones = [z for z in zones if z.strip()]
    need(len(zones) == len(S), "zones", len(zones))
    dim = list(S.values())[0].dim
    nd, ed, ld = {}, {}, set()
    for r in sorted(S):
        s = S[r]
        for n in s.nodes:
            if n not in "xyz" and sel(n):
                nd.setdefault(n, s.disp("n", n))
        for n in s.emods:
            if sel(n):
                ed.setdefault(n, s.disp("e", n))
        for n in s.lmods:
            if sel(n) and s.disp("l", n) == "scalar":
                ld.add(n)
    cols = [("n", c) for c in "xyz"[:dim]] + [("n", n) for n in sorted(nd) if nd[n] == "scalar"] + [("e", n) for n in sorted(ed) if ed[n] == "scalar"]
    names = [c[1] for c in cols]
    for n in sorted(ed):
        if ed[n] == "vector":
            for c in range(dim):
                cols.append(("v%d" % c, n))
                names.append("%s_%s_onNode" % (n, "xyz"[c]))
    cell = []
    for n in sorted(ld):
        cols.append(("l", n))
        names.append(n)
        cell.append(len(cols))
    need(var == names, "variables", sorted(set(var) ^ set(names)), var)
    for z, r in zip(zones, sorted(S)):
        s = S[r]
        head, body = z.split("\n", 1)
        m = re.match(r'ZONE T="([^"]*)" NODES=(\d+), ELEMENTS=(\d+), DATAPACKING=BLOCK, ZONETYPE=(\w+)(?:, VARLOCATION=\(\[([\d,]+)\]=CELLCENTERED\))?\s*$', head)
        need(m is not None, "zone header", head)
        need(m.group(1) == r, "zone", m.group(1))
        need(int(m.group(2)) == len(s.x) and int(m.group(3)) == len(s.el), "zone sizes", head)
        need(m.group(4) == {1: "FELINESEG", 2: "FETRIANGLE", 3: "FETETRAHEDRON"}[dim], "zone type", head)
        need([int(v) for v in (m.group(5) or "").split(",") if v] == cell, "cell centered", head)
        tok = body.split()
        at = 0
        for kind, n in cols:
            k = len(s.el) if kind == "l" else len(s.x)
            v = [float(t) for t in tok[at:at + k]]
            at += k
            sl = None
            if kind == "n":
                w = s.val["n", n] if n in s.nodes else [0.0] * k
            elif kind == "e":
                w = s.on_nodes(n) if n in s.emods else [0.0] * k
            elif kind == "l":
                w = s.on_elements(n) if n in s.lmods else [0.0] * k
            else:
                w = [x[int(kind[1])] for x in s.vec(n)] if n in s.emods else [0.0] * k
            if kind != "n":
                sl = 1e-13 * max([abs(x) for x in s.val.get((kind[0] if kind[0] != "v" else "e", n), [0.0])] or [0.0])
            digits(v, w, "%s %s" % (r, n), sl)
        c = [int(t) - 1 for t in tok[at:]]
        n = dim + 1
        need(len(c) == n * len(s.el), "connectivity length", len(c))
        got = [tuple(sorted(c[k:k + n])) for k in range(0, len(c), n)]
        # the values of elements are in the order of the elements
        need(got == [tuple(sorted(t)) for t in s.el], "connectivity of " + r, got)


# ------------------------------------------------------------------ devsim_data
def data(file, S, dev, mats):
    """loads it into another process and compares"""
    def other():
        d.reset_devsim()
        d.load_devices(file=file)
        out = {}
        for r in d.get_region_list(device=dev):
            out[r] = (d.get_material(device=dev, region=r), {n: nval(dev, r, n) for n in d.get_node_model_list(device=dev, region=r)},
                      {n: eval_(dev, r, n) for n in d.get_edge_model_list(device=dev, region=r)}, [tuple(t) for t in d.get_element_node_list(device=dev, region=r)])
        return out
    how, got = child(other, 30)
    need(how == "ok", "the data file was not loaded:", how, str(got))
    need(sorted(got) == sorted(S), "regions", sorted(got))
    for r in S:
        s = S[r]
        m, nv, ev, el = got[r]
        need(m == mats[r], "material", m)
        need(sorted(tuple(sorted(t)) for t in el) == sorted(tuple(sorted(t)) for t in s.el), "elements of " + r, el)
        for n in s.nodes:
            need(n in nv, "node model missing", n)
            same(nv[n], s.val["n", n], "data %s %s" % (r, n))
        for n in s.emods:
            need(n in ev, "edge model missing", n)
            same(ev[n], s.val["e", n], "data %s %s" % (r, n))


# ------------------------------------------------------------------ devices
GEO = {"line": lambda D: devs.line(D), "line2": lambda D: devs.line2(D), "tri": lambda D: devs.tri(D), "tri2": lambda D: devs.tri2(D), "tet": lambda D: devs.tet(D), "tet2": lambda D: devs.tet2(D)}
NODE = {"solution": None, "unset": None, "expr": "x*x - y + 0.1*node_index", "const": "0.3", "zero": "0", "tiny": "1e-300*node_index", "big": "-1e300*(x+1)"}
EDGE = {"expr": "(node_index@n1 - node_index@n0)/EdgeLength", "const": "-7.25", "zero": "0", "unit": "unitx"}
ELEM = {"expr": "ElementEdgeCouple*2", "const": "0.7", "zero": "0"}


def put(dev, r, kind, name, how, disp, shown):
    if kind == "n":
        if how == "unset":
            d.node_solution(device=dev, region=r, name=name)
        elif how == "solution":
            d.node_solution(device=dev, region=r, name=name)
            n = len(nval(dev, r, "x"))
            d.set_node_values(device=dev, region=r, name=name, values=[(-1) ** k * (k + 1) / 3.0 for k in range(n)])
        else:
            d.node_model(device=dev, region=r, name=name, equation=NODE[how] + ";", **({} if disp is None else {"display_type": disp}))
    elif kind == "e":
        d.edge_from_node_model(device=dev, region=r, node_model="node_index")
        d.edge_model(device=dev, region=r, name=name, equation=EDGE[how] + ";", **({} if disp is None else {"display_type": disp}))
        eval_(dev, r, name)
        if how != "expr":
            for k in ("node_index@n0", "node_index@n1"):
                d.delete_edge_model(device=dev, region=r, name=k)
        else:
            shown["e", "node_index@n0"] = shown["e", "node_index@n1"] = "scalar"
    else:
        d.element_model(device=dev, region=r, name=name, equation=ELEM[how] + ";", **({} if disp is None else {"display_type": disp}))
    shown[kind, name] = disp or "scalar"


def snaps(dev, shown):
    """the query of the edges makes models of its own: they are removed unless they are part of the device"""
    out = {}
    for r in d.get_region_list(device=dev):
        had = [n for n in ("node_index@n0", "node_index@n1") if n in d.get_edge_model_list(device=dev, region=r)]
        s = Snap.__new__(Snap)
        s.x = list(zip(*[nval(dev, r, c) for c in "xyz"]))
        s.el = [tuple(t) for t in d.get_element_node_list(device=dev, region=r)]
        s.dim = d.get_dimension(device=dev)
        d.edge_from_node_model(device=dev, region=r, node_model="node_index")
        s.edges = list(zip(map(int, eval_(dev, r, "node_index@n0")), map(int, eval_(dev, r, "node_index@n1"))))
        if not had:
            for k in ("node_index@n0", "node_index@n1"):
                d.delete_edge_model(device=dev, region=r, name=k)
        s.shown = shown.get(r, {})
        s.nodes = list(d.get_node_model_list(device=dev, region=r))
        s.emods = list(d.get_edge_model_list(device=dev, region=r))
        s.lmods = list(d.get_element_model_list(device=dev, region=r)) if s.dim > 1 else []
        s.val = {}
        for k, l, f in (("n", s.nodes, nval), ("e", s.emods, eval_), ("l", s.lmods, lval)):
            for n in l:
                s.val[k, n] = f(dev, r, n)
        out[r] = s
    return out


def report(key, item, name):
    def wrap(fn):
        try:
            fn()
        except Bad as e:
            ctx.violation(key, str(e), {"name": name, "item": item})
        except (ET.ParseError, ValueError, KeyError, AttributeError, TypeError, IndexError, OSError, zlib.error, struct.error) as e:
            ctx.violation(key, "the file does not parse: %s %s" % (type(e).__name__, e), {"name": name, "item": item})
        except d.error as e:
            ctx.violation(key, "a valid export failed: %s" % str(e).strip()[:200], {"name": name, "item": item})
        finally:
            clean()
            d.reset_devsim()
    return wrap


def parse(fmt, f, dev, S, t):
    if fmt == "vtk":
        vtk(f, S, t)
    elif fmt == "tecplot":
        tecplot(f, dev, S, t)
    else:
        data(f, S, dev, {r: d.get_material(device=dev, region=r) for r in S})


def export(dev, fmt, S, sel=None, whole=False, file=None):
    f = file or os.path.join(scratch(), "out")
    a = dict(file=f, type=fmt)
    if not whole:
        a["device"] = dev
    if sel is not None:
        a["include_test"] = sel
    d.write_devices(**a)
    t = sel or (lambda n: True)
    ctx.count(files=1)
    parse(fmt, os.path.join(os.getcwd(), f), dev, S, t)


# ------------------------------------------------------------------ the enumerations
def do_model(item):
    """item: geometry, kind, (how, display) per region, precision"""
    geo, kind, per, ext, first = item
    ctx.count(states=1)
    ctx.state("model", item)

    @report("model:" + vc.digest(item), item, "model")
    def _():
        if ext:
            d.set_parameter(name="extended_model", value=True)
        GEO[geo]("D")
        shown = {}
        for r, p in zip(sorted(d.get_region_list(device="D")), per):
            shown[r] = {}
            if p is not None:
                put("D", r, kind, "m", p[0], p[1], shown[r])
        fmts = ("vtk", "tecplot") + (("devsim_data",) if not ext and (TH or per[0] != (None if len(per) == 1 else per[-1])) else ())
        if first:
            # written before anything is read
            f = os.path.join(scratch(), "first")
            d.write_devices(file=f, type=first, device="D")
        S = snaps("D", shown)
        if first:
            ctx.count(files=1)
            parse(first, f, "D", S, lambda n: True)
        else:
            for fmt in fmts:
                export("D", fmt, S, whole=fmt == "tecplot")


def model_items():
    out = []
    for geo in GEO:
        nr = 2 if geo.endswith("2") else 1
        for kind, hows, disps in (("n", NODE, ("scalar", "nodisplay", None)), ("e", EDGE, ("scalar", "vector", "nodisplay", None)), ("l", ELEM, ("scalar", "nodisplay", None))):
            if kind == "l" and geo.startswith("line"):
                continue
            ch = [None] + [(h, x) for h in hows for x in disps if not (h in ("solution", "unset") and x is not None)]
            for per in itertools.product(ch, repeat=nr):
                if not TH and nr == 2 and None not in per and per[0][0] != per[1][0] and (list(hows).index(per[0][0]) + list(hows).index(per[1][0]) + disps.index(per[0][1])) % 3:
                    continue
                for ext in (0, 1):
                    if ext and not TH and (per[0] is None or per[-1] is None or per[0][0] not in ("expr", "const")):
                        continue
                    for first in (None, "vtk", "tecplot", "devsim_data"):
                        # a file in every format before and after the models have been read
                        if first is None or TH or nr == 1 or len(out) % 3 == 0 or {p and p[0] for p in per} <= {None, "const", "unset", "zero"}:
                            out.append((geo, kind, per, ext, first))
    return out


FULL = [("n", "u", "solution", None), ("n", "m", "expr", None), ("n", "hid", "const", "nodisplay"), ("e", "es", "expr", "scalar"), ("e", "ev", "expr", "vector"),
        ("e", "eh", "const", "nodisplay"), ("l", "ls", "expr", "scalar"), ("l", "lh", "const", "nodisplay")]


def full(dev, geo, names=None):
    GEO[geo](dev)
    shown = {}
    for r in d.get_region_list(device=dev):
        shown[r] = {}
        for kind, n, how, disp in FULL:
            if kind == "l" and geo.startswith("line"):
                continue
            put(dev, r, kind, (names or {}).get(n, n), how, disp, shown[r])
    return shown


SEL = {"all": lambda n: True, "none": lambda n: False}


def do_select(item):
    """what include_test selects: everything, nothing, each single model, everything but it"""
    geo, fmt = item
    ctx.count(states=1)

    @report("select:" + vc.digest(item), item, "select")
    def _():
        shown = full("D", geo)
        S = snaps("D", shown)
        names = sorted({n for s in S.values() for n in s.nodes + s.emods + s.lmods})
        for sel in SEL.values():
            export("D", fmt, S, sel)
        for k, m in enumerate(names):
            ctx.count(states=2)
            ctx.state("select", (item, m))
            export("D", fmt, S, lambda n: n == m, whole=k % 2 == 0)
            export("D", fmt, S, lambda n: n != m, whole=k % 2 == 1)
        for what in ("raise", "none", "text", "number"):
            for m in ["u", "ev", "ls", "x", ""]:
                if m == "ls" and geo.startswith("line") or m == "x" and fmt == "tecplot":
                    continue

                def bad(n):
                    if n == m:
                        if what == "raise":
                            raise ValueError("no")
                        return {"none": None, "text": "maybe", "number": 2.5}[what]
                    return True
                ctx.count(states=1)
                try:
                    d.write_devices(file=os.path.join(scratch(), "bad"), type=fmt, device="D", include_test=bad)
                except d.error as e:
                    need(str(e).strip() != "", "an error without a message")
                    continue
                if what != "raise":
                    continue
                raise Bad("a failing include_test was not reported: %s for %r" % (what, m))
        export("D", fmt, S)


def do_size(item):
    """array lengths around the block size of the binary format and the line length of the text format"""
    n, fmt, kind = item
    ctx.count(states=1)
    ctx.state("size", item)

    @report("size:" + vc.digest(item), item, "size")
    def _():
        if kind == "line":
            devs.gmsh("D", [(float(k * k % 7 + 10 * k),) for k in range(n)], {"R": [(k, k + 1) for k in range(n - 1)]})
        else:   # a strip of triangles
            devs.gmsh("D", [(float(k), float(3 * (k % 2))) for k in range(n)], {"R": [(k, k + 1, k + 2) for k in range(n - 2)]})
        d.node_model(device="D", region="R", name="m", equation="node_index*0.37 - x;")
        d.edge_model(device="D", region="R", name="v", equation="edge_index + 0.5;", display_type="vector")
        export("D", fmt, snaps("D", {"R": {("e", "v"): "vector"}}))


def size_items():
    out = []
    B = 4096
    ns = [2, 3, 4, B // 3, B // 3 + 1, B // 3 + 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1] + ([3 * B, 3 * B + 1, 4 * B, 6 * B] if TH else [])
    for n in ns:
        for fmt in ("vtk", "tecplot"):
            out.append((n, fmt, "line"))
    for n in [3, 4, B // 3 + 1, B, B + 1, B + 2, B + 3, 2 * B, 2 * B + 2]:
        for fmt in ("vtk", "tecplot"):
            out.append((n, fmt, "strip"))
    # every length up to a bound: padding of the encoding
    for n in range(5, 400 if TH else 60):
        out.append((n, "vtk", "line"))
    # lines of the text format: break positions move with the number of digits
    for n in range(3000, 6000, 100 if TH else 500):
        out.append((n, "tecplot", "line"))
    return out


NAMES = ["a@n0", "a:b", "a b", "a&b", "a<b", "a>b", "a'b", "&amp;", "\u00e4", "]]>", "<!--", "a;b", "a,b", "=", "x_onNode", "Name"]


def do_names(item):
    name, fmt, where = item
    ctx.count(states=1)
    ctx.state("names", item)

    @report("names:" + vc.digest(item), item, "names")
    def _():
        D = name if where == "device" else "D"
        if where == "region":
            devs.gmsh(D, [(0.,), (1.,), (3.,)], {name: [(0, 1), (1, 2)]})
            shown = {}
        elif where == "device":
            devs.line(D)
            shown = {}
        else:
            shown = full(D, "tri", {"u": name} if where == "node" else {"ev": name} if where == "vector" else {"ls": name})
        S = snaps(D, shown)
        export(D, fmt, S)


def do_place(item):
    """relative and absolute places, names that need care, files that exist"""
    place, fmt = item
    ctx.count(states=1)
    ctx.state("place", item)
    here = os.getcwd()

    @report("place:" + vc.digest(item), item, "place")
    def _():
        base = os.path.join(scratch(), "p")
        os.makedirs(base + "/sub/deep", exist_ok=True)
        os.chdir(base)
        try:
            S = snaps("D", full("D", "tri2"))
            f = place.replace("ABS", base)
            for k in range(2):
                export("D", fmt, S, file=f)
            # a device with fewer regions written over it
            d.delete_device(device="D")
            d.delete_mesh(mesh="D")
            S = snaps("D", full("D", "line"))
            export("D", fmt, S, file=f, whole=True)
            # several devices do not fit into one plot file, unless one is named
            GEO["tri"]("E")
            S2 = snaps("E", {})
            if fmt != "devsim_data":
                try:
                    d.write_devices(file=f + "2", type=fmt)
                    raise Bad("two devices in one plot file")
                except d.error as e:
                    need(str(e).strip() != "", "an error without a message")
                export("D", fmt, S, file=f)
            export("E", fmt, S2, file=f)
        finally:
            os.chdir(here)
            shutil.rmtree(base, ignore_errors=True)


def do_hist(item):
    """what is written is the present state"""
    geo, fmt, op = item
    ctx.count(states=1)
    ctx.state("hist", item)

    @report("hist:" + vc.digest(item), item, "hist")
    def _():
        r = {"line": "R", "tri2": "R0", "tet": "R"}[geo]
        shown = full("D", geo)
        d.node_model(device="D", region=r, name="w", equation="u*p+m;")
        d.set_parameter(device="D", name="p", value=2.0)
        d.node_model(device="D", region=r, name="w", equation="u*p+m;")
        S0 = snaps("D", shown) if op[0] != "fresh" else None
        if S0:
            export("D", fmt, S0)
        for o in op[1:]:
            if o == "set":
                d.set_node_value(device="D", region=r, name="u", index=0, value=11.0)
            elif o == "all":
                d.set_node_values(device="D", region=r, name="u", values=[0.25] * len(nval("D", r, "u")))
            elif o == "param":
                d.set_parameter(device="D", region=r, name="p", value=-3.0)
            elif o == "redef":
                d.node_model(device="D", region=r, name="m", equation="y-x;", display_type="nodisplay")
                shown[r]["n", "m"] = "nodisplay"
            elif o == "show":
                d.edge_model(device="D", region=r, name="eh", equation="2;", display_type="vector")
                shown[r]["e", "eh"] = "vector"
            elif o == "del":
                d.delete_edge_model(device="D", region=r, name="es")
        f = os.path.join(scratch(), "out")
        d.write_devices(file=f, type=fmt, device="D")     # before anything is read
        S = snaps("D", shown)
        parse(fmt, f, "D", S, lambda n: True)


OPS = ("set", "all", "param", "redef", "show", "del")

ctx.run(model_items(), do_model, name="model", timeout=60, setup=vc.quiet)
ctx.run([(g, f) for g in GEO for f in ("vtk", "tecplot")], do_select, name="select", timeout=120, setup=vc.quiet)
ctx.run(size_items(), do_size, name="size", timeout=60, setup=vc.quiet)
ctx.run([(n, f, w) for n in NAMES for f in ("vtk", "tecplot", "devsim_data") for w in ("node", "vector", "element", "region", "device")], do_names, name="names", timeout=60, setup=vc.quiet)
ctx.run([(p, f) for p in ("plain", "sub/x", "./sub/../y", "ABS/z", "sub/deep/a.b", "a&b", "sub/a<b", "a b") for f in ("vtk", "tecplot", "devsim_data")], do_place, name="place", timeout=60, setup=vc.quiet)
ctx.run([(g, f, (s,) + o) for g in ("line", "tri2", "tet") for f in ("vtk", "tecplot", "devsim_data") for s in ("fresh", "seen")
         for n in range(3 + (1 if TH else 0)) for o in itertools.permutations(OPS, n)], do_hist, name="hist", timeout=60, setup=vc.quiet)
s = ctx.stats
ctx.finish(states=s.get("states", 0), transitions=s.get("transitions", 0), traces=s.get("files", 0),
           rule="every presence and display of a node, edge and element model in the regions of six devices, every single selection, array lengths around block and line sizes, names and places, "
                "every history of up to two (three) changes; states: devices exported, transitions: comparisons, traces: files parsed")
