#!/usr/bin/env python3
"""P11: meshes are complete, consistent and geometrically exact.

Enumerates mesh descriptions (1D line lists, 2D line and box arrangements, gmsh element lists and files, and what can be
wrong with them). A reference construction says which are refused, and for the others which nodes, elements, contacts and
interfaces the device has; every geometric model of every accepted device is compared with its definition.
"""
import re, os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
from fractions import Fraction as Fr
ctx = vc.Ctx("P11", assumptions=[
    "create_2d_mesh looks for contacts and interfaces at the points that two or more regions share; the first contact (in order of definition) whose box and region have the point takes it, then the first interface",
    "where regions overlap the one first named last has the element; a name given again adds a box to it",
    "a contact or interface without its own elements has the boundary elements of its region whose nodes are all in it",
    "circumcenters: the couple of an edge within an element is the distance of the element's center from the edge, without sign",
    "spacings and positions closer than 1e-10 count as equal in create_1d_mesh and create_2d_mesh",
    "elements without area or volume, and regions of lower dimension than the mesh, are out of scope"])
d = vc.load_devsim()
from child import child
TH = ctx.thorough
RTOL = 2e-12


# ------------------------------------------------------------------ reference geometry
def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def mid(a, b): return tuple((x + y) / 2 for x, y in zip(a, b))
def norm(a): return math.sqrt(float(dot(a, a)))


def circum(P):
    """center of the circle or sphere through the points of a triangle or tetrahedron"""
    o = P[0]
    E = [sub(p, o) for p in P[1:]]
    n = len(E)
    # in the span of E: c = sum l_k E_k with 2 c.E_i = E_i.E_i
    A = [[2 * dot(E[i], E[k]) for k in range(n)] + [dot(E[i], E[i])] for i in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                A[r] = [x - A[r][i] * y for x, y in zip(A[r], A[i])]
    c = o
    for i in range(n):
        c = tuple(x + A[i][n] * y for x, y in zip(c, E[i]))
    return c


def inside(c, P):
    """is the point inside of the simplex (in its plane)"""
    n = len(P)
    for i in range(n):
        # same side of face i as the vertex i; for triangles within their plane
        F = [P[k] for k in range(n) if k != i]
        if n == 3:
            u = sub(F[1], F[0])
            w = sub(P[i], F[0])
            t = tuple(x - dot(w, u) / Fr(dot(u, u)) * y for x, y in zip(w, u))
        else:
            t = cross(sub(F[1], F[0]), sub(F[2], F[0]))
            if dot(t, sub(P[i], F[0])) < 0:
                t = tuple(-x for x in t)
        if dot(sub(c, F[0]), t) < 0:
            return False
    return True


def size(P):
    if len(P) == 2:
        return norm(sub(P[1], P[0]))
    if len(P) == 3:
        return 0.5 * norm(cross(sub(P[1], P[0]), sub(P[2], P[0])))
    return abs(float(dot(cross(sub(P[1], P[0]), sub(P[2], P[0])), sub(P[3], P[0])))) / 6.0


# ------------------------------------------------------------------ a description of a device
class World:
    def __init__(self, dim, X, regions, contacts=None, interfaces=None, materials=None, byindex=True):
        self.dim = dim
        self.X = [tuple(Fr(v) for v in p) for p in X]
        self.regions = {r: sorted({tuple(sorted(t)) for t in ts}) for r, ts in regions.items()}
        self.contacts = contacts or {}        # name: (region, nodes, faces or None)
        self.interfaces = interfaces or {}    # name: (region0, region1, nodes, faces or None)
        self.materials = materials or {}
        self.empty = set()                    # named, and without nodes: it may be there
        self.byindex = byindex                # is the coordinate index prescribed, or found from the position

    def boundary(self, r, nodes):
        cnt = {}
        for t in self.regions[r]:
            for f in itertools.combinations(t, self.dim):
                cnt[f] = cnt.get(f, 0) + 1
        return {f for f, n in cnt.items() if n == 1 and set(f) <= set(nodes)}

    def cfaces(self, c):
        r, nodes, faces = self.contacts[c]
        if self.dim == 1:
            return {(n,) for n in nodes}
        return self.boundary(r, nodes) if faces is None else {tuple(sorted(f)) for f in faces}

    def ifaces(self, i, side):
        r0, r1, nodes, faces = self.interfaces[i]
        if self.dim == 1:
            return {(n,) for n in nodes}
        return self.boundary((r0, r1)[side], nodes) if faces is None else {tuple(sorted(f)) for f in faces}


class Bad(Exception):
    pass


def need(ok, what, *info):
    if not ok:
        raise Bad(what + "".join(" " + vc._short(i) if not isinstance(i, str) else " " + i for i in info))


def near(a, b, scale, what, *info):
    ctx.count(transitions=1)
    if not (abs(a - b) <= RTOL * scale):
        raise Bad("%s: %r, expected %r %s" % (what, a, b, " ".join(str(i) for i in info)))


def nm(dev, r, n): return list(d.get_node_model_values(device=dev, region=r, name=n))
def em(dev, r, n): return list(d.get_edge_model_values(device=dev, region=r, name=n))
def lm(dev, r, n): return list(d.get_element_model_values(device=dev, region=r, name=n))
def ints(v): return [int(x) for x in v]


def verify(dev, W, geometry=True, cyl=None):
    """compares the device with its description"""
    dim = W.dim
    need(sorted(d.get_region_list(device=dev)) == sorted(W.regions), "regions", d.get_region_list(device=dev))
    need(sorted(set(d.get_contact_list(device=dev)) - W.empty) == sorted(W.contacts), "contacts", d.get_contact_list(device=dev))
    need(sorted(set(d.get_interface_list(device=dev)) - W.empty) == sorted(W.interfaces), "interfaces", d.get_interface_list(device=dev))
    need(d.get_dimension(device=dev) == dim, "dimension")
    for c, x in W.contacts.items():
        need(list(d.get_region_list(device=dev, contact=c)) == [x[0]], "region of contact", c)
    for i, x in W.interfaces.items():
        need(list(d.get_region_list(device=dev, interface=i)) == [x[0], x[1]], "regions of interface", i, d.get_region_list(device=dev, interface=i))
    pos = {p: i for i, p in enumerate(W.X)}
    CI = {}
    for r, T in W.regions.items():
        if r in W.materials:
            need(d.get_material(device=dev, region=r) == W.materials[r], "material of", r)
        xyz = list(zip(*[nm(dev, r, c) for c in "xyz"]))
        ni = nm(dev, r, "node_index")
        ci = ints(nm(dev, r, "coordinate_index"))
        need(ni == [float(k) for k in range(len(ni))], "node_index", ni)
        need(len(set(ci)) == len(ci), "nodes of one coordinate twice", ci)
        used = sorted({n for t in T for n in t})
        if W.byindex:
            idx = ci
        else:
            need(all(p in pos for p in xyz), "node positions", xyz)
            idx = [pos[p] for p in xyz]
        need(sorted(idx) == used, "nodes of " + r, idx, "expected", used)
        for k, n in enumerate(idx):
            need(tuple(xyz[k]) == tuple(float(v) for v in W.X[n]), "position of node", k, xyz[k])
        CI[r] = idx
        at = {n: k for k, n in enumerate(idx)}
        el = [tuple(idx[n] for n in t) for t in d.get_element_node_list(device=dev, region=r)]
        need(sorted(tuple(sorted(t)) for t in el) == T, "elements of " + r, el)
        d.edge_from_node_model(device=dev, region=r, node_model="node_index")
        n0, n1 = ints(em(dev, r, "node_index@n0")), ints(em(dev, r, "node_index@n1"))
        E = [(idx[a], idx[b]) for a, b in zip(n0, n1)]
        want = sorted({e for t in T for e in itertools.combinations(t, 2)})
        need(sorted(tuple(sorted(e)) for e in E) == want, "edges of " + r, E)
        need(em(dev, r, "edge_index") == [float(k) for k in range(len(E))], "edge_index")
        eid = {tuple(sorted(e)): k for k, e in enumerate(E)}
        ctx.count(transitions=len(idx) + len(el) + len(E))
        if dim > 1:
            d.element_from_node_model(device=dev, region=r, node_model="node_index")
            q = [ints(lm(dev, r, "node_index@en%d" % k)) for k in range(dim + 1)]
            m = 3 if dim == 2 else 6
            need(len(q[0]) == m * len(el), "element edges", len(q[0]))
            LE = []
            for k in range(len(q[0])):
                t = tuple(idx[x[k]] for x in q)
                need(tuple(sorted(t)) == tuple(sorted(el[k // m])), "nodes of element edge", k, t)
                need((t[0], t[1]) in set(E), "direction of element edge", k, t)
                LE.append(t)
            for j in range(len(el)):
                need(len({tuple(sorted(t[:2])) for t in LE[m * j:m * j + m]}) == m, "edges of element", j)
        if geometry:
            check_geometry(dev, W, r, idx, at, el, E, eid, LE if dim > 1 else None, cyl)
    for c, (r, nodes, _f) in W.contacts.items():
        cn = "cn_" + c
        d.contact_node_model(device=dev, contact=c, name=cn, equation="1")
        got = [CI[r][k] for k, v in enumerate(nm(dev, r, cn)) if v == 1]
        need(sorted(got) == sorted(nodes), "nodes of contact " + c, got)
        f = d.get_element_node_list(device=dev, region=r, contact=c)
        if dim == 1:
            f = [(n,) for t in f for n in t]
        need(sorted(tuple(sorted(CI[r][n] for n in t)) for t in f) == sorted(W.cfaces(c)), "elements of contact " + c, f)
        ctx.count(transitions=2)
    for i, (r0, r1, nodes, _f) in W.interfaces.items():
        pr = []
        for k, r in ((0, r0), (1, r1)):
            n = "in_%s_%d" % (i, k)
            d.interface_model(device=dev, interface=i, name=n, equation="node_index@r%d" % k)
            pr.append([CI[r][int(v)] for v in d.get_interface_model_values(device=dev, interface=i, name=n)])
        need(pr[0] == pr[1], "pairs of interface " + i, pr)
        need(sorted(pr[0]) == sorted(nodes), "nodes of interface " + i, pr[0])
        for k, r in ((0, r0), (1, r1)):
            f = d.get_element_node_list(device=dev, region=r, interface=i)
            if dim == 1:
                f = [(n,) for t in f for n in t]
            need(sorted(tuple(sorted(CI[r][n] for n in t)) for t in f) == sorted(W.ifaces(i, k)), "elements of interface %s in %s" % (i, r), f)
        ctx.count(transitions=4)


def shares(faces, X):
    """node: (area, [plane normals]) of a set of boundary elements"""
    out = {}
    for f in faces:
        P = [X[n] for n in f]
        if len(f) == 1:
            out[f[0]] = (1.0, [])
            continue
        if len(f) == 2:
            s = {n: size(P) / 2 for n in f}
            u = sub(P[1], P[0])
            nv = (u[1], -u[0], 0)
        else:
            c = circum(P)
            s = {}
            for a, b in itertools.combinations(f, 2):
                v = size([X[a], X[b], c]) / 2
                s[a] = s.get(a, 0.) + v
                s[b] = s.get(b, 0.) + v
            nv = cross(sub(P[1], P[0]), sub(P[2], P[0]))
        for n, v in s.items():
            o = out.get(n, (0., []))
            out[n] = (o[0] + v, o[1] + [nv])
    return out


def check_geometry(dev, W, r, idx, at, el, E, eid, LE, cyl):
    dim, X = W.dim, W.X
    L, IL = em(dev, r, "EdgeLength"), em(dev, r, "EdgeInverseLength")
    U = [em(dev, r, "unit" + c) for c in "xyz"[:dim]]
    EC, EV, NV = em(dev, r, "EdgeCouple"), em(dev, r, "EdgeNodeVolume"), nm(dev, r, "NodeVolume")
    ev, nv, ec = [0.] * len(E), [0.] * len(idx), [0.] * len(E)
    for k, (a, b) in enumerate(E):
        v = sub(X[b], X[a])
        l = norm(v)
        near(L[k], l, l, "EdgeLength", k)
        near(IL[k], 1 / l, 1 / l, "EdgeInverseLength", k)
        for c in range(dim):
            near(U[c][k], float(v[c]) / l, 1., "unit" + "xyz"[c], k)
    total = sum(size([X[n] for n in t]) for t in W.regions[r])
    well = True
    if dim == 1:
        for k, (a, b) in enumerate(E):
            ec[k] = 1.
            ev[k] = L[k] / 2
            nv[at[a]] += ev[k]
            nv[at[b]] += ev[k]
        w = None
    else:
        C = {t: circum([X[n] for n in t]) for t in map(lambda t: tuple(sorted(t)), el)}
        well = all(inside(C[t], [X[n] for n in t]) for t in C)
        w, lv = [], []
        FC = {}
        for t in LE:
            s = tuple(sorted(t))
            m = mid(X[t[0]], X[t[1]])
            if dim == 2:
                q = norm(sub(C[s], m))
                w.append(q)
                lv.append(q * norm(sub(X[t[1]], X[t[0]])) / 4)
            else:
                q = 0.
                for o in (t[2], t[3]):
                    f = tuple(sorted((t[0], t[1], o)))
                    if f not in FC:
                        FC[f] = circum([X[n] for n in f])
                    q += 0.5 * norm(cross(sub(C[s], m), sub(FC[f], C[s])))
                    if well and not inside(FC[f], [X[n] for n in f]):
                        well = False
                w.append(q)
                lv.append(q * norm(sub(X[t[1]], X[t[0]])) / 6)
            k = eid[tuple(sorted(t[:2]))]
            ec[k] += w[-1]
            ev[k] += lv[-1]
            nv[at[t[0]]] += lv[-1]
            nv[at[t[1]]] += lv[-1]
        g = lm(dev, r, "ElementEdgeCouple")
        h = lm(dev, r, "ElementNodeVolume")
        sw, sv = max(w), max(lv)
        for k in range(len(LE)):
            near(g[k], w[k], sw, "ElementEdgeCouple", k)
            near(h[k], lv[k], sv, "ElementNodeVolume", k)
    sc, sv, sn = max(ec), max(ev), max(nv)
    for k in range(len(E)):
        near(EC[k], ec[k], sc, "EdgeCouple", k)
        near(EV[k], ev[k], sv, "EdgeNodeVolume", k)
    for k in range(len(idx)):
        near(NV[k], nv[k], sn, "NodeVolume", k)
    if well:
        near(sum(NV), total, total, "sum of NodeVolume")
        ctx.count(well=1)
    # boundaries
    cf = set().union(*[W.cfaces(c) for c in W.contacts if W.contacts[c][0] == r] or [set()])
    jf = set().union(*[W.ifaces(i, k) for i in W.interfaces for k in (0, 1) if W.interfaces[i][k] == r] or [set()])
    for name, faces, pre in (("ContactSurfaceArea", cf, "ContactNSurfaceNormal_"), ("SurfaceArea", jf, "NSurfaceNormal_")):
        s = shares(faces, X)
        g = nm(dev, r, name)
        big = max([v[0] for v in s.values()] or [1.])
        for k, n in enumerate(idx):
            near(g[k], s.get(n, (0., []))[0], big, name, k)
        if dim == 1:
            continue
        N = list(zip(*[nm(dev, r, pre + c) for c in "xyz"[:dim]]))
        for k, n in enumerate(idx):
            v = tuple(N[k]) + (0.,) * (3 - dim)
            a, nvs = s.get(n, (0., []))
            if not nvs:
                need(v == (0., 0., 0.), pre, k, v)
                continue
            near(norm(v), 1., 1., pre + " length", k)
            if all(cross(nvs[0], q) == (0, 0, 0) for q in nvs):
                u = [float(x) / norm(nvs[0]) for x in nvs[0]]
                near(abs(dot(u, v)), 1., 1., pre, k, v)
    A = nm(dev, r, "AtContactNode")
    for k, n in enumerate(idx):
        need(A[k] == sum(1 for c in W.contacts if W.contacts[c][0] == r and n in W.contacts[c][1]), "AtContactNode", k, A[k])
    # distance to interfaces
    if dim > 1:
        for i in W.interfaces:
            for s in (0, 1):
                if W.interfaces[i][s] != r:
                    continue
                d.interface_normal_model(device=dev, region=r, interface=i)
                D = em(dev, r, i + "_distance")
                V = list(zip(*[em(dev, r, i + "_normal_" + c) for c in "xyz"[:dim]]))
                SN = list(zip(*[nm(dev, r, "NSurfaceNormal_" + c) for c in "xyz"[:dim]]))
                for k, (a, b) in enumerate(E):
                    m = mid(X[a], X[b])
                    ds = {n: float(dot(sub(X[n], m), sub(X[n], m))) for n in W.interfaces[i][2]}
                    best = min(ds.values())
                    near(D[k], math.sqrt(best), 1. + math.sqrt(best), i + "_distance", k)
                    ok = False
                    for n, q in ds.items():
                        if q <= best * (1 + 1e-9) + 1e-18:
                            t = [float(x) for x in sub(X[n], m)]
                            u = SN[at[n]]
                            p = sum(x * y for x, y in zip(t, u))
                            ok |= abs(p) < 1e-9 and tuple(V[k]) in (tuple(u), tuple(-x for x in u))
                            ok |= tuple(V[k]) == (tuple(-x for x in u) if p < 0 else tuple(u))
                    need(ok, i + "_normal", k, V[k])
                    ctx.count(transitions=1)
    if dim == 2 and cyl:
        check_cyl(dev, W, r, idx, at, E, eid, LE, C, cf | jf, cyl)


def check_cyl(dev, W, r, idx, at, E, eid, LE, C, faces, cyl):
    X = W.X
    var, zero = cyl
    ax = "xy".index(var)
    d.set_parameter(device=dev, region=r, name="raxis_variable", value=var)
    d.set_parameter(device=dev, region=r, name="raxis_zero", value=float(zero))
    d.cylindrical_edge_couple(device=dev, region=r)
    d.cylindrical_node_volume(device=dev, region=r)
    d.cylindrical_surface_area(device=dev, region=r)
    ec, v0, v1, nv = [0.] * len(E), [0.] * len(E), [0.] * len(E), [0.] * len(idx)
    ge = lm(dev, r, "ElementCylindricalEdgeCouple")
    g0, g1 = lm(dev, r, "ElementCylindricalNodeVolume@en0"), lm(dev, r, "ElementCylindricalNodeVolume@en1")
    rad = lambda p: float(p[ax] - zero)
    scale = max(abs(rad(X[n])) for n in idx) * math.pi * 2
    big = scale * max(size([X[n] for n in t]) for t in W.regions[r])
    for k, t in enumerate(LE):
        c = C[tuple(sorted(t))]
        m = mid(X[t[0]], X[t[1]])
        w = math.pi * abs(rad(m) + rad(c)) * norm(sub(c, m))
        near(ge[k], w, scale, "ElementCylindricalEdgeCouple", k)
        p = []
        for n in t[:2]:
            p.append(2 * math.pi * abs(rad(X[n]) + rad(m) + rad(c)) / 3 * size([X[n], m, c]))
        near(g0[k], p[0], big, "ElementCylindricalNodeVolume@en0", k)
        near(g1[k], p[1], big, "ElementCylindricalNodeVolume@en1", k)
        e = eid[tuple(sorted(t[:2]))]
        ec[e] += w
        v0[e] += p[0]
        v1[e] += p[1]
        nv[at[t[0]]] += p[0]
        nv[at[t[1]]] += p[1]
    g = em(dev, r, "CylindricalEdgeCouple")
    h0, h1 = em(dev, r, "CylindricalEdgeNodeVolume@n0"), em(dev, r, "CylindricalEdgeNodeVolume@n1")
    for k in range(len(E)):
        near(g[k], ec[k], scale, "CylindricalEdgeCouple", k)
        near(h0[k], v0[k], big, "CylindricalEdgeNodeVolume@n0", k)
        near(h1[k], v1[k], big, "CylindricalEdgeNodeVolume@n1", k)
    g = nm(dev, r, "CylindricalNodeVolume")
    s = [0.] * len(idx)
    for a, b in faces:
        m = mid(X[a], X[b])
        for n in (a, b):
            s[at[n]] += math.pi * abs(rad(X[n]) + rad(m)) * norm(sub(X[n], m))
    gs = nm(dev, r, "CylindricalSurfaceArea")
    for k in range(len(idx)):
        near(g[k], nv[k], big, "CylindricalNodeVolume", k)
        near(gs[k], s[k], scale * 10, "CylindricalSurfaceArea", k)


def clean():
    for x in list(d.get_device_list()):
        d.delete_device(device=x)
    for x in list(d.get_mesh_list()):
        d.delete_mesh(mesh=x)


def refused(fn):
    try:
        fn()
    except d.error as e:
        need(len(str(e).strip()) > 0, "an error without a message")
        return True
    return False


def report(key, item, name):
    def wrap(fn):
        try:
            fn()
        except Bad as e:
            ctx.violation(key, str(e), {"name": name, "item": item})
        except d.error as e:
            ctx.violation(key, "an accepted description failed: %s" % str(e).strip()[:200], {"name": name, "item": item})
        finally:
            clean()
    return wrap


# ------------------------------------------------------------------ A: 1D spacing
def spaced(xl, xh, sl, sh):
    """points of one section; None when a decision is too close to call"""
    xl, xh, sl, sh = map(Fr, (xl, xh, sl, sh))
    tol = Fr(1, 10 ** 10)
    q = abs(sh - sl) / sh
    if q != 0 and tol / 100 < q < tol * 100:
        return None
    if q < tol:
        k = (xh - xl) / sl
        out, x = [xl], xl
        while x < xh:
            x += sl
            if abs(x - (xh - tol)) < tol / 100:
                return None
            if x > xh - tol:
                x = xh
            out.append(x)
        return out
    if abs((xl + sl) - (xh - sh)) < Fr(1, 10 ** 13) * (abs(xl) + abs(xh)) and (xl + sl) != (xh - sh):
        return None
    if xl + sl > xh - sh:
        return [xl, xh]
    Ln = xh - xl
    ratio = float((Ln - sl) / (Ln - sh))
    out, x, i = [float(xl)], float(xl), 0
    while x < xh:
        x += float(sl) * ratio ** i
        i += 1
        if abs(x - float(xh - tol)) < float(tol) / 100:
            return None
        if x > xh - tol:
            x = float(xh)
            t = float(xh - sh)
            if abs(out[-1] - (t - float(tol))) < float(tol) / 100:
                return None
            if out[-1] < t - float(tol):
                out.append(t)
        out.append(x)
    return [Fr(v) for v in out]


def do_spacing(item):
    ctx.count(states=1)
    ctx.state("space", item)
    lines, = item[1:]
    pts = []
    ok = True
    for a, b in zip(lines, lines[1:]):
        s = spaced(a[0], b[0], a[1], b[2])
        if s is None:
            ctx.count(ambiguous=1)
            return
        pts += s if not pts else s[1:]

    @report("spacing:%s" % (vc.digest(item),), item, "spacing")
    def _():
        d.create_1d_mesh(mesh="M")
        for k, (p, ps, ns) in enumerate(lines):
            d.add_1d_mesh_line(mesh="M", pos=p, ps=ps, ns=ns, tag="t%d" % k)
        d.add_1d_contact(mesh="M", name="c0", tag="t0", material="metal")
        d.add_1d_contact(mesh="M", name="c1", tag="t%d" % (len(lines) - 1), material="metal")
        d.add_1d_region(mesh="M", region="R", material="Si", tag1="t0", tag2="t%d" % (len(lines) - 1))
        d.finalize_mesh(mesh="M")
        d.create_device(mesh="M", device="D")
        x = nm("D", "R", "x")
        need(len(x) == len(pts), "number of points", len(x), "expected", len(pts), [float(v) for v in pts], x)
        span = float(pts[-1] - pts[0]) + abs(float(pts[0]))
        for g, p in zip(x, pts):
            near(g, float(p), 1e3 * span, "point")
        need(all(b > a for a, b in zip(x, x[1:])), "points in order", x)
        for p, _a, _b in lines:
            need(p in x, "line position", p, x)
        n = len(x)
        verify("D", World(1, [(v, 0, 0) for v in x], {"R": [(k, k + 1) for k in range(n - 1)]},
                          {"c0": ("R", [0], None), "c1": ("R", [n - 1], None)}, byindex=False), geometry=n < 200)


def spacing_items():
    S = [1e-3, 0.01, 0.1, 0.11, 0.25, 0.3, 0.5, 1.0, 2.0, 1e30]
    out = []
    for Ls, x0 in ((1.0, 0.0), (0.7, 10.0), (1e-5, -1e-5), (3.0, -1.5)):
        for ps in S:
            for ns in S:
                a, b = (ps * Ls, ns * Ls) if ps < 1e29 else (ps, ns * Ls if ns < 1e29 else ns)
                out.append(("sp", ((x0, a, a), (x0 + Ls, b, b))))
    T = [0.1, 0.25, 1.0]
    for a, b, c, e in itertools.product(T, repeat=4):
        out.append(("sp", ((0.0, a, 1.0), (1.0, c, b), (2.5, 1.0, e))))
    return out


# ------------------------------------------------------------------ A: 1D structure
POS = (0.0, 1.0, 2.0, 3.0)
PER = 2   # intervals between two lines


def do_struct(item):
    _k, regs, cons, ints_, order = item
    ctx.count(states=1)
    ctx.state("struct", item)
    end = len(POS) - 1
    # oracle
    segs = sorted((min(a, b), max(a, b), n) for n, a, b in regs)
    ok = bool(segs) and all(a != b for a, b, _n in segs) and segs[0][0] == 0 and segs[-1][1] == end
    ok = ok and all(p[1] == q[0] for p, q in zip(segs, segs[1:]))
    ok = ok and len({n for n, _a, _b in regs}) == len(regs)
    ok = ok and len(cons) == 2 and {t for _n, t in cons} == {0, end} and len({n for n, _t in cons}) == 2
    meets = [p[1] for p in segs[:-1]] if ok else []
    ok = ok and sorted(t for _n, t in ints_) == meets and len({n for n, _t in ints_}) == len(ints_)

    def build(skip=None):
        d.create_1d_mesh(mesh="M")
        todo = [("l", k) for k in range(end + 1)] + [("r", x) for x in regs] + [("c", x) for x in cons] + [("i", x) for x in ints_]
        if order:
            todo.reverse()
        for kind, x in todo:
            if (kind, x) == skip:
                continue
            add(kind, x)

    def add(kind, x):
        if kind == "l":
            d.add_1d_mesh_line(mesh="M", pos=POS[x], ps=(POS[1] - POS[0]) / PER, tag="t%d" % x)
        elif kind == "r":
            d.add_1d_region(mesh="M", region=x[0], material="m" + x[0], tag1="t%d" % x[1], tag2="t%d" % x[2])
        elif kind == "c":
            d.add_1d_contact(mesh="M", name=x[0], material="metal", tag="t%d" % x[1])
        else:
            d.add_1d_interface(mesh="M", name=x[0], tag="t%d" % x[1])

    def world():
        n = end * PER + 1
        X = [(POS[-1] * k / (n - 1), 0, 0) for k in range(n)]
        R = {nme: [(k, k + 1) for k in range(a * PER, b * PER)] for a, b, nme in segs}
        C = {nme: ((segs[0] if t == 0 else segs[-1])[2], [t * PER], None) for nme, t in cons}
        I = {nme: ([s for s in segs if s[1] == t][0][2], [s for s in segs if s[0] == t][0][2], [t * PER], None) for nme, t in ints_}
        return World(1, X, R, C, I, materials={nme: "m" + nme for nme in R})

    @report("struct:%s" % (vc.digest(item),), item, "struct")
    def _():
        build()
        if not ok:
            ctx.count(refused=1)
            need(refused(lambda: d.finalize_mesh(mesh="M")), "a 1D mesh that cannot be made was accepted")
            need(refused(lambda: d.create_device(mesh="M", device="D")), "a device of a mesh that was refused")
            need(not d.get_device_list(), "a device left behind")
            return
        ctx.count(accepted=1)
        d.finalize_mesh(mesh="M")
        for n in ("D", "E"):
            d.create_device(mesh="M", device=n)
        d.delete_mesh(mesh="M")
        verify("D", world())
        d.delete_device(device="D")
        verify("E", world(), geometry=False)
        clean()
        # without one of its parts it is refused, and accepted when the part is added
        for part in [("l", k) for k in range(end + 1)] + [("r", x) for x in regs] + [("c", x) for x in cons] + [("i", x) for x in ints_]:
            used = {t for _n, t in cons} | {t for _n, t in ints_} | {t for x in regs for t in x[1:]}
            if part[0] == "l" and part[1] not in used:
                continue
            ctx.count(states=1)
            build(skip=part)
            need(refused(lambda: d.finalize_mesh(mesh="M")), "accepted without", part)
            add(*part)
            d.finalize_mesh(mesh="M")
            d.create_device(mesh="M", device="D")
            verify("D", world(), geometry=False)
            clean()


def struct_items():
    seg = list(itertools.combinations(range(4), 2))
    con = [(0, 3), (3, 0), (0, 2), (0,), (0, 3, 1), (0, 0), (1, 3)]
    inter = [c for n in range(5) for c in itertools.combinations(range(4), n)] + [(1, 1)]
    out = []
    names = "BAC"
    for n in (0, 1, 2, 3):
        for rs in itertools.product(seg, repeat=n):
            cov = sorted(rs)
            good = bool(rs) and cov[0][0] == 0 and cov[-1][1] == 3 and all(p[1] == q[0] for p, q in zip(cov, cov[1:]))
            for cs in con:
                for it in inter:
                    if not TH and not good and (cs not in con[:2] or len(it) > 2):
                        continue
                    for order in ((0, 1) if good else (0,)):
                        regs = tuple((names[k], a, b) if (k + order) % 2 else (names[k], b, a) for k, (a, b) in enumerate(rs))
                        out.append(("st", regs, tuple(("c%d" % k, t) for k, t in enumerate(cs)), tuple(("i%d" % k, t) for k, t in enumerate(it)), order))
    # names used twice, tags that do not exist
    c2, i1 = (("c0", 0), ("c1", 3)), (("i0", 1),)
    r2 = (("A", 0, 1), ("B", 1, 3))
    out += [("st", (("A", 0, 1), ("A", 1, 3)), c2, i1, 0), ("st", r2, (("c", 0), ("c", 3)), i1, 0),
            ("st", (("A", 0, 1), ("B", 1, 2), ("C", 2, 3)), c2, (("i", 1), ("i", 2)), 0),
            ("st", (("A", 0, 1), ("B", 1, 9)), c2, i1, 0), ("st", r2, (("c0", 0), ("c1", 9)), i1, 0), ("st", r2, c2, (("i0", 9),), 0),
            ("st", r2, c2, i1 + (("i1", 9),), 0), ("st", (("A", 0, 1), ("B", 1, 3), ("C", 2, 2)), c2, i1, 0)]
    return out


BAD1D = {
    "nopos": lambda: d.add_1d_mesh_line(mesh="M", pos=float("nan"), ps=1., tag="a"),
    "infpos": lambda: d.add_1d_mesh_line(mesh="M", pos=float("inf"), ps=1., tag="a"),
    "infneg": lambda: d.add_1d_mesh_line(mesh="M", pos=float("-inf"), ps=1., tag="a"),
    "zerops": lambda: d.add_1d_mesh_line(mesh="M", pos=0., ps=0., tag="a"),
    "negps": lambda: d.add_1d_mesh_line(mesh="M", pos=0., ps=-1., tag="a"),
    "nanps": lambda: d.add_1d_mesh_line(mesh="M", pos=0., ps=float("nan"), tag="a"),
    "nanns": lambda: d.add_1d_mesh_line(mesh="M", pos=0., ps=1., ns=float("nan"), tag="a"),
    "wrongdim": lambda: d.add_2d_mesh_line(mesh="M", dir="x", pos=0., ps=1.),
}


def fin1(lines, tags=None):
    d.create_1d_mesh(mesh="M")
    for k, (p, s) in enumerate(lines):
        d.add_1d_mesh_line(mesh="M", pos=p, ps=s, tag=(tags or "abcdef")[k])
    t = sorted(range(len(lines)), key=lambda k: lines[k][0])
    d.add_1d_contact(mesh="M", name="c0", tag="a", material="metal")
    d.add_1d_contact(mesh="M", name="c1", tag="b", material="metal")
    d.add_1d_region(mesh="M", region="R", material="Si", tag1="a", tag2="b")
    d.finalize_mesh(mesh="M")


STALL = {"nolines": [], "oneline": [(0., 1.)], "twice": [(0., 1.), (0., 1.)], "tagtwice": [(0., 1.), (1., 1.), (2., 1.)],
         "stall": [(1e17, 1.), (2e17, 1.)], "stall2": [(1e17, 1.), (1e17 + 64, 2.)], "middle": [(0., .5), (1., .5), (0.5, .5), (0.5, .5)]}


def do_bad1(item):
    ctx.count(states=1, refused=1)
    _k, n = item

    @report("bad1d:%s" % n, item, "bad1")
    def _():
        if n in BAD1D:
            d.create_1d_mesh(mesh="M")
            need(refused(BAD1D[n]), "accepted")
        else:
            need(refused(lambda: fin1(STALL[n], "aab" if n == "tagtwice" else None)), "accepted")
        clean()
        fin1([(0., .5), (1., .5)])
        d.create_device(mesh="M", device="D")
        verify("D", World(1, [(0, 0, 0), (Fr(1, 2), 0, 0), (1, 0, 0)], {"R": [(0, 1), (1, 2)]}, {"c0": ("R", [0], None), "c1": ("R", [2], None)}))


# ------------------------------------------------------------------ B: 2D lines and boxes
def ref2d(xs, ys, regions, contacts, interfaces):
    """regions: [(name, box)], contacts: [(name, region, box)], interfaces: [(name, r0, r1, box)]; None where refused"""
    X = [(x, y, 0) for x in xs for y in ys]
    ny = len(ys)
    bloat = Fr(1, 10 ** 10)

    def hit(box, p):
        if box is None:
            return True
        x0, x1, y0, y1 = box
        return min(x0, x1) - bloat < p[0] < max(x0, x1) + bloat and min(y0, y1) - bloat < p[1] < max(y0, y1) + bloat
    order = list(dict.fromkeys(r[0] for r in regions))
    R = {}
    for i in range(len(xs) - 1):
        for j in range(ny - 1):
            ul, ur, ll, lr = i * ny + j, (i + 1) * ny + j, i * ny + j + 1, (i + 1) * ny + j + 1
            for t in ((ul, ur, ll), (ur, lr, ll)):
                c = tuple(sum(Fr(X[n][k]) for n in t) / 3 for k in (0, 1))
                who = None
                for r in order:
                    if any(hit(b, c) for n, b in regions if n == r):
                        who = r
                if who is not None:
                    R.setdefault(who, []).append(t)
    nodes = {r: {n for t in R[r] for n in t} for r in R}
    C, I = {}, {}
    corder = list(dict.fromkeys(c[0] for c in contacts))
    iorder = list(dict.fromkeys(c[0] for c in interfaces))
    creg = {}
    for n, r, b in contacts:
        creg.setdefault(n, r)
    ireg = {}
    for n, r0, r1, b in interfaces:
        ireg.setdefault(n, (r0, r1))
    touched_c, touched_i = set(), set()
    for n in range(len(X)):
        if sum(n in nodes[r] for r in R) < 2:
            continue
        found = False
        for c in corder:
            if not any(hit(b, X[n]) for m, _r, b in contacts if m == c):
                continue
            touched_c.add(c)
            if n in nodes.get(creg[c], ()):
                C.setdefault(c, []).append(n)
                found = True
                break
        if found:
            continue
        for i in iorder:
            if not any(hit(b, X[n]) for m, _a, _b, b in interfaces if m == i):
                continue
            touched_i.add(i)
            r0, r1 = ireg[i]
            if n in nodes.get(r0, ()) and n in nodes.get(r1, ()):
                I.setdefault(i, []).append(n)
                break
    if not R or any(creg[c] not in R for c in touched_c) or any(set(ireg[i]) - set(R) for i in touched_i):
        return None
    W = World(2, X, R, {c: (creg[c], C[c], None) for c in C}, {i: ireg[i] + (I[i], None) for i in I})
    W.empty = (touched_c - set(C)) | (touched_i - set(I))
    return W


GRIDS = {
    "2x2": (((0., 1.), (2., 1.)), ((0., 1.), (2., 1.))),
    "1x3": (((0., 2.), (2., 2.)), ((3., 1.), (0., 1.))),
    "rev": (((2., 1.), (0., 1.), (0., 1.)), ((2., 1.), (0., 1.))),
    "uneq": (((0., 1.), (1., 1.), (3., 2.)), ((-1., .5), (0., 1.), (1., 1.))),
}


def axis(lines):
    pts = sorted(set(lines))
    out = []
    for a, b in zip(pts, pts[1:]):
        s = spaced(a[0], b[0], a[1], b[1])
        out += s if not out else s[1:]
    return out


def box2(name, xs, ys):
    x0, x1, y0, y1 = xs[0], xs[-1], ys[0], ys[-1]
    xm, ym = xs[len(xs) // 2], ys[len(ys) // 2]
    return {"all": None, "left": (x0, xm, y0, y1), "right": (xm, x1, y0, y1), "leftr": (xm, x0, y1, y0), "top": (x0, x1, y0, ym), "bottom": (x0, x1, ym, y1),
            "quad": (xm, x1, ym, y1), "off": (x0 + Fr(1, 2), x1 - Fr(1, 2), y0 + Fr(1, 2), y1 - Fr(1, 2)), "none": (x1 + 5, x1 + 6, y0, y1),
            "xmid": (xm, xm, y0, y1), "ymid": (x0, x1, ym, ym), "pt": (xm, xm, ym, ym), "edge": (x0, x0, y0, y1), "big": (x0 - 7, x1 + 7, y0 - 7, y1 + 7)}[name]


def args(b):
    return {} if b is None else dict(xl=float(b[0]), xh=float(b[1]), yl=float(b[2]), yh=float(b[3]))


def do_2d(item):
    _k, grid, regs, cons, ints_ = item
    ctx.count(states=1)
    ctx.state("2d", item)
    gx, gy = GRIDS[grid]
    xs, ys = axis(gx), axis(gy)
    rg = [(n, box2(b, xs, ys)) for n, b in regs]
    cn = [(n, r, box2(b, xs, ys)) for n, r, b in cons]
    it = [(n, a, b, box2(x, xs, ys)) for n, a, b, x in ints_]
    W = ref2d(xs, ys, rg, cn, it)

    @report("2d:%s" % (vc.digest(item),), item, "2d")
    def _():
        d.create_2d_mesh(mesh="M")
        for dr, g in (("x", gx), ("y", gy)):
            for p, s in g:
                d.add_2d_mesh_line(mesh="M", dir=dr, pos=p, ps=s)
        for n, b in rg:
            d.add_2d_region(mesh="M", region=n, material="m" + n, **args(b))
        for n, r, b in cn:
            d.add_2d_contact(mesh="M", name=n, region=r, material="metal", **args(b))
        for n, a, b, x in it:
            d.add_2d_interface(mesh="M", name=n, region0=a, region1=b, **args(x))

        def make(n):
            d.finalize_mesh(mesh="M")
            d.create_device(mesh="M", device=n)
        if W is None:
            ctx.count(refused=1)
            need(refused(lambda: make("D")), "a 2D mesh that cannot be made was accepted")
            need(not d.get_device_list(), "a device left behind")
            return
        ctx.count(accepted=1)
        make("D")
        W.materials = {r: "m" + r for r in W.regions}
        cyl = ("xy"[len(regs) % 2], Fr(-7) if len(regs) < 3 else Fr(9))
        verify("D", W, cyl=cyl)
        d.create_device(mesh="M", device="E")
        d.delete_device(device="D")
        d.delete_mesh(mesh="M")
        verify("E", W, geometry=False)


def items_2d():
    out = []
    BX = ("all", "left", "right", "leftr", "top", "bottom", "quad", "off", "none")
    CON = ((), (("c", "A", "xmid"),), (("c", "B", "all"),), (("c", "A", "edge"),), (("c", "A", "pt"), ("e", "B", "pt")), (("c", "A", "xmid"), ("c", "A", "ymid")), (("c", "Z", "xmid"),))
    INT = ((), (("i", "A", "B", "all"),), (("i", "B", "A", "xmid"), ("j", "A", "B", "all")), (("i", "A", "C", "all"),), (("i", "A", "B", "xmid"), ("i", "A", "B", "ymid")), (("i", "A", "Z", "all"),))
    for grid in GRIDS:
        for n in (1, 2, 3):
            for nn in itertools.product("ABC", repeat=n):
                if any(x > y + 1 for x, y in zip([ord(c) for c in nn], [64] + [max(map(ord, nn[:k])) for k in range(1, n)])):
                    continue
                for bb in itertools.product(BX, repeat=n):
                    rs = tuple(zip(nn, bb))
                    if n == 3 and (grid != "uneq" or (not TH and (bb[0] not in ("all", "left", "off") or len(set(bb)) < 3))):
                        continue
                    if n == 3 and not TH:
                        cc = ((0, 1), (1, 3), (5, 4), (2, 0))
                    elif n == 2 and grid != "uneq" and not TH:
                        cc = ((0, 0), (1, 2), (2, 1), (4, 4))
                    else:
                        cc = itertools.product(range(len(CON)), range(len(INT)))
                    for c, i in cc:
                        out.append(("2d", grid, rs, CON[c], INT[i]))
    return out


BAD2D = {"nan": dict(dir="x", pos=float("nan"), ps=1.), "inf": dict(dir="y", pos=float("inf"), ps=1.), "ps0": dict(dir="y", pos=0., ps=0.),
         "dir": dict(dir="z", pos=0., ps=1.), "nodir": dict(pos=0., ps=1.), "nanns": dict(dir="x", pos=0., ps=1., ns=float("nan"))}
FIN2D = {"nolines": [], "noy": [("x", 0., 1.), ("x", 1., 1.)], "nox": [("y", 0., 1.), ("y", 1., 1.)], "oney": [("x", 0., 1.), ("x", 1., 1.), ("y", 0., 1.)],
         "samey": [("x", 0., 1.), ("x", 1., 1.), ("y", 0., 1.), ("y", 0., 1.)], "stall": [("x", 1e17, 1.), ("x", 2e17, 1.), ("y", 0., 1.), ("y", 1., 1.)]}


def do_bad2(item):
    ctx.count(states=1, refused=1)
    _k, n = item

    @report("bad2d:%s" % n, item, "bad2")
    def _():
        d.create_2d_mesh(mesh="M")
        if n in BAD2D:
            need(refused(lambda: d.add_2d_mesh_line(mesh="M", **BAD2D[n])), "accepted")
        elif n in FIN2D:
            for a, p, s in FIN2D[n]:
                d.add_2d_mesh_line(mesh="M", dir=a, pos=p, ps=s)
            d.add_2d_region(mesh="M", region="R", material="Si")
            need(refused(lambda: d.finalize_mesh(mesh="M")), "accepted")
            if n == "stall":
                return
        elif n == "nanbox":
            need(refused(lambda: d.add_2d_region(mesh="M", region="Q", material="Si", xl=float("nan"))), "accepted")
        elif n == "sameregion":
            need(refused(lambda: d.add_2d_interface(mesh="M", name="i", region0="R", region1="R")), "accepted")
        for a in "xy":
            d.add_2d_mesh_line(mesh="M", dir=a, pos=0., ps=1.)
            d.add_2d_mesh_line(mesh="M", dir=a, pos=1., ps=1.)
        if n not in FIN2D:
            d.add_2d_region(mesh="M", region="R", material="Si")
        d.finalize_mesh(mesh="M")
        d.create_device(mesh="M", device="D")
        verify("D", ref2d([Fr(0), Fr(1)], [Fr(0), Fr(1)], [("R", None)], [], []))


# ------------------------------------------------------------------ C: gmsh
def gbuild(dev, coords, groups, regions, contacts=(), interfaces=(), file=None, order=None):
    """groups: [(name, [tuples])]; regions: [(name, groups)]; contacts: [(name, region, groups)]; interfaces: [(name, r0, r1, groups)]"""
    el = []
    names = [g[0] for g in groups]
    lst = [(k, t) for k, g in enumerate(groups) for t in g[1]]
    for j in (order or range(len(lst))):
        k, t = lst[j]
        el += [len(t) - 1, k] + list(t)
    flat = [float(v) for c in coords for v in c]
    d.create_gmsh_mesh(mesh=dev, coordinates=flat, physical_names=names, elements=el)
    gfinish(dev, regions, contacts, interfaces)


def gfinish(dev, regions, contacts, interfaces):
    for n, gs in regions:
        for g in gs:
            d.add_gmsh_region(mesh=dev, gmsh_name=g, region=n, material="m" + n)
    for n, r, gs in contacts:
        for g in gs:
            d.add_gmsh_contact(mesh=dev, gmsh_name=g, region=r, name=n, material="metal")
    for n, a, b, gs in interfaces:
        for g in gs:
            d.add_gmsh_interface(mesh=dev, gmsh_name=g, region0=a, region1=b, name=n)
    d.finalize_mesh(mesh=dev)
    d.create_device(mesh=dev, device=dev)


def gworld(dim, coords, groups, regions, contacts=(), interfaces=()):
    G = dict(groups)
    R = {n: [t for g in gs for t in G[g]] for n, gs in regions}

    def surf(gs):
        ts = [t for g in gs for t in G[g]]
        nodes = {n for t in ts for n in t}
        fs = {tuple(sorted(f)) for t in ts if len(t) >= dim for f in itertools.combinations(sorted(t), dim)}
        return nodes, fs

    faces_of = {n: {f for t in R[n] for f in itertools.combinations(sorted(t), dim)} for n in R}
    C, I = {}, {}
    for n, r, gs in contacts:
        nodes, fs = surf(gs)
        fs &= faces_of[r]
        C[n] = (r, nodes, fs or None)
    for n, a, b, gs in interfaces:
        nodes, fs = surf(gs)
        fs &= faces_of[a] & faces_of[b]
        I[n] = (a, b, nodes, fs or None)
    return World(dim, coords, R, C, I, materials={n: "m" + n for n in R})


# a fan of four triangles around node 0 (all angles acute or right), and around it nothing
FAN = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (-2, 0, 0), (0, -2, 0)]
FT = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)]
RIM = [(1, 2), (2, 3), (3, 4), (4, 1)]
SPK = [(0, 1), (0, 2), (0, 3), (0, 4)]


def do_fan(item):
    """assignment of four triangles to groups, of groups to regions, with numbering and orientation"""
    _k, assign, perm, rot, merge, ck, ik = item
    ctx.count(states=1)
    ctx.state("fan", item)
    co = [FAN[perm.index(k)] for k in range(5)] if len(perm) == 5 else None
    ren = lambda t: tuple(perm[n] for n in t)

    def turn(t, k):
        t = ren(t)
        r = list(itertools.permutations(t))
        return r[(rot + k) % len(r)]
    gs = []
    used = sorted(set(assign))
    for a in used:
        gs.append(("g%d" % a, [turn(FT[k], k) for k in range(4) if assign[k] == a]))
    regs = [("R%d" % a, ["g%d" % a]) for a in used]
    if merge and len(used) > 1:
        regs = [("R%d" % used[0], ["g%d" % used[0], "g%d" % used[1]])] + regs[2:]
    reg_of = {}
    for n, g in regs:
        for x in g:
            reg_of[int(x[1:])] = n
    ftr = [reg_of[a] for a in assign]
    cons, inters = [], []
    r0 = ftr[0]
    if ck == 1:      # the rim of the first region, by its edges
        gs.append(("gc", [turn(RIM[k], 0)[:2] for k in range(4) if ftr[k] == r0]))
        cons.append(("c", r0, ["gc"]))
    elif ck == 2:    # nodes only
        ns = sorted({n for k in range(4) if ftr[k] == r0 for n in RIM[k]})
        gs.append(("gc", [ren((n,)) for n in ns]))
        cons.append(("c", r0, ["gc"]))
    elif ck == 3:    # two groups for one contact, and a second contact that shares a node
        gs.append(("gc", [turn(RIM[0], 0)[:2]]))
        gs.append(("gd", [ren((RIM[0][0],))]))
        gs.append(("ge", [ren((0,))]))
        cons += [("c", r0, ["gc", "ge"]), ("e", r0, ["gd"])]
    shared = [k for k in range(4) if ftr[(k - 1) % 4] != ftr[k]]    # spokes between two regions: spoke k is between triangles k-1 and k
    if ik and shared:
        pairs = {}
        for k in shared:
            pairs.setdefault(tuple(sorted((ftr[(k - 1) % 4], ftr[k]))), []).append(SPK[k])
        for j, (p, sp) in enumerate(sorted(pairs.items())):
            if ik == 2:
                gs.append(("gi%d" % j, sorted({ren((n,)) for s in sp for n in s})))
                p = p[::-1]
            else:
                gs.append(("gi%d" % j, [ren(s) for s in sp]))
            inters.append(("i%d" % j, p[0], p[1], ["gi%d" % j]))
    n = sum(len(g[1]) for g in gs)

    @report("fan:%s" % (vc.digest(item),), item, "fan")
    def _():
        gbuild("D", co, gs, regs, cons, inters, order=list(range(n))[::-1] if rot % 2 else None)
        ctx.count(accepted=1)
        verify("D", gworld(2, co, gs, regs, cons, inters), cyl=("x", Fr(-5)) if rot % 2 else ("y", Fr(6)))


def fan_items():
    out = []
    P = list(itertools.permutations(range(5)))
    asg = [a for a in itertools.product(range(4), repeat=4) if all(x <= max(a[:k], default=-1) + 1 for k, x in enumerate(a))]
    for ai, a in enumerate(asg):
        for ci, ck in enumerate((0, 1, 2, 3)):
            for ik in (0, 1, 2):
                for merge in (0, 1):
                    if merge and len(set(a)) < 2:
                        continue
                    sel = P if TH else [P[(7 * ai + 11 * ck + 5 * ik) % 120], P[(13 * ai + 3 * ck + 31 * ik + 60) % 120]]
                    for pi, p in enumerate(sel):
                        out.append(("fan", a, p, (pi + ai + ck) % 6, merge, ck, ik))
    # every numbering once, over everything else fixed
    for pi, p in enumerate(P):
        for rot in range(6):
            out.append(("fan", (0, 0, 1, 1), p, rot, 0, 1, 1 + pi % 2))
    return out


KT = [(0, 1, 3, 7), (0, 1, 5, 7), (0, 2, 3, 7), (0, 2, 6, 7), (0, 4, 5, 7), (0, 4, 6, 7)]
CUBE = [(x, y, z) for z in (0, 2) for y in (0, 3) for x in (0, 1)]
SHAPES = {   # single tetrahedra: right angled, with its center inside, flat
    "corner": [(0, 0, 0), (2, 0, 0), (0, 3, 0), (0, 0, 4)],
    "inside": [(0, 0, 0), (4, 0, 0), (2, 4, 0), (2, 2, 4)],
    "regular": [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)],
    "skew": [(0, 0, 0), (5, 1, 0), (1, 4, 1), (2, 2, 3)],
}


def do_tet(item):
    ctx.count(states=1)
    ctx.state("tet", item)
    _k, kind, arg, perm, ck = item
    cons, inters = [], []
    if kind == "one":
        co0, T, rg = SHAPES[arg], [(0, 1, 2, 3)], [0]
    else:
        co0, T, rg = CUBE, KT, list(arg)
    n = len(co0)
    co = [None] * n
    for k in range(n):
        co[perm[k]] = co0[k]
    ren = lambda t: tuple(perm[x] for x in t)
    gs = [("g%d" % a, [ren(T[k]) for k in range(len(T)) if rg[k] == a]) for a in sorted(set(rg))]
    regs = [("R%d" % a, ["g%d" % a]) for a in sorted(set(rg))]
    cnt = {}
    for k, t in enumerate(T):
        for f in itertools.combinations(t, 3):
            cnt.setdefault(f, []).append(rg[k])
    bf = [f for f, r in cnt.items() if len(r) == 1 and r[0] == 0]
    shared = [f for f, r in cnt.items() if len(set(r)) == 2]
    if ck == 1:
        gs.append(("gc", [ren(f) for f in bf[:2]]))
        cons.append(("c", "R0", ["gc"]))
    elif ck == 2:
        gs.append(("gc", sorted({ren((x,)) for f in bf for x in f})))
        cons.append(("c", "R0", ["gc"]))
    elif ck == 3:
        gs.append(("gc", [ren(bf[0][:2])]))
        gs.append(("ge", [ren(bf[-1])[::-1]]))
        cons += [("c", "R0", ["gc"]), ("e", "R0", ["ge"])]
    if shared and ck:
        if ck == 2:
            gs.append(("gi", sorted({ren((x,)) for f in shared for x in f})))
        else:
            gs.append(("gi", [ren(f)[::-1] for f in shared]))
        inters.append(("i", "R0", "R1", ["gi"]))

    @report("tet:%s" % (vc.digest(item),), item, "tet")
    def _():
        gbuild("D", co, gs, regs, cons, inters)
        ctx.count(accepted=1)
        verify("D", gworld(3, co, gs, regs, cons, inters))


def tet_items():
    out = []
    for s in SHAPES:
        for p in itertools.permutations(range(4)):
            for ck in range(4):
                out.append(("tet", "one", s, p, ck))
    ps = [tuple(range(8)), tuple(range(7, -1, -1)), (3, 6, 1, 4, 7, 0, 5, 2), (5, 0, 7, 2, 1, 6, 3, 4)]
    asg = [a for a in itertools.product((0, 1), repeat=6) if a[0] == 0]
    for ai, a in enumerate(asg):
        for ck in range(4):
            for k, p in enumerate(ps):
                if TH or (ai + ck + k) % 4 == 0:
                    out.append(("tet", "cube", a, p, ck))
    return out


def do_chain(item):
    """a chain of line elements: numbering, orientation, regions, contacts and interfaces as points"""
    _k, perm, rot, asg, ck, extra = item
    ctx.count(states=1)
    ctx.state("chain", item)
    n = len(perm)
    xs = [0, 1, 3, 4, 7][:n]
    co = [None] * n
    for k in range(n):
        co[perm[k]] = (xs[k], 0, 0)
    if extra:   # a coordinate that nothing refers to, and elements given twice
        co.append((100, 0, 0))
    T = [(perm[k], perm[k + 1]) if not (rot >> k) & 1 else (perm[k + 1], perm[k]) for k in range(n - 1)]
    used = sorted(set(asg))
    gs = [("g%d" % a, [T[k] for k in range(n - 1) if asg[k] == a]) for a in used]
    if extra:
        gs[0] = (gs[0][0], gs[0][1] * 2)
    regs = [("R%d" % a, ["g%d" % a]) for a in used]
    cons, inters = [], []
    if ck:
        gs += [("gc", [(perm[0],)]), ("gd", [(perm[n - 1],)])]
        cons = [("c", "R%d" % asg[0], ["gc"]), ("e", "R%d" % asg[-1], ["gd"] + (["gc"] if asg[0] == asg[-1] and ck == 2 else []))]
        meet = {}
        for k in range(1, n - 1):
            if asg[k - 1] != asg[k]:
                meet.setdefault(tuple(sorted((asg[k - 1], asg[k]))), []).append(perm[k])
        for j, ((a, b), ns) in enumerate(sorted(meet.items())):
            gs.append(("gi%d" % j, [(x,) for x in ns]))
            inters.append(("i%d" % j, "R%d" % (b if ck == 2 else a), "R%d" % (a if ck == 2 else b), ["gi%d" % j]))
        if ck == 2 and meet:   # a contact of one region where it meets the other
            (a, b), ns = sorted(meet.items())[0]
            gs.append(("gm", [(ns[0],)]))
            cons.append(("m", "R%d" % a, ["gm"]))

    @report("chain:%s" % (vc.digest(item),), item, "chain")
    def _():
        gbuild("D", co, gs, regs, cons, inters)
        ctx.count(accepted=1)
        verify("D", gworld(1, co, gs, regs, cons, inters))


def chain_items():
    out = []
    for n in (2, 3, 4) + ((5,) if TH else ()):
        asgs = [a for a in itertools.product(range(3), repeat=n - 1) if all(x <= max(a[:k], default=-1) + 1 for k, x in enumerate(a))]
        for p in itertools.permutations(range(n)):
            for rot in range(2 ** (n - 1)):
                for a in asgs:
                    for ck in (0, 1, 2):
                        if n >= 4 and not TH and (rot + ck) % 4:
                            continue
                        out.append(("chain", p, rot, a, ck, (rot + ck) % 2))
    return out


# ------------------------------------------------------------------ C: files
def gmshfile(coords, groups, ids=None, tags=1, numbers=True, ws=" "):
    """the text of a mesh file; groups are (name or None, physical number, [tuples])"""
    o = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    named = [(len(ts[0]) - 1, num, n) for n, num, ts in groups if n is not None]
    if named:
        o += ["$PhysicalNames", str(len(named))] + ['%d %d "%s"' % t for t in named] + ["$EndPhysicalNames"]
    ids = ids or list(range(1, len(coords) + 1))
    o += ["$Nodes", str(len(coords))] + ["%d %r %r %r" % ((i,) + tuple(map(float, c))) for i, c in zip(ids, coords)] + ["$EndNodes"]
    el = []
    for n, num, ts in groups:
        for t in ts:
            el.append("%d %d %s" % ({1: 15, 2: 1, 3: 2, 4: 4}[len(t)], tags + 1, " ".join(map(str, [num, 7] + [9] * (tags - 1) + [ids[x] for x in t]))))
    o += ["$Elements", str(len(el))] + ["%d %s" % (k + 1, e) for k, e in enumerate(el)] + ["$EndElements"]
    return "\n".join(o) + "\n"


def scratch():
    import tempfile
    global _T
    if "_T" not in globals() or _T[0] != os.getpid():
        _T = (os.getpid(), tempfile.mkdtemp(prefix="vc_p11_"))
        import atexit, shutil
        p, t = _T
        atexit.register(lambda: os.getpid() == p and shutil.rmtree(t, ignore_errors=True))
    return _T[1]


MODELS = {
    "fan": (2, FAN, [("ga", FT[:2]), ("gb", FT[2:]), ("gc", RIM[:1]), ("gi", [SPK[0], SPK[2]]), ("gp", [(3,), (4,)])],
            [("A", ["ga"]), ("B", ["gb"])], [("c", "A", ["gc"]), ("p", "B", ["gp"])], [("i", "A", "B", ["gi"])]),
    "chain": (1, [(0, 0, 0), (1, 0, 0), (3, 0, 0)], [("ga", [(0, 1)]), ("gb", [(1, 2)]), ("g0", [(0,)]), ("g1", [(1,)])],
              [("A", ["ga"]), ("B", ["gb"])], [("c", "A", ["g0"])], [("i", "A", "B", ["g1"])]),
    "tet": (3, SHAPES["corner"] + [(-2, 0, 0)], [("ga", [(0, 1, 2, 3)]), ("gb", [(0, 2, 3, 4)]), ("gc", [(0, 1, 2)]), ("gi", [(0, 2, 3)])],
            [("A", ["ga"]), ("B", ["gb"])], [("c", "A", ["gc"])], [("i", "A", "B", ["gi"])]),
}


def load_file(text, regions, contacts, interfaces, dev="D"):
    f = os.path.join(scratch(), "m.msh")
    with open(f, "w") as h:
        h.write(text)
    d.create_gmsh_mesh(mesh=dev, file=f)
    gfinish(dev, regions, contacts, interfaces)


def load_python(text, regions, contacts, interfaces, dev="D"):
    """the reader of the python packages"""
    from devsim.python_packages import pythonmesh
    f = os.path.join(scratch(), "p.msh")
    with open(f, "w") as h:
        h.write(text)
    d.create_gmsh_mesh(mesh=dev, **pythonmesh.read_gmsh_file(f))
    gfinish(dev, regions, contacts, interfaces)


def do_pybad(item):
    """files with elements or groups the reader of the packages cannot convert are refused"""
    _k, model, what = item
    dim, co, gs, rg, cn, it = MODELS[model]
    text = gmshfile(co, [(n, k + 1, ts) for k, (n, ts) in enumerate(gs)])
    if what == "type":
        a, b = text.split("$Elements\n")
        text = a + "$Elements\n" + re.sub(r"(?m)^1 \d+ ", "1 3 ", b, count=1)
    elif what == "group":
        text = text.replace('%d 1 "%s"' % (dim, gs[0][0]), '%d 77 "%s"' % (dim, gs[0][0]))
    elif what == "section":
        text += "$Else\n$EndElse\n"

    @report("pybad:%s" % (vc.digest(item),), item, "pybad")
    def _():
        ctx.count(states=1)
        try:
            load_python(text, rg, cn, it)
        except Exception:
            ctx.count(rejected=1)
            return
        need(False, "a mesh file with an unsupported %s was accepted" % what)


def do_file(item):
    ctx.count(states=1)
    ctx.state("file", item)
    _k, model, idk, tags, named = item[:5]
    via = item[5] if len(item) > 5 else None
    dim, co, gs, rg, cn, it = MODELS[model]
    ids = {"plain": None, "gap": [3 * k + 2 for k in range(len(co))], "rev": [len(co) - k for k in range(len(co))]}[idk]
    nums = {"same": None}
    # named: physical numbers may repeat over dimensions; unnamed: the number is the name
    groups, alias = [], {}
    seen = {}
    for k, (n, ts) in enumerate(gs):
        dm = len(ts[0]) - 1
        if named == 1:
            seen[dm] = seen.get(dm, 0) + 1
            num = seen[dm]
            groups.append((n, num, ts))
            alias[n] = n
        else:
            num = 10 + k
            keep = named == 2 and k % 2
            groups.append((n if keep else None, num, ts))
            alias[n] = n if keep else str(num)
    m = lambda l: [x[:-1] + ([alias[g] for g in x[-1]],) for x in l]

    @report("file:%s" % (vc.digest(item),), item, "file")
    def _():
        if via:
            order = sorted(range(len(groups)), key=lambda k: (via[1] * k) % len(groups))
            load_python(gmshfile(co, [groups[k] for k in order], ids, tags), m(rg), m(cn), m(it))
        else:
            load_file(gmshfile(co, groups, ids, tags), m(rg), m(cn), m(it))
        ctx.count(accepted=1)
        verify("D", gworld(dim, co, gs, rg, cn, it))


# ------------------------------------------------------------------ C: descriptions that are wrong
def arr(model, **ch):
    dim, co, gs, rg, cn, it = MODELS[model]
    names, el = [g[0] for g in gs], []
    for k, g in enumerate(gs):
        for t in g[1]:
            el += [len(t) - 1, k] + list(t)
    a = dict(coordinates=[float(v) for c in co for v in c], physical_names=names, elements=el)
    a.update(ch)
    return a, rg, cn, it


def wrong_arrays(model):
    a, rg, cn, it = arr(model)
    el, co, pn = a["elements"], a["coordinates"], a["physical_names"]
    out = {}
    out["coords%3"] = (dict(a, coordinates=co[:-1]), rg, cn, it)
    out["fewcoords"] = (dict(a, coordinates=co[:-3]), rg, cn, it)
    out["nocoords"] = (dict(a, coordinates=[]), rg, cn, it)
    out["names-"] = (dict(a, physical_names=pn[:-1]), rg, cn, it)
    out["names+"] = (dict(a, physical_names=pn + ["unused"]), rg, cn, it)
    out["huge"] = (dict(a, elements=el[:2] + [2 ** 32 + el[2]] + el[3:]), rg, cn, it)
    out["cut"] = (dict(a, elements=el[:-1]), rg, cn, it)
    for k in range(len(el)):
        for v in (-1, 99):
            out["el%d=%d" % (k, v)] = (dict(a, elements=el[:k] + [v] + el[k + 1:]), rg, cn, it)
    z = lambda l, f: [f(x) for x in l]
    out["typo"] = (a, [(rg[0][0], ["nogroup"])] + rg[1:], [], [])
    out["typo2"] = (a, rg + [("T", ["nogroup"])], cn, it)
    out["ctypo"] = (a, rg, cn + [("t", "A", ["nogroup"])], it)
    out["cregion"] = (a, rg, cn + [("t", "Z", cn[0][2])], it)
    out["cother"] = (a, rg, [(n, "B" if r == "A" else "A", g) for n, r, g in cn], it)
    out["itypo"] = (a, rg, cn, it + [("t", "A", "B", ["nogroup"])])
    out["iregion"] = (a, rg, cn, it + [("t", "A", "Z", it[0][3])])
    out["iregion0"] = (a, rg, cn, it + [("t", "Z", "B", it[0][3])])
    out["ioff"] = (a, rg, cn, it + [("t", "A", "B", cn[0][2])])
    out["cbulk"] = (a, rg, cn + [("t", "A", rg[0][1])], it) if model != "tet" else None
    out["ibulk"] = (a, rg, cn, it + [("t", "A", "B", rg[0][1])])
    return {k: v for k, v in out.items() if v}


def do_wrong(item):
    ctx.count(states=1)
    ctx.state("wrong", item)
    _k, model, name = item
    a, rg, cn, it = wrong_arrays(model)[name]

    @report("wrong:%s:%s" % (model, name), item, "wrong")
    def _():
        def make(a=a, rg=rg, cn=cn, it=it):
            d.create_gmsh_mesh(mesh="D", **a)
            gfinish("D", rg, cn, it)
        if not refused(make):
            raise Bad("a description that cannot be meshed was accepted")
        ctx.count(refused=1)
        need(not d.get_device_list(), "a device left behind", d.get_device_list())
        if "D" in d.get_mesh_list():
            d.delete_mesh(mesh="D")
        b, rg2, cn2, it2 = arr(model)
        make(b, rg2, cn2, it2)
        dim, co, gs, *_r = MODELS[model]
        verify("D", gworld(dim, co, gs, rg2, cn2, it2), geometry=False)


def wrong_items():
    out = []
    for m in MODELS:
        for n in wrong_arrays(m):
            out.append(("wrong", m, n))
    return out


def do_damage(item):
    """a damaged file is refused, or read as what it says; the process stays sound and the good file still loads"""
    ctx.count(states=1)
    _k, model, kind, pos = item
    dim, co, gs, rg, cn, it = MODELS[model]
    text = gmshfile(co, [(n, k + 1, ts) for k, (n, ts) in enumerate(gs)])
    lines = text.split("\n")[:-1]
    must = None
    if kind == "cut":
        bad = text[:pos]
        must = pos < len(text) - 1
    elif kind == "drop":
        bad = "\n".join(lines[:pos] + lines[pos + 1:]) + "\n"
        must = True
    elif kind == "twice":
        bad = "\n".join(lines[:pos + 1] + lines[pos:]) + "\n"
        must = True
    else:
        tok = []
        for k, l in enumerate(lines):
            for j, w in enumerate(l.split(" ")):
                tok.append((k, j))
        k, j = tok[pos]
        w = lines[k].split(" ")
        w[j] = kind
        bad = "\n".join(lines[:k] + [" ".join(w)] + lines[k + 1:]) + "\n"

    def tryit():
        r = refused(lambda: load_file(bad, rg, cn, it))
        left = list(d.get_device_list())
        if not r:
            # whatever it was read as is a consistent device
            for r_ in d.get_region_list(device="D"):
                n = len(nm("D", r_, "x"))
                for t in d.get_element_node_list(device="D", region=r_):
                    need(all(0 <= x < n for x in t), "element of", r_, t)
        elif left:
            raise Bad("a device left behind")
        clean()
        load_file(text, rg, cn, it)
        verify("D", gworld(dim, co, gs, rg, cn, it), geometry=False)
        return r

    key = "damage:%s:%s:%s" % (model, kind, pos)
    try:
        st = tryit()
        if must and not st:
            ctx.violation(key, "a damaged file was accepted", {"name": "damage", "item": item})
        ctx.count(refused=int(st), accepted=int(not st))
    except Bad as e:
        ctx.violation(key, str(e), {"name": "damage", "item": item})
    except d.error as e:
        ctx.violation(key, "the good file failed afterwards: %s" % str(e)[:200], {"name": "damage", "item": item})
    finally:
        clean()


def damage_items():
    out = []
    for m in MODELS:
        dim, co, gs, *_r = MODELS[m]
        text = gmshfile(co, [(n, k + 1, ts) for k, (n, ts) in enumerate(gs)])
        lines = text.split("\n")[:-1]
        ntok = sum(len(l.split(" ")) for l in lines)
        for k in range(len(text)):
            if TH or m == "fan" or k % 3 == 0:
                out.append(("damage", m, "cut", k))
        for k in range(len(lines)):
            out.append(("damage", m, "drop", k))
            out.append(("damage", m, "twice", k))
        for w in ("", "x", "-1", "99999999999999999999", "1e400", '"', "$Nodes"):
            for k in range(ntok):
                if TH or m == "fan" or k % 2 == 0:
                    out.append(("damage", m, w, k))
    return out


# ------------------------------------------------------------------ E: interfaces and contacts on an existing device
def do_late(item):
    ctx.count(states=1)
    ctx.state("late", item)
    _k, dim, sub_, who = item
    model = {1: "chain", 2: "fan", 3: "tet"}[dim]
    dm, co, gs, rg, cn, it = MODELS[model]

    @report("late:%s" % (vc.digest(item),), item, "late")
    def _():
        gbuild("D", co, gs, rg, cn, it if who else [])
        W = gworld(dim, co, gs, rg, cn, it if who else [])
        idx = {r: sorted({n for t in W.regions[r] for n in t}) for r in W.regions}
        if who == 0:     # an interface made of nodes
            both = [n for n in idx["A"] if n in idx["B"]]
            sel = [n for k, n in enumerate(both) if (sub_ >> k) & 1]
            if not sel:
                need(refused(lambda: d.create_interface_from_nodes(device="D", name="j", region0="A", region1="B", nodes0=[], nodes1=[])), "empty interface")
                return
            if sub_ % 2:
                nm("D", "A", "SurfaceArea")     # evaluated before
            d.create_interface_from_nodes(device="D", name="j", region0="A", region1="B", nodes0=[idx["A"].index(n) for n in sel], nodes1=[idx["B"].index(n) for n in sel])
            W.interfaces["j"] = ("A", "B", sel, None)
            verify("D", W)
            for ch in (dict(), dict(name="k", nodes0=[0, 1]), dict(name="k", nodes0=[99]), dict(name="k", region1="Z"), dict(name="k", device="Z"), dict(name="")):
                q = dict(device="D", name="j", region0="A", region1="B", nodes0=[idx["A"].index(sel[0])], nodes1=[idx["B"].index(sel[0])])
                q.update(ch)
                need(refused(lambda: d.create_interface_from_nodes(**q)), "accepted", sorted(ch))
            verify("D", W, geometry=False)
        else:
            r = "AB"[who - 1]
            if sub_:
                nm("D", r, "ContactSurfaceArea")
                nm("D", r, "AtContactNode")
            d.create_contact_from_interface(device="D", name="j", material="metal", region=r, interface="i")
            W.contacts["j"] = (r, W.interfaces["i"][2], W.ifaces("i", who - 1) if dim > 1 else None)
            verify("D", W)
            for ch in (dict(), dict(name="k", region="Z"), dict(name="k", interface="Z"), dict(name="k", device="Z"), dict(name="c")):
                q = dict(device="D", name="j", material="metal", region=r, interface="i")
                q.update(ch)
                need(refused(lambda: d.create_contact_from_interface(**q)), "accepted", sorted(ch))
            verify("D", W, geometry=False)


def late_items():
    out = []
    for dim in (1, 2, 3):
        for s in range(8):
            out.append(("late", dim, s, 0))
        for s in (0, 1):
            for w in (1, 2):
                out.append(("late", dim, s, w))
    return out


ctx.run(spacing_items(), do_spacing, name="spacing", timeout=60, setup=vc.quiet)
ctx.run(struct_items(), do_struct, name="struct", timeout=60, setup=vc.quiet)
ctx.run([("b", n) for n in list(BAD1D) + list(STALL)], do_bad1, name="bad1", timeout=20, setup=vc.quiet)
ctx.run(items_2d(), do_2d, name="2d", timeout=60, setup=vc.quiet)
ctx.run([("b", n) for n in list(BAD2D) + list(FIN2D) + ["nanbox", "sameregion"]], do_bad2, name="bad2", timeout=20, setup=vc.quiet)
ctx.run(chain_items(), do_chain, name="chain", timeout=60, setup=vc.quiet)
ctx.run(fan_items(), do_fan, name="fan", timeout=60, setup=vc.quiet)
ctx.run(tet_items(), do_tet, name="tet", timeout=60, setup=vc.quiet)
ctx.run([("file", m, i, t, n) for m in MODELS for i in ("plain", "gap", "rev") for t in (1, 2, 3) for n in (0, 1, 2)], do_file, name="file", timeout=60, setup=vc.quiet)
ctx.run([("file", m, i, t, 1, ("py", k)) for m in MODELS for i in ("plain", "gap", "rev") for t in (1, 2, 3) for k in (1, -1)], do_file, name="pyfile", timeout=60, setup=vc.quiet)
ctx.run([("pybad", m, w) for m in MODELS for w in ("type", "group", "section")], do_pybad, name="pybad", timeout=60, setup=vc.quiet)
ctx.run(wrong_items(), do_wrong, name="wrong", timeout=20, setup=vc.quiet)
ctx.run(damage_items(), do_damage, name="damage", timeout=20, setup=vc.quiet)
ctx.run(late_items(), do_late, name="late", timeout=20, setup=vc.quiet)
s = ctx.stats
ctx.finish(states=s.get("states", 0), transitions=s.get("transitions", 0), traces=s.get("accepted", 0) + s.get("refused", 0),
           rule="all 1D line spacings of a lattice; all 1D structures of up to 3 segments over 4 tagged lines, and each without one of its parts; 2D arrangements of up to 3 named boxes on 4 grids "
                "with contacts and interfaces; all chains of up to 4 points, all assignments of a fan of 4 triangles and of a cube of 6 tetrahedra to regions, in every numbering of the fan; "
                "every single damage of small mesh files; interfaces and contacts added later. States: descriptions; transitions: comparisons of the device with the reference; traces: meshes built or refused")
