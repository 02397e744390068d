"""Small devices built through the public interface."""
import devsim as d

MESH = {}


def gmsh(dev, coords, regions, contacts=(), interfaces=(), materials=None):
    """regions: {name: [node index tuples]}, contacts: {name: (region, [tuples])}, interfaces: {name: (r0, r1, [tuples])}"""
    names, el = [], []

    def add(n, tuples):
        i = len(names)
        names.append(n)
        for t in tuples:
            el.extend([len(t) - 1, i] + list(t))
    co = []
    full = [tuple(list(map(float, c)) + [0.0] * (3 - len(c))) for c in coords]
    MESH[dev] = {"contacts": {c: {full[i] for t in contacts[c][1] for i in t} for c in contacts} if contacts else {},
                 "interfaces": {c: {full[i] for t in interfaces[c][2] for i in t} for c in interfaces} if interfaces else {},
                 "regions": {r: {full[i] for t in regions[r] for i in t} for r in regions}}
    for c in coords:
        c = list(c) + [0.0] * (3 - len(c))
        co.extend(float(x) for x in c)
    for r in regions:
        add("g_" + r, regions[r])
    for c in contacts:
        add("gc_" + c, contacts[c][1])
    for i in interfaces:
        add("gi_" + i, interfaces[i][2])
    d.create_gmsh_mesh(mesh=dev, coordinates=co, physical_names=names, elements=el)
    for r in regions:
        d.add_gmsh_region(mesh=dev, gmsh_name="g_" + r, region=r, material=(materials or {}).get(r, "Si"))
    for c in contacts:
        d.add_gmsh_contact(mesh=dev, gmsh_name="gc_" + c, region=contacts[c][0], name=c, material="metal")
    for i in interfaces:
        d.add_gmsh_interface(mesh=dev, gmsh_name="gi_" + i, region0=interfaces[i][0], region1=interfaces[i][1], name=i)
    d.finalize_mesh(mesh=dev)
    d.create_device(mesh=dev, device=dev)


def line(dev="D", xs=(0.0, 1.0, 3.0), contacts=True):
    n = len(xs)
    gmsh(dev, [(x,) for x in xs], {"R": [(i, i + 1) for i in range(n - 1)]},
         {"c0": ("R", [(0,)]), "c1": ("R", [(n - 1,)])} if contacts else {})


def line2(dev="D", xs=(0.0, 1.0, 3.0, 4.0, 6.0), mid=2):
    n = len(xs)
    gmsh(dev, [(x,) for x in xs], {"R0": [(i, i + 1) for i in range(mid)], "R1": [(i, i + 1) for i in range(mid, n - 1)]},
         {"c0": ("R0", [(0,)]), "c1": ("R1", [(n - 1,)])}, {"i0": ("R0", "R1", [(mid,)])})


# 2D: two stacked regions of two and three acute triangles, irregular
C2 = [(0., 0.), (4., 0.), (0., 3.), (4.5, 3.5), (-0.5, 6.), (2.5, 7.), (5., 6.5)]
T2A = [(0, 1, 2), (1, 3, 2)]
T2B = [(2, 3, 5), (2, 5, 4), (3, 6, 5)]


def tri(dev="D"):
    """one 2D region of two triangles, contacts on opposite sides and one that shares a node"""
    gmsh(dev, C2[:4], {"R": T2A}, {"c0": ("R", [(0, 1)]), "c1": ("R", [(2, 3)])})


def tri2(dev="D"):
    gmsh(dev, C2, {"R0": T2A, "R1": T2B}, {"c0": ("R0", [(0, 1)]), "c1": ("R1", [(4, 5), (5, 6)])}, {"i0": ("R0", "R1", [(2, 3)])})


# 3D: a cube cut in 6 tetrahedra around a diagonal, slightly stretched; and a second one on top of it
def cube(z0, z1, base):
    return [(x, y, z) for z in (z0, z1) for y in (0., 1.5) for x in (0., 1.)]


C3 = [(x, y, z) for z in (0., 1., 2.2) for y in (0., 1.5) for x in (0., 1.)]


def _kuhn(o):
    # nodes of a box: o + (x + 2y + 4z)
    import itertools
    t = []
    for p in itertools.permutations((1, 2, 4)):
        a = 0
        l = [o]
        for s in p:
            a += s
            l.append(o + a)
        t.append(tuple(l))
    return t


T3A = _kuhn(0)
T3B = _kuhn(4)


def _faces(tets, nodes):
    import itertools
    f = set()
    for t in tets:
        for c in itertools.combinations(t, 3):
            if set(c) <= set(nodes):
                f.add(tuple(sorted(c)))
    return sorted(f)


def tet(dev="D"):
    gmsh(dev, C3[:8], {"R": T3A}, {"c0": ("R", _faces(T3A, (0, 1, 2, 3))), "c1": ("R", _faces(T3A, (4, 5, 6, 7)))})


def tet2(dev="D"):
    gmsh(dev, C3, {"R0": T3A, "R1": T3B}, {"c0": ("R0", _faces(T3A, (0, 1, 2, 3))), "c1": ("R1", _faces(T3B, (8, 9, 10, 11)))},
         {"i0": ("R0", "R1", _faces(T3A, (4, 5, 6, 7)))})


def tet1(dev="D"):
    gmsh(dev, [(0., 0., 0.), (1., 0., 0.), (0.1, 1.2, 0.), (0.2, 0.3, 1.1)], {"R": [(0, 1, 2, 3)]},
         {"c0": ("R", [(0, 1, 2)]), "c1": ("R", [(3,)])})
