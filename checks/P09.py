#!/usr/bin/env python3
"""P09: the sparse matrix, the direct solver's session and the user-supplied solver.

matrix    every sequence of entries, clears and finalizations up to a depth on a 2x2 and a 3x3 matrix, compressed
          by column and by row, real and complex, double and extended, against a dense matrix: entries, structure,
          the claim that the structure is the same, all products (harness p09matrix, bounds and lifetimes checked)
session   every sequence of entries, clears and solves up to a depth with the real preconditioner and a monitored
          factorization library, and again with a failure at every call of every phase
system    every world x kind of solve x precision x format: each system the user's solver (or the library) is given
          equals the matrices and right hand side assembled at that moment, row for row, and "is_same_symbolic" is
          only said of the structure given before
answer    every kind of solve: the answer is used as it is, in each position
fault     every call of the user's solver x every wrong answer: reported, and the next solve is a healthy one
library   every sequence of solves up to a depth x a failure at every call of every phase: protocol and release
iterative the iterative solver solves the same systems or says that it does not
chain     two coupled linear unknowns on chains of all lengths and couplings: the iterative solver gives the direct answer
"""
import array, itertools, math, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc
vc.prepare(("module", "mathlib", "p09matrix"))
ctx = vc.Ctx("P09", assumptions=[
    "the factorization library is a dense LU with monitoring of the calling protocol; the vendor library is not present",
    "histories of one matrix use one preconditioner and end at the first failure, as the callers do",
])
d = vc.load_devsim()
import dev as devs


class Stats:
    def __getitem__(self, k): return ctx.stats.get(k, 0)
    def __setitem__(self, k, v): ctx.stats[k] = v


s = Stats()


def bad(key, what):
    ctx.violation(" ".join("%s=%s" % (k, v) for k, v in key.items() if v not in (None, False)), what)


VM = vc.Vmath()

# ---------------------------------------------------------------- harness
NP = 8


def harness(it):
    mode, depth, part = it
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
    r = subprocess.run([vc.BUILD + "/p09matrix", mode, str(depth), str(NP), str(part)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    out, err = r.stdout, r.stderr
    done = False
    for l in out.splitlines():
        if l.startswith("BAD "):
            ops, _, what = l[4:].partition(" :: ")
            bad({"harness": mode, "operations": ops}, what)
        elif l.startswith("SUMMARY "):
            done = True
            v = dict(x.split("=") for x in l.split()[1:])
            s[mode + " sequences"] += int(v["sequences"])
            s["transitions"] += int(v["transitions"])
            s[mode + " states checked"] += int(v["checked"])
    if not done and "BAD " not in out:
        bad({"harness": mode, "part": part}, "the harness ended: " + (err.strip().splitlines() or ["?"])[-1][:200])


# ---------------------------------------------------------------- worlds
def base():
    VM.reset()
    d.reset_devsim()


def flux(dev, r, v, k=1.0, name="f"):
    kw = dict(device=dev, region=r)
    d.edge_from_node_model(node_model=v, **kw)
    d.edge_model(name=name + v, equation="%r*(%s@n0-%s@n1)*EdgeInverseLength" % (k, v, v), **kw)
    d.edge_model(name="%s%s:%s@n0" % (name, v, v), equation="%r*EdgeInverseLength" % k, **kw)
    d.edge_model(name="%s%s:%s@n1" % (name, v, v), equation="-%r*EdgeInverseLength" % k, **kw)


def source(dev, r, name, eq, der):
    d.node_model(device=dev, region=r, name=name, equation=eq)
    for v, e in der.items():
        d.node_model(device=dev, region=r, name=name + ":" + v, equation=e)


def dirichlet(dev, c, eqn, v, val, cur=None, charge=None, node=None):
    n = "%s%s" % (c, v)
    d.contact_node_model(device=dev, contact=c, name=n, equation="%s-%s" % (v, node or repr(val)))
    d.contact_node_model(device=dev, contact=c, name=n + ":" + v, equation="1")
    kw = {}
    if node:
        d.contact_node_model(device=dev, contact=c, name=n + ":" + node, equation="-1")
        kw["circuit_node"] = node
    if cur: kw["edge_current_model"] = cur
    if charge: kw["node_charge_model"] = charge
    d.contact_equation(device=dev, contact=c, name=eqn, node_model=n, **kw)


def scalar():
    """one unknown; entries that vanish at the start (u = 0) and appear later"""
    devs.line("D", (0.0, 1.0, 3.0, 4.5))
    d.node_solution(device="D", region="R", name="u")
    flux("D", "R", "u")
    source("D", "R", "r", "u^3+0.5*u-1", {"u": "3*u^2+0.5"})
    source("D", "R", "q", "u^2+u", {"u": "2*u+1"})
    d.equation(device="D", region="R", name="E", variable_name="u", node_model="r", edge_model="fu", time_node_model="q")
    dirichlet("D", "c0", "E", "u", 0.5, "fu", "q")


def pair():
    """two unknowns, coupled by a product whose derivatives are zero at the start, and no contact"""
    devs.line("D", (0.0, 1.0, 3.0))
    for v in "uw":
        d.node_solution(device="D", region="R", name=v)
        flux("D", "R", v, 1.0 if v == "u" else 2.0)
    source("D", "R", "ru", "u+u*w-0.5", {"u": "1+w", "w": "u"})
    source("D", "R", "rw", "w-u*w-0.25*u^2-1", {"w": "1-u", "u": "-w-0.5*u"})
    source("D", "R", "qw", "w+u^2", {"w": "1", "u": "2*u"})
    d.equation(device="D", region="R", name="E", variable_name="u", node_model="ru", edge_model="fu")
    d.equation(device="D", region="R", name="F", variable_name="w", node_model="rw", edge_model="fw", time_node_model="qw")


def coupled():
    """two devices, a circuit, contacts on circuit nodes"""
    d.circuit_element(name="V1", n1="a", n2="0", value=1.5, acreal=1.0, acimag=0.5)
    d.circuit_element(name="R1", n1="a", n2="b", value=0.5)
    d.circuit_element(name="C1", n1="b", n2="0", value=0.75)
    d.circuit_element(name="L1", n1="b", n2="l", value=0.25)
    d.circuit_element(name="R2", n1="l", n2="0", value=2.0)
    scalar()
    d.delete_contact_equation(device="D", contact="c0", name="E")
    d.delete_node_model(device="D", region="R", name="c0u")
    dirichlet("D", "c0", "E", "u", None, "fu", "q", node="b")
    dirichlet("D", "c1", "E", "u", 0.25, "fu", "q")
    devs.line("B", (0.0, 2.0))
    d.node_solution(device="B", region="R", name="v")
    flux("B", "R", "v")
    source("B", "R", "rv", "v^3+v-1", {"v": "3*v^2+1"})
    d.equation(device="B", region="R", name="E", variable_name="v", node_model="rv", edge_model="fv", time_node_model="rv")
    dirichlet("B", "c0", "E", "v", None, "fv", None, node="l")


def iface():
    """two regions joined at an interface"""
    devs.tri2("D")
    for r in ("R0", "R1"):
        d.node_solution(device="D", region=r, name="u")
        flux("D", r, "u", 1.0 if r == "R0" else 3.0)
        source("D", r, "r", "u^2-0.5", {"u": "2*u"})
        source("D", r, "q", "u", {"u": "1"})
        d.equation(device="D", region=r, name="E", variable_name="u", node_model="r", edge_model="fu", time_node_model="q")
    d.interface_model(device="D", interface="i0", name="j", equation="u@r0-u@r1")
    d.interface_model(device="D", interface="i0", name="j:u@r0", equation="1")
    d.interface_model(device="D", interface="i0", name="j:u@r1", equation="-1")
    d.interface_equation(device="D", interface="i0", name="E", interface_model="j", type="continuous")
    dirichlet("D", "c0", "E", "u", 0.5, "fu", "q")
    dirichlet("D", "c1", "E", "u", 1.5, "fu", "q")


def charge():
    """positions that only the static part has, and positions that only the time derivatives have"""
    devs.line("D", (0.0, 1.0, 3.0))
    for v in "uw":
        d.node_solution(device="D", region="R", name=v)
    source("D", "R", "ru", "u-0.5*w-1", {"u": "1", "w": "-0.5"})
    source("D", "R", "qu", "u+0.25*u^2", {"u": "1+0.5*u"})
    source("D", "R", "rw", "w+w^3-1", {"w": "1+3*w^2"})
    source("D", "R", "qw", "w*u+u", {"w": "u", "u": "w+1"})
    d.equation(device="D", region="R", name="E", variable_name="u", node_model="ru", time_node_model="qu")
    d.equation(device="D", region="R", name="F", variable_name="w", node_model="rw", time_node_model="qw")


def network():
    """a circuit alone next to a device"""
    pair()
    d.circuit_element(name="I1", n1="0", n2="a", value=1.0)
    d.circuit_element(name="R1", n1="a", n2="0", value=2.0)
    d.circuit_element(name="C1", n1="a", n2="0", value=0.5)


WORLDS = {f.__name__: f for f in (scalar, pair, coupled, iface, charge, network)}
CIRC = ("coupled", "network")
TYPES = {
    "dc": dict(type="dc"),
    "transient_dc": dict(type="transient_dc"),
    "be": dict(type="transient_bdf1", tdelta=0.25),
    "tr": dict(type="transient_tr", tdelta=0.25),
    "b2": dict(type="transient_bdf2", tdelta=0.5, gamma=0.5),
    "ac": dict(type="ac", frequency=0.5),
    "noise": dict(type="noise", frequency=0.5),
}
OUT = {"coupled": "b", "network": "a"}
TOL = dict(absolute_error=1e30, relative_error=1e-9, maximum_iterations=30)
BIG = dict(charge_error=1e30)     # whether a step is accepted belongs to P06 and P07


def world(name, ext=False):
    base()
    if ext:
        for n in ("extended_model", "extended_equation", "extended_solver"):
            d.set_parameter(name=n, value=True)
    WORLDS[name]()


def types(name):
    return [t for t in TYPES if not (name not in CIRC and t == "noise")]


def solve(name, t, **kw):
    a = dict(TYPES[t])
    if t == "noise":
        a["output_node"] = OUT[name]
    if t in ("ac", "noise"):
        for k in ("absolute_error", "relative_error", "maximum_iterations"):
            kw.pop(k, None)
    else:
        a["info"] = True
        for k, v in TOL.items():
            kw.setdefault(k, v)
        if "tdelta" in a:
            a.update(BIG)
    a.update(kw)
    return d.solve(**a)


def unknowns():
    """row -> (kind, place) of every unknown"""
    r = {}
    try:
        dev = d.get_device_list()[0]
        reg = d.get_region_list(device=dev)[0]
        d.get_equation_numbers(device=dev, region=reg, equation=d.get_equation_list(device=dev, region=reg)[0])
    except d.error:
        # rows are numbered by the first assembly
        d.get_matrix_and_rhs(format="csc")
    for dev in d.get_device_list():
        for reg in d.get_region_list(device=dev):
            try:
                eqs = d.get_equation_list(device=dev, region=reg)
            except d.error:
                continue
            for e in eqs:
                v = d.get_equation_command(device=dev, region=reg, name=e)["variable_name"]
                for i, row in enumerate(d.get_equation_numbers(device=dev, region=reg, equation=e)):
                    r[row] = (dev, reg, v, i)
    for n in d.get_circuit_node_list():
        try:
            row = d.get_circuit_equation_number(node=n)
        except d.error:
            continue
        if row >= 0:
            r[row] = (n,)
    return r


def get(u, prefix=""):
    if len(u) == 1:
        return d.get_circuit_node_value(node=u[0], solution="dcop") if "dcop" in d.get_circuit_solution_list() else 0.0
    return d.get_node_model_values(device=u[0], region=u[1], name=u[2])[u[3]]


def state():
    m = unknowns()
    return {k: get(u) for k, u in m.items()}


# ---------------------------------------------------------------- a user's solver
def lusolve(n, A, b):
    """A: {(r, c): v}"""
    M = [[A.get((r, c), 0.0) for c in range(n)] + [b[r]] for r in range(n)]
    for j in range(n):
        p = max(range(j, n), key=lambda i: abs(M[i][j]))
        if abs(M[p][j]) == 0.0:
            raise ZeroDivisionError("singular")
        M[j], M[p] = M[p], M[j]
        for i in range(j + 1, n):
            f = M[i][j] / M[j][j]
            if f:
                for k in range(j, n + 1):
                    M[i][k] -= f * M[j][k]
    x = [0.0] * n
    for j in reversed(range(n)):
        x[j] = (M[j][n] - sum(M[j][k] * x[k] for k in range(j + 1, n))) / M[j][j]
    return x


def raw(x, cplx):
    """complex answers are given as doubles: real part, imaginary part, and so on"""
    if not cplx:
        return x
    r = array.array("d", [0.0]) * (2 * len(x))
    for i, v in enumerate(x):
        r[2 * i], r[2 * i + 1] = complex(v).real, complex(v).imag
    return r


class User:
    """the solver a user would write; keeps what it is given"""
    def __init__(self, fmt, watch=None, script=None, wrong=None):
        self.fmt, self.watch, self.script, self.wrong = fmt, watch, script, wrong
        self.calls, self.systems, self.seen, self.bad = [], [], {}, []
        self.count = {"init": 0, "factor": 0, "solve": 0}
        self.injected = False

    def __call__(self, **kw):
        a = kw.get("action")
        k = self.count[a]
        self.count[a] += 1
        if self.wrong and self.wrong[:2] == (a, k):
            self.injected = True
            return self.answer_wrong(self.wrong[2], kw)
        return getattr(self, a)(kw)

    def init(self, kw):
        if set(kw) != {"action", "transpose", "n"}: self.bad.append("init is given %s" % sorted(kw))
        self.n, self.t = kw["n"], kw["transpose"]
        self.last = None
        return {"matrix_format": self.fmt, "solver_object": ("session", self.count["init"]), "status": True, "message": ""}

    def factor(self, kw):
        if kw["solver_object"] != ("session", self.count["init"]): self.bad.append("factor is given another solver object")
        ap, ai, ax = list(kw["Ap"]), list(kw["Ai"]), list(kw["Ax"])
        cplx = kw["is_complex"]
        if cplx:
            if len(ax) != 2 * len(ai): self.bad.append("complex entries: %d values for %d positions" % (len(ax), len(ai)))
            ax = [complex(ax[2 * i], ax[2 * i + 1]) for i in range(len(ax) // 2)]
        if len(ap) != self.n + 1 or ap[0] != 0 or ap[-1] != len(ai) or len(ax) != len(ai) or any(x > y for x, y in zip(ap, ap[1:])):
            self.bad.append("the pointers are not those of the matrix")
        if kw["is_same_symbolic"] and self.last != (ap, ai):
            self.bad.append("is_same_symbolic is said of another structure" if self.last else "is_same_symbolic is said of the first structure")
        self.last = (ap, ai)
        A = {}
        for i in range(self.n):
            for p in range(ap[i], ap[i + 1]):
                k = (ai[p], i) if self.fmt == "csc" else (i, ai[p])
                if k in A or not 0 <= ai[p] < self.n: self.bad.append("position %s is given twice or is out of range" % (k,))
                A[k] = ax[p]
        self.A, self.cplx = A, cplx
        self.systems.append([A, None, self.watch() if self.watch else None, cplx, self.t])
        return {"status": True, "message": ""}

    def solve(self, kw):
        if kw["solver_object"] != ("session", self.count["init"]): self.bad.append("solve is given another solver object")
        if kw["is_complex"] != self.cplx: self.bad.append("solve is complex where factor was not, or the reverse")
        b = list(kw["b"])
        if kw["is_complex"]:
            if all(isinstance(x, complex) for x in b):
                pass
            else:
                b = [complex(b[2 * i], b[2 * i + 1]) for i in range(len(b) // 2)]
        if len(b) != self.n: self.bad.append("the right hand side has length %d of %d" % (len(b), self.n))
        self.systems[-1][1] = b
        if self.script:
            return {"status": True, "message": "", "x": raw(self.script(self.n, self.cplx, len(self.systems) - 1), self.cplx)}
        A = {(c, r): v for (r, c), v in self.A.items()} if self.t else self.A
        return {"status": True, "message": "", "x": raw(lusolve(self.n, A, b), self.cplx)}

    def answer_wrong(self, how, kw):
        a = kw["action"]
        if how == "raise": raise ValueError("told to")
        if how == "none": return None
        if how == "text": return "wrong"
        if how == "list": return [1, 2]
        if how == "empty": return {}
        r = getattr(self, a)(kw)
        if how == "false": r.update(status=False, message="told to fail")
        elif how.startswith("without "): r.pop(how[8:])
        elif how == "nonestatus": r["status"] = None
        elif how == "short": r["x"] = r["x"][:-1]
        elif how == "long": r["x"] = list(r["x"]) + [0.0]
        elif how == "strings": r["x"] = ["a"] * self.n
        elif how == "scalar": r["x"] = 1.0
        elif how == "nonex": r["x"] = None
        elif how == "complex": r["x"] = [complex(v, 1.0) for v in r["x"]]
        elif how == "none in x": r["x"] = [None] * self.n
        elif how == "format": r["matrix_format"] = "coo"
        else: raise AssertionError(how)
        return r


def custom(u):
    d.set_parameter(name="direct_solver", value="custom")
    d.set_parameter(name="solver_callback", value=u)


def library():
    for n in ("direct_solver", "solver_callback"):
        try: d.set_parameter(name=n, value="mkl_pardiso" if n == "direct_solver" else "")
        except d.error: pass


def assembled():
    """the static and dynamic systems at this moment, as sparse dictionaries"""
    m = d.get_matrix_and_rhs(format="csc")
    r = {}
    for k in ("static", "dynamic"):
        e = m[k]
        ap, ai, av = list(e["ap"]), list(e["ai"]), list(e["av"])
        A = {}
        for c in range(len(ap) - 1):
            for p in range(ap[c], ap[c + 1]):
                A[(ai[p], c)] = av[p]
        r[k] = (A, list(e["rhs"]))
    return r


def close(x, y, tol=1e-12):
    return x == y or abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-15


def weights(t, it):
    """factors of the static and the dynamic system in the matrix"""
    h = TYPES[t].get("tdelta")
    if t in ("dc", "transient_dc"): return 1.0, 0.0
    if t == "be": return 1.0, 1.0 / h
    if t == "tr": return 1.0, 2.0 / h
    if t == "b2":
        g = 0.5
        return 1.0, (2.0 - g) / (h * (1.0 - g))
    return 1.0, 2j * math.pi * TYPES[t]["frequency"]


def compare(key, t, systems, exact_rhs):
    for k, (A, b, w, cplx, tr) in enumerate(systems):
        if w is None:
            continue
        ws, wd = weights(t, k)
        S, D = w["static"][0], w["dynamic"][0]
        for p in sorted(set(A) | set(S) | set(D)):
            want = ws * S.get(p, 0.0) + wd * D.get(p, 0.0)
            s["entries compared"] += 1
            if not close(A.get(p, 0.0), want):
                bad(key, "system %d: entry %s is %r, assembled %r" % (k, p, A.get(p, 0.0), want))
                return
        if exact_rhs and b is not None:
            for i, (x, y) in enumerate(zip(b, w["static"][1])):
                s["entries compared"] += 1
                if not close(x, y):
                    bad(key, "system %d: right hand side %d is %r, assembled %r" % (k, i, x, y))
                    return


HIST = {"dc": (), "transient_dc": (), "be": ("transient_dc",), "tr": ("transient_dc",), "b2": ("transient_dc", "be"), "ac": ("dc",), "noise": ("dc",)}


def history(name, t):
    """what is solved before, with the default library"""
    for h in HIST[t]:
        r = solve(name, h)
        if isinstance(r, dict) and not r["converged"]:
            bad({"world": name, "history": h}, "the reference history does not converge")
            return False
    return True


def system_one(it):
    name, t, ext, fmt = it
    key = {"world": name, "solve": t, "extended": ext, "solver": fmt}
    world(name, ext)
    s["systems worlds"] += 1
    if not history(name, t):
        return
    before = assembled()
    u = None
    if fmt == "library":
        # the library keeps the last system only: stop after the first one
        try:
            if t in ("ac", "noise"): solve(name, t)
            else: solve(name, t, maximum_iterations=1, relative_error=1e30, maximum_error=1e30)
        except d.error as e:
            bad(key, "the solve fails: %s" % str(e)[:100])
            return
        n = VM.l.vmath_last_n()
        import ctypes
        ar, ai = (ctypes.c_double * (n * n))(), (ctypes.c_double * (n * n))()
        br, bi = (ctypes.c_double * n)(), (ctypes.c_double * n)()
        VM.l.vmath_last(ar, ai, br, bi)
        cplx = t in ("ac", "noise")
        A = {}
        for c in range(n):
            for r_ in range(n):
                v = complex(ar[r_ + c * n], ai[r_ + c * n]) if cplx else ar[r_ + c * n]
                if v != 0: A[(r_, c)] = v
        b = [complex(x, y) if cplx else x for x, y in zip(br, bi)]
        systems = [[A, b, before, cplx, False]]
        if VM.counts()["fault"]:
            bad(key, "library: " + VM.fault())
    else:
        watch = assembled
        u = User(fmt, watch=watch)
        custom(u)
        try:
            r = solve(name, t)
        except d.error as e:
            bad(key, "the solve fails: %s" % str(e)[:150])
            return
        if isinstance(r, dict) and not r["converged"]:
            bad(key, "the solve does not converge")
            return
        systems = u.systems
        for b in sorted(set(u.bad)):
            bad(key, b)
        if u.t != (t == "noise"):
            bad(key, "transpose is %s" % u.t)
        if any(x[3] != (t in ("ac", "noise")) for x in systems):
            bad(key, "is_complex is wrong")
    s["systems"] += len(systems)
    s["transitions"] += len(systems)
    compare(key, t, systems, t in ("dc", "transient_dc"))
    if t == "noise":
        row = d.get_circuit_equation_number(node=OUT[name])
        for x in systems:
            if x[1] != [complex(i == row) for i in range(len(x[1]))]:
                bad(key, "the right hand side of the noise system is %s" % (x[1],))
    if u and t not in ("ac", "noise"):
        # the state reached is the one the default library reaches
        got = state()
        world(name, ext)
        history(name, t)
        library()
        solve(name, t)
        want = state()
        for k in want:
            if not close(got.get(k, 1e99), want[k], 1e-7):
                bad(key, "unknown %d ends at %r with the user's solver and %r with the library" % (k, got.get(k), want[k]))
                break


# ---------------------------------------------------------------- answers
def pattern(kind, n, cplx, k):
    if kind == "ramp": v = [0.125 * (i + 1) * (1 if k % 2 == 0 else -0.5) for i in range(n)]
    elif kind == "zero": v = [0.0] * n
    elif kind == "ints": v = [i + 1 for i in range(n)]
    elif kind == "tiny": v = [1e-30 * (i + 1) for i in range(n)]
    elif kind == "tuple": v = tuple(-0.25 * (i + 2) for i in range(n))
    else:
        v = array.array("d", [0.5 * (i + 1) for i in range(n)])
    if cplx:
        v = [complex(x, 3 * i - 0.5 * x) for i, x in enumerate(v)]
    return v


def answer_one(it):
    name, t, ext, fmt, kind = it
    key = {"world": name, "solve": t, "extended": ext, "format": fmt, "answer": kind}
    world(name, ext)
    if not history(name, t):
        return
    u = User(fmt, script=lambda n, c, k: pattern(kind, n, c, k))
    custom(u)
    before = state()
    s["answers"] += 1
    s["transitions"] += 1
    try:
        r = solve(name, t, absolute_error=1e99, relative_error=1e99, maximum_error=1e99, maximum_iterations=3)
    except d.error as e:
        bad(key, "the answer is refused: %s" % str(e)[:100])
        return
    if t in ("ac", "noise"):
        x = pattern(kind, u.n, True, 0)
        m = unknowns()
        if t == "ac":
            for row, w in m.items():
                if len(w) == 1:
                    g = complex(d.get_circuit_node_value(node=w[0], solution="ssac_real"), d.get_circuit_node_value(node=w[0], solution="ssac_imag"))
                    if not close(g, x[row]): bad(key, "circuit node %s is %r, the answer %r" % (w[0], g, x[row])); return
                else:
                    g = complex(d.get_node_model_values(device=w[0], region=w[1], name="ssac_%s_real" % w[2])[w[3]] if ("ssac_%s_real" % w[2]) in d.get_node_model_list(device=w[0], region=w[1]) else x[row].real,
                                d.get_node_model_values(device=w[0], region=w[1], name="ssac_%s_imag" % w[2])[w[3]] if ("ssac_%s_imag" % w[2]) in d.get_node_model_list(device=w[0], region=w[1]) else x[row].imag)
                    if not close(g, x[row]): bad(key, "%s is %r, the answer %r" % (w, g, x[row])); return
        else:
            o = OUT[name]
            for row, w in m.items():
                if len(w) == 1:
                    g = complex(d.get_circuit_node_value(node=w[0], solution="noise_%s_real" % o), d.get_circuit_node_value(node=w[0], solution="noise_%s_imag" % o))
                    if not close(g, x[row]): bad(key, "circuit node %s is %r, the answer %r" % (w[0], g, x[row])); return
        if state() != before:
            bad(key, "the operating point changed")
        return
    n = len(u.systems)
    after = state()
    for row in after:
        want = before.get(row, 0.0)
        for k in range(n):
            want += pattern(kind, u.n, False, k)[row]
        if not close(after[row], want, 1e-13):
            bad(key, "unknown %d is %r after the answers, %r before with them added" % (row, after[row], want))
            return


# ---------------------------------------------------------------- wrong answers
WRONG = {
    "init": ("raise", "none", "text", "list", "empty", "false", "without status", "without matrix_format", "without solver_object", "nonestatus", "format"),
    "factor": ("raise", "none", "text", "list", "empty", "false", "without status", "nonestatus"),
    "solve": ("raise", "none", "text", "list", "empty", "false", "without status", "without x", "nonestatus", "short", "long", "strings", "scalar", "nonex", "none in x"),
}


def fault_one(it):
    name, t, ext, wrong = it
    key = {"world": name, "solve": t, "extended": ext, "call": wrong[0], "number": wrong[1], "answer": wrong[2]}
    world(name, ext)
    if not history(name, t):
        return
    u = User("csc" if wrong[1] % 2 == 0 else "csr", wrong=wrong)
    custom(u)
    before = state()
    s["faults"] += 1
    s["transitions"] += 1
    reported = False
    try:
        r = solve(name, t)
        reported = isinstance(r, dict) and r["converged"] is False
    except d.error:
        reported = True
    except ValueError as e:
        reported = "told to" in str(e)
    if not u.injected:
        s["faults not reached"] += 1
        return
    if not reported:
        bad(key, "the solve does not report the failure of the user's solver")
        return
    if state() != before:
        bad(key, "the failed solve changed the values")
        return
    # a healthy solver afterwards
    u = User("csr")
    custom(u)
    try:
        r = solve(name, t)
        ok = not isinstance(r, dict) or r["converged"]
    except d.error as e:
        ok = False
    if not ok:
        bad(key, "the next solve fails with a healthy solver")
        return
    for b in sorted(set(u.bad)):
        bad(key, "after the failure: " + b)
    got = state()
    want = control(name, t, ext)
    if any(not close(got.get(k, 1e99), want[k], 1e-7) for k in want):
        bad(key, "the next solve ends elsewhere")


_control = {}


def control(name, t, ext):
    k = (name, t, ext)
    if k not in _control:
        world(name, ext)
        history(name, t)
        custom(User("csr"))
        solve(name, t)
        _control[k] = state()
    return _control[k]


# ---------------------------------------------------------------- the library's protocol over histories
PHASE = ("symbolic", "numeric", "solve")


def library_one(it):
    name, seq, ext, fault = it
    key = {"world": name, "solves": list(seq), "extended": ext, "fault": list(fault) if fault else None}
    world(name, ext)
    s["library histories"] += 1
    if fault:
        {"symbolic": VM.symfail_at, "numeric": VM.fail_at, "solve": VM.solvefail_at}[fault[0]](fault[1])
    for t in seq:
        before = VM.counts()
        s["transitions"] += 1
        failed = False
        try:
            r = solve(name, t)
            failed = isinstance(r, dict) and r["converged"] is False
        except d.error:
            failed = True
        c = VM.counts()
        if c["fault"]:
            bad(key, "library: " + VM.fault())
            return
        if c["live"] != 0:
            bad(key, "%d sessions are not released after %s" % (c["live"], t))
            return
        if c["solve"] > c["numeric"] or (c["numeric"] and not c["symbolic"]):
            bad(key, "solves without factorization")
            return
        hit = fault and before[fault[0]] <= fault[1] < c[fault[0]]
        if hit and not failed:
            bad(key, "the failure of the library in phase %s is not reported by %s" % (fault[0], t))
            return
        if failed and not fault:
            bad(key, "%s fails" % t)
            return
        if failed and not hit:
            # a transient step without its history, after the failure: refused, not this property's concern
            s["later steps refused"] += 1


# ---------------------------------------------------------------- iterative
def iterative_one(it):
    name, t, ext = it
    key = {"world": name, "solve": t, "extended": ext, "solver": "iterative"}
    world(name, ext)
    if not history(name, t):
        return
    before = state()
    s["iterative"] += 1
    s["transitions"] += 1
    ok = False
    try:
        r = solve(name, t, solver_type="iterative")
        ok = r["converged"] if isinstance(r, dict) else True
    except d.error:
        ok = False
    if VM.counts()["fault"]:
        bad(key, "library: " + VM.fault())
    if t in ("ac", "noise") or ext:
        if ok: bad(key, "a solve the iterative solver does not have is not refused")
        if state() != before: bad(key, "the refused solve changed the values")
        return
    if not ok:
        s["iterative not converged"] += 1
        return
    got = state()
    world(name, ext)
    history(name, t)
    solve(name, t)
    want = state()
    s["iterative compared"] += 1
    for k in want:
        if not close(got.get(k, 1e99), want[k], 1e-6):
            bad(key, "unknown %d is %r, with the direct solver %r" % (k, got.get(k), want[k]))
            return


LONG = (1, 2, 5, 12, 20, 24, 25, 26, 40, 60)
STRENGTH = (0.0, 0.01, 0.3, 1.0, 3.0, 10.0)


def chain(n, k):
    """two linear unknowns per node of a chain that turn into each other: with k >= 1 the blocks alone say little, and
    the iterations outlast the restart length"""
    base()
    devs.line("D", [float(i) for i in range(n + 1)])
    for v, o, sign in (("u", "w", 1), ("w", "u", -1)):
        d.node_solution(device="D", region="R", name=v)
        flux("D", "R", v)
    for v, o, sign in (("u", "w", 1), ("w", "u", -1)):
        source("D", "R", "r" + v, "%r*%s-x-%d" % (sign * k, o, sign), {o: repr(sign * k)})
        d.equation(device="D", region="R", name="E" + v, variable_name=v, node_model="r" + v, edge_model="f" + v)
        for c, b in (("c0", 0), ("c1", 1)):
            dirichlet("D", c, "E" + v, v, b, "f" + v)


def long_one(it):
    n, k = it
    key = {"chain": n, "coupling": k, "solver": "iterative"}
    got = {}
    for solver in ("iterative", "direct"):
        chain(n, k)
        r = d.solve(type="dc", solver_type=solver, absolute_error=1e-7, relative_error=1e30, maximum_iterations=4, info=True)
        got[solver] = (r["converged"], state())
    s["iterative"] += 1
    s["iterative chains"] += 1
    s["transitions"] += 2
    if not got["direct"][0]:
        bad(key, "the direct solver does not solve a linear problem")
        return
    if not got["iterative"][0]:
        bad(key, "the iterative solver does not solve a linear problem in four corrections")
        return
    want = got["direct"][1]
    for j in want:
        if not close(got["iterative"][1].get(j, 1e99), want[j], 1e-6):
            bad(key, "unknown %d is %r, with the direct solver %r" % (j, got["iterative"][1].get(j), want[j]))
            return


def run(item):
    try:
        {"system": system_one, "answer": answer_one, "fault": fault_one, "library": library_one, "iterative": iterative_one, "chain": long_one}[item[0]](item[1:])
    except d.error as e:
        # nothing here is refused by a healthy tree except what the functions above expect
        bad({"item": item}, "a valid command is refused: %s" % str(e).strip()[:150])


items = []
for name in WORLDS:
    for ext in (False, True):
        for t in types(name):
            for fmt in ("csc", "csr", "library"):
                items.append(("system", name, t, ext, fmt))
            for fmt in ("csc", "csr"):
                for kind in ("ramp", "zero", "ints", "tiny", "tuple", "array"):
                    items.append(("answer", name, t, ext, fmt, kind))
            items.append(("iterative", name, t, ext))
            for a in WRONG:
                for k in range(1 if a == "init" else 3):
                    for w in WRONG[a]:
                        if not ctx.thorough and (ext or t not in ("dc", "be", "ac", "noise")) and k: continue
                        items.append(("fault", name, t, ext, (a, k, w)))
for name in WORLDS:
    ts = types(name)
    for ext in (False, True):
        for n in range(1, (3 if ctx.thorough else 2) + 1):
            for seq in itertools.product(ts, repeat=n):
                # transient steps need their operating point first
                if any(x in ("be", "tr", "b2") and "transient_dc" not in seq[:i] for i, x in enumerate(seq)): continue
                if any(x == "b2" and not any(y in ("be", "tr", "b2") for y in seq[:i]) for i, x in enumerate(seq)): continue
                if seq[0] in ("ac", "noise"): continue
                items.append(("library", name, seq, ext, None))
                if len(seq) < (3 if not ext else 2):
                    for ph in PHASE:
                        for k in range(12 if ctx.thorough else 4):
                            items.append(("library", name, seq, ext, (ph, k)))
items += [("chain", n, k) for n in (range(1, 61) if ctx.thorough else LONG) for k in STRENGTH]
h = [("matrix", 6 if ctx.thorough else 5, p) for p in range(NP)] + [("session", 8 if ctx.thorough else 6, p) for p in range(NP)]
ctx.run(h, harness, name="harness", timeout=3000)
ctx.run(items, run, name="solvers", timeout=600, setup=vc.quiet)
ctx.finish(states=s["matrix states checked"] + s["session states checked"] + s["systems"] + s["answers"] + s["faults"] + s["library histories"] + s["iterative"],
           transitions=s["transitions"], traces=s["matrix sequences"] + s["session sequences"] + len(items),
           rule="all operation sequences of a matrix and of a solver session up to a depth; all worlds x solves x precisions x solvers; every call of the solver x every wrong answer; all solve histories up to a depth x every failing call")
