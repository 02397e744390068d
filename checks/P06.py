#!/usr/bin/env python3
"""P06: a failed or aborted solve leaves the state as it was before the solve.

A coupled nonlinear problem (two devices, circuit, user callback equation, user function in a model) is
brought to a state, then a solve of every type is made to fail in every way at every point: every
factorization, every call of the user function and of the callback equation (exception, non-finite,
malformed result), every iteration limit, divergence and error limits, wrong arguments, missing models.
Afterwards every readable value must be the one before, and the following good solves must go exactly
(bit for bit) as in a run without the failed one.
"""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P06", assumptions=["the internal copies <variable>_prev and dcop_prev are not part of the state a user reads"])
d = vc.load_devsim()
import dev as devs
VM = None

class Boom(Exception):
    pass


class Faults:
    """counts the calls of the user's callbacks and misbehaves at the chosen one"""
    def __init__(self):
        self.clear()
    def clear(self):
        self.n = {"func": 0, "cust": 0}
        self.at = None
        self.kind = None
        self.where = None
    def arm(self, where, at, kind):
        self.clear()
        self.where, self.at, self.kind = where, at, kind
    def hit(self, where):
        self.n[where] += 1
        return self.where == where and self.n[where] == self.at


FT = Faults()


def pf(x):
    if FT.hit("func"):
        k = FT.kind
        if k == "raise": raise Boom("user function")
        if k == "nan": return float("nan")
        if k == "inf": return float("inf")
        if k == "str": return "abc"
        if k == "none": return None
        if k == "div": return 1.0 / 0.0
    return 0.125 * x * x


def pfd(x):
    return 0.25 * x


def cust(what, mode):
    row = d.get_circuit_equation_number(node="b")
    m, r, bulk = [], [], False
    if mode == "DC":
        if what in ("MATRIXANDRHS", "MATRIXONLY"):
            m = [row, row, 0.125]
        if what in ("MATRIXANDRHS", "RHS"):
            r = [row, 0.125 * d.get_circuit_node_value(node="b", solution="dcop")]
    if FT.hit("cust"):
        k = FT.kind
        if k == "raise": raise Boom("callback")
        if k == "short": return (m, r)
        if k == "range": return ([100000, row, 1.0], [100000, 1.0], False)
        if k == "text": return (["x", 1, 2], ["y", 2], False)
        if k == "none": return None
        if k == "nan": return ([row, row, float("nan")], [row, float("nan")], False)
        if k == "odd": return ([row], [row], False)
    return m, r, bulk


def world(ext):
    FT.clear()
    VM.reset()
    d.reset_devsim()
    if ext:
        for n in ("extended_model", "extended_equation", "extended_solver"):
            d.set_parameter(name=n, value=True)
    d.register_function(name="pf", procedure=pf, nargs=1)
    d.register_function(name="pfd", procedure=pfd, nargs=1)
    for e in ("declare(pf(x))", "declare(pfd(x))", "define(pf(x),pfd(x))"):
        d.symdiff(expr=e)
    d.circuit_element(name="V1", n1="a", n2="0", value=1.5, acreal=1.0)
    d.circuit_element(name="R1", n1="a", n2="b", value=0.5)
    d.circuit_element(name="C1", n1="b", n2="0", value=0.75)
    d.add_circuit_node(name="p", variable_update="log_damp", value=0.5)
    d.circuit_element(name="R2", n1="p", n2="b", value=3.0)
    devs.line("D", (0.0, 1.0, 3.0))
    devs.line("B", (0.0, 2.0))
    for dv, vs in (("D", "uw"), ("B", "v")):
        for v in vs:
            d.node_solution(device=dv, region="R", name=v)
            d.edge_from_node_model(device=dv, region="R", node_model=v)
        d.node_solution(device=dv, region="R", name="saved")
    kw = {"device": "D", "region": "R"}
    d.set_node_values(name="u", values=[0.5, 0.25, 0.75], **kw)
    d.set_node_values(name="w", values=[1.5, 0.25, 0.5], **kw)
    d.set_node_values(device="B", region="R", name="v", values=[2.0, 1.0])
    d.edge_model(name="f", equation="2*(u@n0-u@n1)*EdgeInverseLength", **kw)
    d.edge_model(name="f:u@n0", equation="2*EdgeInverseLength", **kw)
    d.edge_model(name="f:u@n1", equation="-2*EdgeInverseLength", **kw)
    d.node_model(name="r", equation="exp(2*u)+0.5*w+pf(u)", **kw)
    d.node_model(name="r:u", equation="2*exp(2*u)+pfd(u)", **kw)
    d.node_model(name="r:w", equation="0.5", **kw)
    d.node_model(name="q", equation="u+0.25*u^2", **kw)
    d.node_model(name="q:u", equation="1+0.5*u", **kw)
    d.node_model(name="rw", equation="w+w^3-u+log(w+5)", **kw)
    d.node_model(name="rw:w", equation="1+3*w^2+1/(w+5)", **kw)
    d.node_model(name="rw:u", equation="-1", **kw)
    d.node_model(name="derived", equation="u*w+b", **kw)
    d.equation(name="E", variable_name="u", node_model="r", edge_model="f", time_node_model="q", **kw)
    d.equation(name="F", variable_name="w", node_model="rw", time_node_model="q", variable_update="log_damp", **kw)
    d.node_model(name="ic", equation="pf(u)", **kw)
    kb = {"device": "B", "region": "R"}
    d.node_model(name="rv", equation="log(v)+v-1", **kb)
    d.node_model(name="rv:v", equation="1/v+1", **kb)
    d.edge_model(name="fv", equation="v@n0-v@n1", **kb)
    d.edge_model(name="fv:v@n0", equation="1", **kb)
    d.edge_model(name="fv:v@n1", equation="-1", **kb)
    d.equation(name="EB", variable_name="v", node_model="rv", edge_model="fv", variable_update="positive", **kb)
    for c, e in (("c0", "u-b"), ("c1", "u-0.25")):
        d.contact_node_model(device="D", contact=c, name=c + "n", equation=e)
        d.contact_node_model(device="D", contact=c, name=c + "n:u", equation="1")
    d.contact_node_model(device="D", contact="c0", name="c0n:b", equation="-1")
    d.contact_equation(device="D", contact="c0", name="E", node_model="c0n", edge_current_model="f", node_charge_model="q", circuit_node="b")
    d.contact_equation(device="D", contact="c1", name="E", node_model="c1n", edge_current_model="f", node_current_model="ic", node_charge_model="q")
    d.custom_equation(name="CE", procedure=cust)


TYPES = {
    "dc": dict(type="dc"),
    "transient_dc": dict(type="transient_dc"),
    "be": dict(type="transient_bdf1", tdelta=0.25),
    "tr": dict(type="transient_tr", tdelta=0.25),
    "b2": dict(type="transient_bdf2", tdelta=0.5, gamma=0.5),
    "ac": dict(type="ac", frequency=0.5),
    "noise": dict(type="noise", frequency=0.5, output_node="b"),
}
GOOD = dict(absolute_error=1e-6, relative_error=1e-8, maximum_iterations=60, charge_error=1e30, maximum_divergence=40)


def solve(t, **kw):
    a = dict(GOOD)
    a.update(TYPES[t])
    a.update(kw)
    return d.solve(**a)


# where the problem is before the failing solve
PRE = {"start": (), "after dc": ("dc",), "moved": ("dc", "V"), "transient": ("transient_dc", "V", "be"), "transient moved": ("transient_dc", "V", "be", "be", "V2")}


def pre(name):
    for p in PRE[name]:
        if p == "V":
            d.circuit_alter(name="V1", value=2.5)
        elif p == "V2":
            d.circuit_alter(name="V1", value=0.75)
        else:
            solve(p)


def read(fn, *a, **kw):
    try:
        r = fn(*a, **kw)
        return list(r) if isinstance(r, (list, tuple)) else r
    except d.error as e:
        return "error " + str(e).strip().split("\n")[-1][:80]


def snapshot():
    s = {}
    for dv in d.get_device_list():
        for r in d.get_region_list(device=dv):
            for n in sorted(d.get_node_model_list(device=dv, region=r)):
                if not n.endswith("_prev"):
                    s[(dv, r, n)] = read(d.get_node_model_values, device=dv, region=r, name=n)
            for n in sorted(d.get_edge_model_list(device=dv, region=r)):
                s[(dv, r, "edge", n)] = read(d.get_edge_model_values, device=dv, region=r, name=n)
            s[(dv, r, "eqs")] = list(d.get_equation_list(device=dv, region=r))
        for c in d.get_contact_list(device=dv):
            for e in d.get_contact_equation_list(device=dv, contact=c):
                s[(dv, c, e)] = (read(d.get_contact_current, device=dv, contact=c, equation=e), read(d.get_contact_charge, device=dv, contact=c, equation=e))
    for x in d.get_circuit_solution_list():
        if x != "dcop_prev":
            for n in d.get_circuit_node_list():
                s[("circuit", x, n)] = d.get_circuit_node_value(node=n, solution=x)
    m = read(d.get_matrix_and_rhs)
    for t in ("static", "dynamic"):
        s[("matrix", t)] = m if isinstance(m, str) else (list(m[t]["av"]), list(m[t]["ai"]), list(m[t]["ap"]), list(m[t]["rhs"]))
    return s


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return repr(x)


def continuation(name):
    """what happens next: the good solves and what they report"""
    out = []
    seq = ("tr", "be", "b2", "dc", "ac") if name.startswith("transient") else ("dc", "transient_dc", "be", "ac", "noise")
    for t in seq:
        try:
            r = solve(t, info=True) if t not in ("ac", "noise") else solve(t)
            out.append((t, freeze(r)))
        except d.error as e:
            out.append((t, "error " + str(e)[:60]))
    out.append(freeze(snapshot()))
    return out


_control = {}


def control(ext, name):
    k = (ext, name)
    if k not in _control:
        world(ext)
        pre(name)
        # the snapshot's own assembly is part of the run, before the failing solve and after it
        snapshot()
        snapshot()
        _control[k] = continuation(name)
    return _control[k]


def faulty(kind, arg, t):
    """performs the solve meant to fail; returns (reported failure, error text, fault was reached)"""
    kw = {}
    mod = None
    undo = None
    if kind == "factor":
        VM.reset(); VM.fail_at(arg)
    elif kind == "badsol":
        VM.reset(); VM.badsol_at(arg)
    elif kind in ("func", "cust"):
        FT.arm(kind, arg[0], arg[1])
    elif kind == "args":
        kw = dict(arg)
    elif kind == "missing":
        if arg == "node":
            d.delete_node_model(device="D", region="R", name="rw")
            undo = lambda: d.node_model(device="D", region="R", name="rw", equation="w+w^3-u+log(w+5)")
        elif arg == "edge":
            d.delete_edge_model(device="B", region="R", name="fv")
            undo = lambda: d.edge_model(device="B", region="R", name="fv", equation="v@n0-v@n1")
        elif arg == "contact":
            d.delete_node_model(device="D", region="R", name="c1n")
            undo = lambda: d.contact_node_model(device="D", contact="c1", name="c1n", equation="u-0.25")
        elif arg == "current":
            pass
    elif kind == "poison":
        # a value outside the domain of a model or of its update rule
        dv, n, i, v = arg
        d.set_node_values(device=dv, region="R", name="saved", init_from=n)
        d.set_node_value(device=dv, region="R", name=n, index=i, value=v)
        undo = lambda: (d.set_node_values(device=dv, region="R", name=n, init_from="saved"), d.set_node_values(device=dv, region="R", name="saved", values=[0.0] * len(d.get_node_model_values(device=dv, region="R", name="saved"))))
    before = solvalues() if kind in ("poison", "missing") else None
    try:
        r = solve(t, **kw)
        failed = isinstance(r, dict) and r.get("converged") is False
        msg = ""
        reported = failed
    except d.error as e:
        msg, reported = str(e), True
    except Boom as e:
        msg, reported = str(e), True
    except ZeroDivisionError as e:
        msg, reported = str(e), True
    reached = True
    if kind in ("factor", "badsol"):
        c = VM.counts()
        reached = (c["numeric"] if kind == "factor" else c["solve"]) > arg
    elif kind in ("func", "cust"):
        reached = FT.n[kind] >= arg[0]
    if before is not None and reported and solvalues() != before:
        msg = None
    if undo:
        undo()
    FT.clear()
    VM.reset()
    return reported, msg, reached


def solvalues():
    s = [list(d.get_node_model_values(device=a, region="R", name=v)) for a, v in (("D", "u"), ("D", "w"), ("B", "v"))]
    if "dcop" in d.get_circuit_solution_list():
        s.append([d.get_circuit_node_value(node=n, solution="dcop") for n in sorted(d.get_circuit_node_list())])
    return freeze(s)


def work(item):
    ext, name, t, kind, arg = item
    ctx.note(item)
    want = control(ext, name)
    world(ext)
    pre(name)
    ctx.count(transitions=1, faults=1)

    def bad(k, what):
        ctx.violation("%s:%s:%s" % (k, kind, vc.digest(item)), "%s %s, %s solve, fault %s %s: %s" % ("extended" if ext else "double", name, t, kind, arg, what))
    before = snapshot()
    reported, msg, reached = faulty(kind, arg, t)
    if not reached:
        ctx.count(unreached=1)
        return
    if not reported:
        if kind == "badsol" or ext and kind in ("func", "cust", "factor") or (kind in ("func",) and arg[1] in ("nan", "inf")) or kind == "cust" and arg[1] == "nan":
            pass
        ctx.count(not_failed=1)
        if kind in ("func", "cust") and arg[1] in ("raise", "div", "str", "none", "range", "text", "odd", "short") or kind == "factor" and t not in ("ac", "noise") and not ext:
            return bad("silent", "the solve reported success")
        return
    if msg is None:
        return bad("state", "solution values changed")
    if not msg.strip() and "info" not in dict(arg if kind == "args" else ()):
        return bad("nomessage", "failed without a message")
    after = snapshot()
    ctx.count(failures=1)
    diff = [k for k in set(before) | set(after) if freeze(before.get(k)) != freeze(after.get(k))]
    # a failed ac or noise solve may have created its result tables
    diff = [k for k in diff if not (k not in before and (k[0] == "circuit" or len(k) == 3 and (str(k[2]).endswith(("_Real", "_Imag", "_real", "_imag")))))]
    if diff:
        k = sorted(diff, key=repr)[0]
        return bad("state", "%s was %s, is %s after the failed solve (%d differences)" % (k, before.get(k), after.get(k), len(diff)))
    got = continuation(name)
    if t in ("ac", "noise"):
        return
    for g, w in zip(got, want):
        if g != w:
            return bad("next", "the next solves differ from a run without the failed one: %s, expected %s" % (str(g)[:200], str(w)[:200]))
    ctx.state("failures", repr((name, t, kind, msg[:80])))


ARGS = [dict(type="nosuch"), dict(type="dc", solver_type="nosuch"), dict(type="transient_bdf1", tdelta=0.0), dict(type="transient_tr", tdelta=0.0), dict(type="transient_bdf2", tdelta=0.5, gamma=0.0),
        dict(maximum_iterations=0), dict(maximum_iterations=1), dict(maximum_iterations=2), dict(maximum_iterations=3), dict(maximum_iterations=4), dict(maximum_iterations=1, info=True), dict(maximum_iterations=2, info=True),
        dict(maximum_divergence=0), dict(maximum_error=1e-12), dict(maximum_error=1e-3), dict(absolute_error=0.0), dict(relative_error=0.0), dict(absolute_error=-1.0),
        dict(absolute_error="x"), dict(maximum_iterations="x"), dict(frequency="x"), dict(nosuch=1), dict(type="ac", info=True), dict(type="noise", output_node="nosuch", frequency=1.0), dict(type="noise", frequency=1.0)]
TRANS_ARGS = [dict(charge_error=1e-14), dict(charge_error=0.0), dict(maximum_iterations=1), dict(maximum_iterations=3), dict(maximum_iterations=2, info=True), dict(charge_error=1e-14, info=True)]


def setup():
    global VM
    vc.quiet()
    VM = vc.Vmath()


def items(thorough):
    out = []
    names = list(PRE)
    for ext in (False, True):
        for name in names:
            ts = ["dc", "transient_dc"] + (["be", "tr", "b2"] if name.startswith("transient") else [])
            if name != "start":
                ts += ["ac", "noise"]
            for t in ts:
                small = t in ("ac", "noise")
                it = 2 if small else 12
                if not ext:
                    for k in range(it):
                        out.append((ext, name, t, "factor", k))
                        out.append((ext, name, t, "badsol", k))
                nf = 260 if thorough else 90
                step = 1 if not ext else 3
                for n in list(range(1, nf, step)):
                    for k in (("raise", "nan", "inf", "str", "none", "div") if (thorough or n < 20) and not ext else ("raise", "nan")):
                        out.append((ext, name, t, "func", (n, k)))
                for n in range(1, 8 if small else 45, step):
                    for k in ("raise", "short", "range", "text", "none", "nan", "odd") if (thorough or n < 8) and not ext else ("raise", "text"):
                        out.append((ext, name, t, "cust", (n, k)))
                if not small:
                    for a in (ARGS if t == "dc" else []) + (TRANS_ARGS if t in ("be", "tr", "b2") else []):
                        out.append((ext, name, t, "args", tuple(sorted(a.items()))))
                    for m in ("node", "edge", "contact"):
                        out.append((ext, name, t, "missing", m))
                    for p in (("B", "v", 0, -1.0), ("B", "v", 1, 0.0), ("D", "w", 1, -6.0), ("D", "u", 2, 1e6), ("D", "u", 1, float("nan"))):
                        out.append((ext, name, t, "poison", p))
    return out


if __name__ == "__main__":
    ctx.run(items(ctx.thorough), work, "fault", setup=setup, timeout=60)
    s = ctx.stats
    ctx.finish(len(ctx.sets.get("failures", ())), s.get("transitions", 0), s.get("failures", 0),
               "every fault kind at every reachable factorization, back substitution, user function call and callback call (up to the stated index), every listed limit and wrong argument, for every solve type from five states in two precisions")
