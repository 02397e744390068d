#!/usr/bin/env python3
"""P14: parallel evaluation equals serial evaluation under every schedule.

1. harness/p14sched.cc owns the threads of the evaluation code (compiled with -fsanitize=thread, the harness being
   its run time): every length, thread count and task size; every function with every pattern of vector and scalar
   arguments and of values that raise exceptions, each watched for accesses that nothing orders; every schedule up
   to a preemption bound; every thread creation that fails.
2. The same through the commands with real threads: every function, operator and kind of model, error report,
   assembly and solution under every thread count, task size and precision, bit for bit against one thread.
"""
import os, sys, itertools, struct, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare(("module", "mathlib", "p14sched"))
ctx = vc.Ctx("P14", assumptions=["atomic operations are sequentially consistent; an access that nothing orders is reported by itself, so the rest needs no finer schedules",
                                 "the standard library, libquadmath and the C library are not instrumented; their synchronization is replaced by that of the harness"])
d = vc.load_devsim()
import dev as devs
from child import child
THOROUGH = ctx.thorough


# ---- 1. controlled schedules ---------------------------------------------------------------------------
def do_sched(item):
    mode, bound, nparts, part = item
    ctx.note(item)
    cmd = [os.path.join(vc.BUILD, "p14sched"), mode, str(bound), str(nparts), str(part)] + (["deep"] if THOROUGH else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    lines = p.stdout.splitlines()
    if p.returncode or not lines or not lines[-1].startswith("S "):
        ctx.violation("harness:%s" % mode, "%s ended with status %d: %s" % (cmd[1:], p.returncode, lines[-1:]), {"item": item})
        return
    w = lines[-1].split()
    s = dict(zip(w[1::2], map(int, w[2::2])))
    ctx.count(states=s["configs"], transitions=s["syncs"], schedules=s["schedules"], accesses=s["accesses"], configurations=s["configs"])
    for l in lines[:-1]:
        what, why = l.split(" :: ")[:2]
        ctx.violation("%s:%s:%s" % (mode, what[4:].split(" args")[0], why.split(" @")[0][:60]), l[4:1500], {"item": item, "command": cmd[1:], "line": l[:3000]})


# ---- 2. through the commands ----------------------------------------------------------------------------
F1 = ("abs", "exp", "log", "B", "dBdx", "step", "sgn", "acosh", "asinh", "atanh", "cosh", "sinh", "tanh", "erf", "erfc", "erf_inv", "erfc_inv", "derfdx", "derfcdx",
      "derf_invdx", "derfc_invdx", "Fermi", "dFermidx", "InvFermi", "dInvFermidx", "!", "vec_sum", "vec_max", "vec_min")
F2 = ("gfi", "dgfidx", "igfi", "digfidx", "min", "max", "pow")
OPS = ("&&", "||", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "^")
EXPR = [f + "(%s)" % a for f in F1 for a in ("p", "q", "-p")] + [f + "(%s)" % a for f in F2 for a in ("p,q", "p,1.5", "0.25,q", "q,p")] + \
       ["p%sq" % o for o in OPS] + ["p%s2" % o for o in OPS] + ["0.5%sp" % o for o in OPS] + \
       ["ifelse(p<0.5,q,p)", "ifelse(p,1,q)", "kahan3(p,q,1)", "kahan3(1,2,p)", "kahan4(p,q,p,q)", "kahan4(p,1,q,2)", "dot2d(p,q,q,p)", "dot2d(1,p,2,q)",
        "p*q+p*p-q*q*0.5+exp(-p)*log(q)", "p+p+p+0+1*q", "p*1+q*0", "log(-q)+exp(1000*p)", "1/(p-0.5)", "sqr(p)+q", "log(zero)", "exp(p)+log(one-one)"]
LENS = (2, 3, 4, 5, 7)
MESHES = set()


def bits(v):
    return [struct.pack("d", x) for x in v]


def strip(e):
    return str(e).split("\n")


def values(n):
    return [0.25 + 0.25 * i for i in range(n)], [1.5 + ((3 * i + 1) % n) for i in range(n)]


def setup(n, mesh):
    if mesh not in MESHES:
        devs.line(mesh, [float(i) for i in range(n)])
        MESHES.add(mesh)
        d.delete_device(device=mesh)
    d.create_device(mesh=mesh, device="D")


def threads(t, s):
    d.set_parameter(name="threads_available", value=t)
    d.set_parameter(name="threads_task_size", value=s)


def attempt(fn):
    try:
        return ("ok", fn())
    except d.error as e:
        return ("error", strip(e))


KIND = {"node": (d.node_solution, d.set_node_values, d.node_model, d.get_node_model_values), "edge": (d.edge_solution, d.set_edge_values, d.edge_model, d.get_edge_model_values)}


def do_expr(item):
    n, kind, ext, chunk = item
    ctx.note(item)
    setup(n, "L%d" % n)
    sol, put, model, get = KIND[kind]
    k = dict(device="D", region="R")
    configs = [(t, s) for t in (2, 3, 4, 6) for s in (0, 1, n - 2, n - 1, n)] if THOROUGH else [(2, 0), (3, 0), (5, 1), (2, n - 1)]
    try:
        d.set_parameter(name="extended_model", value=ext)
        d.set_parameter(name="zero", value=0.0)
        d.set_parameter(name="one", value=1.0)
        m = n if kind == "node" else n - 1
        for nm, v in zip("pq", values(m)):
            sol(name=nm, **k)
            put(name=nm, values=v, **k)
        d.register_function(name="sqr", procedure=lambda x: x * x, nargs=1)
        d.symdiff(expr="declare(sqr(x))")
        d.symdiff(expr="define(sqr(x), 2*x)")
        for j, e in enumerate(EXPR):
            if j % 4 != chunk:
                continue

            def once(tag):
                nm = "m_%d" % j
                model(name=nm, equation=e, **k)
                return bits(get(name=nm, **k))
            threads(0, 0)
            ref = attempt(lambda: once("s"))
            for t, s in configs:
                threads(t, s)
                got = attempt(lambda: once("p"))
                ctx.count(states=1, transitions=1, compared=m)
                if got != ref:
                    ctx.violation("expression:%s" % e, "%s model %s of %d values%s with %d threads and task size %d: %s instead of %s" % (
                        kind, e, m, " extended" if ext else "", t, s, show(got), show(ref)), {"item": item})
                    break
    finally:
        threads(0, 0)
        d.delete_device(device="D")


def show(r):
    return [struct.unpack("d", x)[0] for x in r[1]] if r[0] == "ok" else r[1][:3]


def do_param(item):
    """whatever the parameters are, the values are those of one thread or the parameter is refused"""
    t, s = item
    ctx.note(item)
    setup(6, "L6")
    k = dict(device="D", region="R")
    try:
        ref = None
        for tt, ss in ((0, 0), (t, s)):
            for n, v in (("threads_available", tt), ("threads_task_size", ss)):
                d.set_parameter(name=n, value=v)
            d.node_model(name="m", equation="exp(-x)+x*x", **k)
            v = bits(d.get_node_model_values(name="m", **k))
            ctx.count(states=1, transitions=1, compared=6)
            if ref is not None and v != ref:
                ctx.violation("parameter:%r:%r" % item, "threads_available %r, threads_task_size %r: other values than with one thread" % item, {"item": item})
            ref = v
    finally:
        threads(0, 0)
        d.delete_device(device="D")


def do_solve(item):
    t, s, ext = item
    ctx.note(item)

    def go(t, s):
        def run():
            for n in ("extended_model", "extended_equation", "extended_solver"):
                d.set_parameter(name=n, value=ext)
            threads(t, s)
            devs.line("D", [0.0, 1.0, 1.5, 2.5, 3.0, 4.0, 4.25, 5.0])
            k = dict(device="D", region="R")
            d.set_parameter(name="b", value=0.5)
            for n in ("u", "w"):
                d.node_solution(name=n, **k)
                d.edge_from_node_model(node_model=n, **k)
            d.edge_model(name="g", equation="(B(u@n0-u@n1)*exp(w@n0)-B(u@n1-u@n0)*exp(w@n1))*EdgeInverseLength", **k)
            for x in ("u", "w"):
                for z in ("@n0", "@n1"):
                    d.edge_model(name="g:%s%s" % (x, z), equation="simplify(diff((B(u@n0-u@n1)*exp(w@n0)-B(u@n1-u@n0)*exp(w@n1))*EdgeInverseLength,%s%s))" % (x, z), **k)
            d.edge_model(name="f", equation="(u@n0-u@n1)*EdgeInverseLength", **k)
            d.edge_model(name="f:u@n0", equation="EdgeInverseLength", **k)
            d.edge_model(name="f:u@n1", equation="-EdgeInverseLength", **k)
            d.node_model(name="s", equation="0.2*(exp(w)-exp(-u)) - 0.1", **k)
            d.node_model(name="s:u", equation="0.2*exp(-u)", **k)
            d.node_model(name="s:w", equation="0.2*exp(w)", **k)
            d.node_model(name="q", equation="log(1+exp(w))", **k)
            d.node_model(name="q:w", equation="exp(w)/(1+exp(w))", **k)
            d.equation(name="U", variable_name="u", node_model="s", edge_model="f", **k)
            d.equation(name="W", variable_name="w", edge_model="g", time_node_model="q", **k)
            for c in ("c0", "c1"):
                for v, e in (("u", "U"), ("w", "W")):
                    eq = "%s-b*%s" % (v, {"c0": "0.5", "c1": "x/4"}[c])
                    d.contact_node_model(device="D", contact=c, name=c + v, equation=eq)
                    d.contact_node_model(device="D", contact=c, name=c + v + ":" + v, equation="1")
                    d.contact_equation(device="D", contact=c, name=e, node_model=c + v, edge_current_model={"u": "f", "w": "g"}[v])
            out = []
            for step in (dict(type="dc"), dict(type="transient_dc"), dict(type="transient_bdf1", tdelta=0.5, charge_error=1e10), dict(type="transient_tr", tdelta=0.5, charge_error=1e10)):
                d.set_parameter(name="b", value=0.5 + 0.1 * len(out))
                i = d.solve(absolute_error=1e10, relative_error=1e-10, maximum_iterations=30, info=True, **step)
                out.append(repr(i))
                for n in d.get_node_model_list(**k):
                    out.append(bits(d.get_node_model_values(name=n, **k)))
                for n in d.get_edge_model_list(**k):
                    out.append(bits(d.get_edge_model_values(name=n, **k)))
                out += [bits([d.get_contact_current(device="D", contact=c, equation=e)]) for c in ("c0", "c1") for e in "UW"]
            m = d.get_matrix_and_rhs(format="csc")
            out.append([bits(m[a]["av"]) for a in ("static", "dynamic")] + [bits(m[a]["rhs"]) for a in ("static", "dynamic")])
            d.set_node_value(device="D", region="R", name="w", index=3, value=2000.0)
            out.append(attempt(lambda: d.solve(type="dc", absolute_error=1e10, relative_error=1e-10, maximum_iterations=3)))
            return out
        return child(run, 60)
    ref, got = go(0, 0), go(t, s)
    ctx.count(states=1, transitions=5, compared=sum(len(x) for x in ref[1]) if ref[0] == "ok" else 0)
    if ref[0] != "ok":
        raise RuntimeError("serial: %s" % (ref,))
    if got != ref:
        i = next((i for i, (a, b) in enumerate(zip(got[1], ref[1])) if a != b), None) if got[0] == "ok" else None
        ctx.violation("solve:%d:%d" % (t, s), "analyses with %d threads, task size %d%s: %s" % (t, s, ", extended" if ext else "", got if got[0] != "ok" else "entry %s is %s instead of %s" % (
            i, str(got[1][i])[:200], str(ref[1][i])[:200])), {"item": item})


if __name__ == "__main__":
    import time
    T0 = time.time()

    def lap(n):
        if os.environ.get("VC_LAP"):
            sys.stderr.write("%s %.1f\n" % (n, time.time() - T0))
    B = 2 if THOROUGH else 1
    ctx.run([(m, B, n, i) for m, n in (("sched", 48), ("race", 24), ("split", 8), ("fault", 16)) for i in range(n)], do_sched, name="schedules", timeout=880); lap("schedules")
    ctx.run([(n, k, x, c) for n in LENS for k in KIND for x in (False, True) for c in range(4)], do_expr, name="expressions", timeout=120, setup=vc.quiet); lap("expressions")
    ctx.run([(t, s) for t in (1, 2, 3, "2", -1, -3, "x", 2.5, 10 ** 6) for s in (0, 1, 5, 6, "1", -1, "x", 0.5)], do_param, name="parameters", timeout=60, setup=vc.quiet); lap("parameters")
    ctx.run([(t, s, x) for t in ((2, 3, 4, 5, 8) if THOROUGH else (2, 3, 8)) for s in ((0, 1, 3, 7) if THOROUGH else (0, 5)) for x in (False, True)], do_solve, name="analyses", timeout=120, setup=vc.quiet); lap("analyses")
    s = ctx.stats
    ctx.finish(states=s.get("states", 0), transitions=s.get("transitions", 0), traces=s.get("schedules", 0),
               rule="every length, thread count and task size of the ranges; every function, argument pattern and exception pattern, each run watched for unordered accesses; "
                    "every schedule of the synchronizations with at most %d preemptions for three workers (one more for two) and every failing thread creation; every expression of the list through the commands" % B)
