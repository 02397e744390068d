#!/usr/bin/env python3
"""P21: the bias ramp driver under every pattern of solver outcomes.

The real python_packages/ramp.py runs on the real module with a real device; only the
solve entry point is replaced, by an environment that answers from a choice sequence:
success, convergence failure, another simulator error, a python exception.  All sequences
up to the depth are explored (stateless DFS), beyond it the environment answers success.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P21", assumptions=["solve itself is replaced by an outcome oracle; that a real failing solve reports the outcome this oracle uses is checked once per run"])
d = vc.load_devsim()
out = sys.stdout
DEPTH = 14 if ctx.thorough else 10
NAME = "c0_bias"
NONE = "none"


class Weird(Exception):
    pass


def device(dev):
    d.create_1d_mesh(mesh=dev)
    d.add_1d_mesh_line(mesh=dev, pos=0.0, ps=1.0, tag="a")
    d.add_1d_mesh_line(mesh=dev, pos=2.0, ps=1.0, tag="b")
    d.add_1d_contact(mesh=dev, name="c0", tag="a", material="metal")
    d.add_1d_contact(mesh=dev, name="c1", tag="b", material="metal")
    d.add_1d_region(mesh=dev, material="Si", region="R", tag1="a", tag2="b")
    d.finalize_mesh(mesh=dev)
    d.create_device(mesh=dev, device=dev)


def real_failure():
    """The message of a real failing solve, and of a real other error."""
    d.reset_devsim()
    device("D")
    d.set_parameter(device="D", name="b", value=1.0)
    d.node_solution(device="D", region="R", name="u")
    d.node_model(device="D", region="R", name="F", equation="u*u*u-1e3")
    d.node_model(device="D", region="R", name="F:u", equation="1e-4")
    d.equation(device="D", region="R", name="E", variable_name="u", node_model="F")
    try:
        d.solve(type="dc", absolute_error=1e-10, relative_error=1e-10, maximum_iterations=2)
    except d.error as e:
        return str(e)
    return None


def run_one(cfg, prefix, fail_msg, ramp):
    """Returns (choices taken, trace, outcome) for one execution."""
    start, end, step, minstep, callback_kind = cfg
    choices = []
    trace = []
    d.set_parameter(device="D", name=NAME, value=start)
    d.set_parameter(device="D", name="c1_bias", value=-7.5)

    def solve(**kw):
        i = len(choices)
        c = prefix[i] if i < len(prefix) else 0
        choices.append(c)
        if i > 4000:
            raise SystemError("horizon")
        trace.append(("try", d.get_parameter(device="D", name=NAME), c,
                      kw.get("type"), kw.get("absolute_error"), kw.get("relative_error"), kw.get("maximum_iterations")))
        if c == 0:
            return None
        if c == 1:
            raise d.error(fail_msg)
        if c == 2:
            raise d.error("some other problem")
        raise Weird("x")

    def callback(dev):
        trace.append(("cb", d.get_parameter(device="D", name=NAME), dev))

    save = d.solve
    d.solve = solve
    try:
        ramp.rampbias("D", "c0", end, step, minstep, 30, 1e-3, 1e-4, callback)
        outcome = "done"
    except d.error as e:
        outcome = "error:" + str(e)
    except Weird:
        outcome = "weird"
    except RuntimeError:
        outcome = "minimum"
    finally:
        d.solve = save
    return choices, trace, outcome, d.get_parameter(device="D", name=NAME), d.get_parameter(device="D", name="c1_bias")


def expect(cfg, choices):
    """Reference automaton: what must be seen for these solver outcomes (all numbers dyadic, exact)."""
    start, end, step, minstep, _ = cfg
    step = abs(step)
    last, tr, i = start, [], 0
    while abs(end - last) > minstep:
        dist = end - last
        nxt = end if abs(dist) <= step else last + (step if dist > 0 else -step)
        c = choices[i] if i < len(choices) else 0
        i += 1
        tr.append(("try", nxt, c, "dc", 1e-4, 1e-3, 30))
        if c == 0:
            last = nxt
            tr.append(("cb", nxt, "D"))
        elif c == 1:
            step /= 2
            if step < minstep:
                return tr, "minimum", last
        elif c == 2:
            return tr, "error:some other problem", None
        else:
            return tr, "weird", None
    return tr, "done", last


def work(item):
    cfg, root = item
    cfg = tuple(cfg)
    from devsim.python_packages import ramp
    stack = [list(root)]
    while stack:
        prefix = stack.pop()
        choices, trace, outcome, final, other = run_one(cfg, prefix, FAIL, ramp)
        if choices[:len(prefix)] != prefix and len(choices) >= len(prefix):
            raise RuntimeError("nondeterministic replay")
        ctx.count(runs=1, transitions=len(trace))
        ctx.state("outcomes", repr((cfg, trace, outcome)))
        etr, eout, elast = expect(cfg, choices)
        if trace != etr or outcome != eout:
            k = next((j for j in range(min(len(trace), len(etr))) if trace[j] != etr[j]), min(len(trace), len(etr)))
            ctx.violation("ramp:trace", "start %r end %r step %r min %r outcomes %s: event %d is %s, expected %s; outcome %s expected %s" % (
                cfg[0], cfg[1], cfg[2], cfg[3], choices, k, trace[k] if k < len(trace) else None, etr[k] if k < len(etr) else None, outcome, eout),
                {"item": [list(cfg), choices]})
            return
        if elast is not None and final != elast:
            ctx.violation("ramp:final", "cfg %s outcomes %s: bias parameter left at %r, expected %r" % (cfg, choices, final, elast), {"item": [list(cfg), choices]})
            return
        if other != -7.5:
            ctx.violation("ramp:other", "another contact's bias changed to %r" % other, {"item": [list(cfg), choices]})
            return
        ctx.sample({"cfg": cfg, "outcomes": choices[:12], "outcome": outcome})
        for i in range(len(prefix), min(len(choices), DEPTH)):
            for alt in ((1, 2, 3) if i < 4 else (1,)):
                stack.append(choices[:i] + [alt])


def setup():
    vc.quiet()
    d.reset_devsim()
    device("D")


FAIL = None
if __name__ == "__main__":
    real, sys.stdout = sys.stdout, vc.Null()
    pid_r, pid_w = os.pipe()
    if os.fork() == 0:
        m = real_failure()
        os.write(pid_w, (m or "").encode())
        os._exit(0)
    os.close(pid_w)
    FAIL = os.read(pid_r, 10000).decode()
    os.wait()
    sys.stdout = real
    if not FAIL:
        FAIL = "Convergence failure!\n"
    pts = [-1.0, 0.0, 0.25, 1.0] if ctx.thorough else [-0.5, 0.0, 1.0]
    steps = [0.25, 0.375, 1.0, 4.0, -0.5]
    mins = [2.0 ** -4, 0.25, 2.0 ** -10] if ctx.thorough else [2.0 ** -4, 0.25]
    items = [[[s, e, st, m, 0], []] for s in pts for e in pts for st in steps for m in mins]
    ctx.run(items, work, "ramp", setup=setup)
    ctx.finish(len(ctx.sets.get("outcomes", ())), ctx.stats.get("transitions", 0), ctx.stats.get("runs", 0),
               "stateless DFS over solver outcome sequences (success, convergence failure, other error, python exception) to depth %d for all (start,end,step,min_step) of the lattice; a run is the real driver compared event by event with the reference automaton" % DEPTH)
