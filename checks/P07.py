#!/usr/bin/env python3
"""P07: transient steps implement their integration formulas over any history.

Every history of the stated depth over initial-condition, backward Euler, trapezoidal and second order
backward difference steps of several sizes, source changes, rejected and failed steps and their retries,
operating-point solves and prescribed initial conditions, on circuits, devices and coupled systems.
Reference: the assembled charge and current vectors at every accepted point; the accepted solution must
zero the discrete equation of the scheme, row by row.
"""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P07", assumptions=["charge and current vectors are those of get_matrix_and_rhs, whose content is property P05"])
d = vc.load_devsim()
import dev as devs
VM = None
BIG = 1e30
OPS = [("dc0",), ("be", 0.5), ("be", 0.125), ("tr", 0.5), ("tr", 0.25), ("b2", 1.0, 0.5), ("b2", 0.5, 0.75), ("be", 0.25, 0.5),
       ("src", 2.0), ("try", "be", 0.5, 0.02), ("try", "tr", 0.25, 0.3), ("rej", "be"), ("rej", "tr"), ("rej", "b2"), ("fail", "be", 1), ("fail", "tr", 0), ("dc",), ("ic",)]
SHORT = {"be": "transient_bdf1", "tr": "transient_tr", "b2": "transient_bdf2"}


def coeff(kind, h, g):
    if kind == "be":
        td = g * h
        return td, 1 / td, -1 / td, 0.0, 0.0
    if kind == "tr":
        td = g * h
        return td, 2 / td, -2 / td, 0.0, 1.0
    td = (1 - g) * h
    return td, (2 - g) / td, -1 / (g * td), (1 - g) / (g * h), 0.0


class W:
    def __init__(self, kind):
        d.reset_devsim()
        self.kind = kind
        if kind.endswith("x"):
            for n in ("extended_model", "extended_equation", "extended_solver"):
                d.set_parameter(name=n, value=True)
            kind = kind[:-1]
        self.cir = kind != "dev"
        self.dev = kind != "cir"
        if self.cir:
            d.circuit_element(name="V1", n1="a", n2="0", value=1.0)
            d.circuit_element(name="R1", n1="a", n2="b", value=0.5)
            d.circuit_element(name="C1", n1="b", n2="0", value=0.75)
            d.circuit_element(name="L1", n1="b", n2="c", value=0.25)
            d.circuit_element(name="R2", n1="c", n2="GND", value=2.0)
        if self.dev:
            devs.line("D", (0.0, 1.0, 3.0))
            kw = {"device": "D", "region": "R"}
            d.set_parameter(name="bias", value=1.0)
            d.node_solution(name="u", **kw)
            d.node_solution(name="w", **kw)
            for v in "uw":
                d.set_node_values(name=v, values=[0.5, 0.75, 0.25], **kw)
                d.edge_from_node_model(node_model=v, **kw)
            src = "b" if self.cir else "bias"
            d.edge_model(name="f", equation="2*(u@n0-u@n1)*EdgeInverseLength", **kw)
            d.edge_model(name="f:u@n0", equation="2*EdgeInverseLength", **kw)
            d.edge_model(name="f:u@n1", equation="-2*EdgeInverseLength", **kw)
            d.node_model(name="r", equation="0.25*u^3+0.5*w", **kw)
            d.node_model(name="r:u", equation="0.75*u^2", **kw)
            d.node_model(name="r:w", equation="0.5", **kw)
            d.node_model(name="q", equation="u+0.25*u^2", **kw)
            d.node_model(name="q:u", equation="1+0.5*u", **kw)
            d.node_model(name="rw", equation="w-u+0.5", **kw)
            d.node_model(name="rw:w", equation="1", **kw)
            d.node_model(name="rw:u", equation="-1", **kw)
            d.node_model(name="qw", equation="0.5*w", **kw)
            d.node_model(name="qw:w", equation="0.5", **kw)
            d.equation(name="E", variable_name="u", node_model="r", edge_model="f", time_node_model="q", **kw)
            d.equation(name="F", variable_name="w", node_model="rw", time_node_model="qw", **kw)
            for c, e in (("c0", "u-%s" % src), ("c1", "u-0.25")):
                d.contact_node_model(device="D", contact=c, name=c + "n", equation=e)
                d.contact_node_model(device="D", contact=c, name=c + "n:u", equation="1")
                cir = self.cir and c == "c0"
                if cir:
                    d.contact_node_model(device="D", contact=c, name=c + "n:b", equation="-1")
                d.contact_equation(device="D", contact=c, name="E", node_model=c + "n", edge_current_model="f", node_charge_model="q", **({"circuit_node": "b"} if cir else {}))

    def src(self, v):
        if self.cir:
            d.circuit_alter(name="V1", value=v)
        else:
            d.set_parameter(name="bias", value=v)

    def x(self):
        out = []
        if self.dev:
            out += list(d.get_node_model_values(device="D", region="R", name="u")) + list(d.get_node_model_values(device="D", region="R", name="w"))
        if self.cir:
            out += [d.get_circuit_node_value(node=n, solution="dcop") for n in ("a", "b", "c", "V1.I", "L1.I")] if "dcop" in d.get_circuit_solution_list() else []
        return out

    def point(self):
        m = d.get_matrix_and_rhs()
        return [float(v) for v in m["dynamic"]["rhs"]], [float(v) for v in m["static"]["rhs"]]


def solve(**kw):
    a = dict(absolute_error=1e-7, relative_error=1e-10, maximum_iterations=25, charge_error=BIG)
    a.update(kw)
    d.solve(**a)


def qerr(Q, I, Q0, td):
    r = 0.0
    for i in range(len(Q)):
        p = Q0[i] - td * I[i]
        if Q[i] != 0.0:
            r = max(r, abs(Q[i] - p) / (1e-20 + abs(Q[i]) + abs(p)))
    return r


def step(w, hist, kind, h, g, ce, bad):
    """one step; returns "ok", "rejected" or "violation" """
    td, a0, a1, a2, b1 = coeff(kind, h, g)
    before = w.x()
    need = 2 if kind == "b2" else 1
    ctx.count(transitions=1)
    try:
        solve(type=SHORT[kind], tdelta=h, gamma=g, charge_error=ce)
        ok = True
    except d.error as e:
        ok = False
        msg = str(e)
    if len(hist) < need:
        if ok:
            bad("nohistory", "%s succeeded without the stored points it needs" % kind)
            return "violation"
        if w.x() != before:
            bad("nohistory", "%s without stored points changed the solution" % kind)
            return "violation"
        return "error"
    if not ok:
        if ce >= BIG:
            bad("failed", "%s step failed: %s" % (kind, msg[:100]))
            return "violation"
        if w.x() != before:
            bad("restore", "rejected %s step left %s, was %s" % (kind, w.x(), before))
            return "violation"
        return "rejected"
    return accepted(w, hist, kind, h, g, ce, bad)


def accepted(w, hist, kind, h, g, ce, bad):
    td, a0, a1, a2, b1 = coeff(kind, h, g)
    Q, I = w.point()
    Q0, I0 = hist[0]
    Q1 = hist[1][0] if kind == "b2" else Q0
    for i in range(len(Q)):
        terms = (a0 * Q[i], a1 * Q0[i], a2 * Q1[i], I[i], b1 * I0[i])
        r = sum(terms)
        sc = sum(abs(t) for t in terms) + 1.0
        if not abs(r) <= 1e-6 * sc:
            bad("step", "%s step of %r (gamma %r): row %d of the discrete equation is %r, terms %s" % (kind, h, g, i, r, terms))
            return "violation"
    if ce < BIG:
        q = qerr(Q, I0, Q0, td)
        if q > ce * (1 + 1e-6):
            bad("charge", "%s step accepted with charge error %r above the limit %r" % (kind, q, ce))
            return "violation"
    hist.insert(0, (Q, I))
    del hist[3:]
    return "ok"


def work(item):
    kind, ops = item
    ctx.note(item)
    w = W(kind)
    hist = []
    ctx.count(histories=1)

    def bad(k, what):
        ctx.violation("%s:%s:%s" % (k, kind, vc.digest(ops)), "%s after %s (operation %d): %s" % (kind, ops, n, what))
    for n, op in enumerate((("dc0",), ("src", 2.0)) + tuple(ops)):
        op = tuple(op)
        if op[0] == "dc0":
            ctx.count(transitions=1)
            try:
                solve(type="transient_dc")
            except d.error as e:
                return bad("dcfail", "transient_dc failed: %s" % str(e)[:80])
            Q, I = w.point()
            if not max(abs(i) for i in I) <= 1e-6:
                return bad("dc", "static residual after transient_dc is %s" % I)
            hist[:] = [(Q, I)]
        elif op[0] in SHORT:
            if step(w, hist, op[0], op[1], op[2] if len(op) > 2 else 1.0, BIG, bad) == "violation":
                return
        elif op[0] == "src":
            w.src(op[1] if n % 2 else -0.5 * n)
        elif op[0] == "try":
            k, h, ce = op[1:]
            r = step(w, hist, k, h, 1.0, ce, bad)
            if r == "violation":
                return
            if r == "rejected":
                # the retry without limit must succeed and show that the error was above the limit
                h0 = list(hist)
                if step(w, hist, k, h, 1.0, BIG, bad) != "ok":
                    return bad("retry", "retry of a rejected step failed") if not ctx.viol else None
                q = qerr(hist[0][0], h0[0][1], h0[0][0], coeff(k, h, 1.0)[0])
                ctx.count(rejected=1)
                if q < ce * (1 - 1e-6):
                    return bad("charge", "%s step rejected with charge error %r below the limit %r" % (k, q, ce))
        elif op[0] in ("rej", "fail"):
            before = w.x()
            ctx.count(transitions=1, failed_steps=1)
            k = op[1]
            if op[0] == "fail":
                VM.reset()
                VM.fail_at(op[2])
            try:
                solve(type=SHORT[k], tdelta=0.5, gamma=0.5, **({"maximum_iterations": 1, "absolute_error": 0.0} if op[0] == "rej" else {}))
                ok = True
            except d.error:
                ok = False
            reached = VM.counts()["numeric"]
            VM.reset()
            if ok and op[0] == "fail" and reached <= op[2]:
                # converged before the fault
                if accepted(w, hist, k, 0.5, 0.5, BIG, bad) != "ok":
                    return
                continue
            if ok:
                return bad("accepted", "a %s step that cannot converge was accepted" % k)
            if w.x() != before:
                return bad("restore", "failed %s step left %s, was %s" % (k, w.x(), before))
        elif op[0] == "dc":
            ctx.count(transitions=1)
            solve(type="dc")
        elif op[0] == "ic":
            Q, I = w.point()
            d.set_initial_condition(static_rhs=I, dynamic_rhs=Q)
            hist.insert(0, (Q, I))
            del hist[3:]
            ctx.count(transitions=1)
    ctx.state("trajectories", repr([round(v, 9) for v in w.x()]))


def setup():
    global VM
    vc.quiet()
    VM = vc.Vmath()


if __name__ == "__main__":
    items = []
    for kind in ("cir", "dev", "both", "bothx"):
        depth = 3 if kind != "bothx" else 2
        if ctx.thorough:
            depth += 1
        for n in range(depth + 1):
            items += [(kind, s) for s in itertools.product(OPS, repeat=n)]
    # steps only, deeper: every sequence of accepted steps
    steps = [("be", 0.5), ("be", 0.125), ("tr", 0.5), ("b2", 1.0, 0.5), ("src", 2.0), ("rej", "tr"), ("dc0",)]
    for n in ((4,) if not ctx.thorough else (5, 6)):
        items += [("both", s) for s in itertools.product(steps, repeat=n)]
    ctx.run(items, work, "history", setup=setup, timeout=120)
    ctx.finish(len(ctx.sets.get("trajectories", ())), ctx.stats.get("transitions", 0), ctx.stats.get("histories", 0),
               "every sequence of %d operations to depth 3 (thorough 4) after transient_dc on a circuit, a device and a coupled system; every sequence of 7 operations to depth 4 (thorough 6) on the coupled one" % len(OPS))
