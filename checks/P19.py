#!/usr/bin/env python3
"""P19: update rules keep variables in their domain and report the applied update.

A scripted solver callback hands the Newton loop prescribed updates. Every (old value, first update, second
update) of a lattice around zero, the damping limit, cancellation, underflow, overflow and non-finite values
is applied at every node of the three device update rules and the three circuit update rules, in two
precisions; values are observed between iterations and errors in the returned information.
"""
import os, sys, itertools, math
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P19", assumptions=["0.0259 is the damping limit of log_damp and 1e-10 the smallest denominator of a relative error, as in the manual's description of the defaults"])
d = vc.load_devsim()
import dev as devs, scripted

S = None
INF, NAN = float("inf"), float("nan")
RULES = ("default", "positive", "log_damp")
VT = 0.0259
TINY = False
MIN = 1e-10
RESTNODE = (0.5, 2.0, 4.0)


def world(ext):
    global S
    d.reset_devsim()
    if ext:
        for n in ("extended_model", "extended_equation", "extended_solver"):
            d.set_parameter(name=n, value=True)
    S = scripted.install()
    devs.line("D", (0.0, 1.0, 3.0))
    for r in RULES:
        d.node_solution(device="D", region="R", name="u_" + r)
        d.equation(device="D", region="R", name="E_" + r, variable_name="u_" + r, variable_update=r)
        d.add_circuit_node(name="c_" + r, variable_update=r, value=1.0)
        d.add_circuit_node(name="d_" + r, variable_update=r, value=2.0)
    d.get_matrix_and_rhs()
    rows = {}
    for r in RULES:
        rows["u_" + r] = list(d.get_equation_numbers(device="D", region="R", variable="u_" + r))
        rows["c_" + r] = d.get_circuit_equation_number(node="c_" + r)
        rows["d_" + r] = d.get_circuit_equation_number(node="d_" + r)
    return rows


def observe():
    return ({r: list(d.get_node_model_values(device="D", region="R", name="u_" + r)) for r in RULES},
            {r: d.get_circuit_node_value(node="c_" + r, solution="dcop") for r in RULES})


def exact(x):
    return Fraction(x)


def tofloat(f):
    try:
        return float(f)
    except OverflowError:
        return INF if f > 0 else -INF


def add(o, u):
    """o is a Fraction or non-finite float, u a float; returns the same kind"""
    if isinstance(o, float) or not math.isfinite(u):
        return (float(o) if not isinstance(o, float) else o) + u
    return o + Fraction(u)


def close(a, b, tol, tiny=5e-324):
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + tiny


def damp(u):
    if u != u:
        return NAN
    if abs(u) > VT:
        return math.copysign(VT * math.log(1 + abs(u) / VT), u)
    return u


def newval(rule, circuit, o, u, ext):
    """set of acceptable (predicate) results: returns (kind, expected)"""
    ov = o if isinstance(o, float) else tofloat(o)
    if rule == "default":
        return ("is", ov + u)
    if rule == "log_damp":
        return ("is", ov + damp(u))
    if not ov > 0:
        return ("raise", None)
    s = ov + u
    if ext and not circuit and math.isfinite(u) and math.isfinite(ov):
        s = tofloat(exact(ov) + exact(u)) if s != 0 or exact(ov) + exact(u) == 0 else s
    if math.isinf(ov) and not math.isfinite(u):
        return ("any", None)
    if s != s:
        return ("nan", None)
    if s > 0:
        return ("is", s)
    return ("positive", ov)


def judge(kind, want, got, o, tol):
    if kind == "is":
        return close(got, want, tol)
    if kind == "any":
        return got != got or got > 0
    if kind == "nan":
        return got != got
    return 0 < got <= o or 0 == got and TINY and o < 1e-300


def reldiff(x, y):
    return abs(x - y) / max(abs(x), abs(y), 5e-324)


OLD = (0.0, 1.0, -1.0, 1e-3, 5e-324, 1e-310, 1e-300, 1e20, -1e20, 1e308, 0.0259, -0.0259)
UP0 = (0.0, -0.0, 5e-324, 1e-300, 1e-17, 1e-10, 0.0258, math.nextafter(VT, 0), VT, math.nextafter(VT, 1), 0.026, 1.0, 37.5, 1e10, 1e308, 1.7976931348623157e308)
UPS = tuple(UP0) + tuple(-u for u in UP0 if u) + (INF, -INF, NAN)


def first(o):
    """the lattice plus the cancelling and nearly cancelling updates of this old value"""
    r = [-o, -o / 2, -2 * o, math.nextafter(-o, 0), math.nextafter(-o, -INF), -o * (1 - 1e-9), -o * (1 + 1e-9)]
    return list(dict.fromkeys(list(UPS) + [x for x in r if x not in UPS]))


SECOND = (0.0, -1.0, 1.0, -0.03, 1e-3, -1e308, INF, -INF, NAN)


def ulp_tol(ext):
    return 3e-16


def run(rows, ext, pos, o, u1, u2, active, other):
    """active: rules that get (o, u1, u2) at node pos; the other nodes get o=RESTNODE and the update other"""
    n = max(max(v) if isinstance(v, list) else v for v in rows.values()) + 1
    olds = {}
    for r in RULES:
        vals = list(RESTNODE)
        if r in active:
            vals[pos] = o
        olds[r] = vals
        d.set_node_values(device="D", region="R", name="u_" + r, values=vals)
        d.set_circuit_node_value(solution="dcop", node="c_" + r, value=o if r in active else 1.0)
        d.set_circuit_node_value(solution="dcop", node="d_" + r, value=2.0)
    script = []
    for u in (u1, u2):
        x = [0.0] * n
        for r in RULES:
            for i in range(3):
                x[rows["u_" + r][i]] = other
            x[rows["d_" + r]] = other
            if r in active:
                x[rows["u_" + r][pos]] = u
                x[rows["c_" + r]] = u
        script.append(x)
    script.append([0.0] * n)
    S.load(script, observe)
    try:
        info = d.solve(type="dc", absolute_error=0.0, relative_error=0.0, maximum_error=INF, maximum_iterations=3, info=True)
        err = None
    except d.error as e:
        info, err = None, str(e)
    return olds, S.seen, info, err


def work(item):
    ext, pos, o = item
    rows = world(ext)
    tol = 4.5e-16
    for u1, u2, active in combos(o):
        # conversion between the precisions overflows there
        if ext and any(math.isfinite(u) and abs(u) > 1e300 for u in (u1, u2)):
            continue
        for other in ((0.0, -0.01) if ctx.thorough or u2 == SECOND[0] else (0.0,)):
            ctx.note((ext, pos, o, u1, u2, active, other))
            ctx.count(transitions=2, sequences=1)
            olds, seen, info, err = run(rows, ext, pos, o, u1, u2, active, other)

            def bad(k, what):
                ctx.violation("%s:%s:%s" % (k, "x" if ext else "d", vc.digest((pos, repr(o), repr(u1), repr(u2), active, other))),
                              "%s old %r at node %d, updates %r then %r, rules %s: %s" % ("extended" if ext else "double", o, pos, u1, u2, ",".join(active), what), {"item": item})
            # the values after each iteration
            cur = {("u", r): o for r in active}
            cur.update({("c", r): o for r in active})
            raised = False
            applied = []
            for k, u in enumerate((u1, u2)):
                step = {}
                for (w, r), ov in cur.items():
                    kind, want = newval(r, w == "c", ov, u, ext)
                    if kind == "raise":
                        raised = True
                    step[(w, r)] = (kind, want, ov)
                if raised:
                    break
                if len(seen) < k + 2:
                    return bad("stop", "the solve ended after iteration %d: %s" % (len(seen), err))
                un, cn = seen[k + 1]
                ap = {}
                for (w, r), (kind, want, ov) in step.items():
                    got = un[r][pos] if w == "u" else cn[r]
                    # the extended accumulation may round differently from two double roundings
                    global TINY
                    TINY = ext and w == "u"
                    t = tol if not (ext and w == "u") else 1e-15
                    if r == "log_damp" and math.isfinite(u) and abs(u) > 4e306 and close(got, ov + math.copysign(VT * (math.log(abs(u)) - math.log(VT)), u), 1e-12):
                        want = got
                    if not judge(kind, want, got, ov, t) and not (r == "log_damp" and close(got - ov, want - ov, 1e-14)) and not (ext and w == "u" and k == 1 and kind != "positive" and cancel_ok(o, u1, u2, r, got)):
                        return bad("value", "%s variable %s became %r in iteration %d, expected %s %r" % ("circuit" if w == "c" else "device", r, got, k + 1, kind, want))
                    # below the smallest double the extended value is positive where its double copy is zero
                    if kind == "positive" and not got > 0 and not (ext and w == "u" and 0 <= got <= ov < 1e-300):
                        return bad("value", "positive variable became %r" % got)
                    ap[(w, r)] = (ov, got, u)
                    cur[(w, r)] = got
                for r in RULES:
                    for i in range(3):
                        if i == pos and r in active:
                            continue
                        e = olds[r][i] + (k + 1) * other
                        if not close(un[r][i], e, 1e-15):
                            return bad("othernode", "node %d of %s became %r, expected %r" % (i, r, un[r][i], e))
                applied.append((ap, un, cn))
            raised = raised or any(r == "positive" and not v > 0 and not (ext and w == "u" and v == 0) for (w, r), v in cur.items())
            if raised:
                if err is None:
                    return bad("noraise", "an update of a positive variable from a value that is not positive did not fail")
                ctx.count(raised=1)
            elif err is not None:
                return bad("error", "the solve raised " + err)
            else:
                r = errors(ext, pos, olds, applied, info, active, other, (u1, u2))
                if r:
                    return bad("errors", r)
                if info["converged"]:
                    return bad("converged", "converged with zero limits")
            un, cn = observe()
            for r in RULES:
                want = olds[r]
                if [repr(x) for x in un[r]] != [repr(x) for x in want] or repr(cn[r]) != repr(o if r in active else 1.0):
                    return bad("restore", "%s left at %r and %r" % (r, un[r], cn[r]))
            ctx.state("cases", repr((ext, pos, o, u1, u2, active, other)))


def cancel_ok(o, u1, u2, r, got):
    """in extended precision the sum is rounded once"""
    if r == "log_damp":
        s = exact(o) if math.isfinite(o) else None
        v = [damp(u1), damp(u2)]
        tolr = 1e-14 * max(abs(v[0]), abs(v[1]))
    else:
        v = [u1, u2]
        tolr = 0.0
    if not all(map(math.isfinite, v + [o])):
        return got != got or math.isinf(got)
    e = tofloat(exact(o) + exact(v[0]) + exact(v[1]))
    # 113 bits of significand
    return abs(got - e) <= tolr + 1e-33 * max(abs(o), abs(v[0]), abs(v[1])) + 4.5e-16 * abs(e)


def huge(u):
    return math.isfinite(u) and abs(u) > 4e306


def errors(ext, pos, olds, applied, info, active, other, us):
    """the reported errors are those of the applied update"""
    its = info["iterations"]
    if len(its) != 3:
        return "%d iterations reported" % len(its)
    for k, (ap, un, cn) in enumerate(applied):
        dv = its[k]["devices"][0]
        eqs = {e["name"]: e for e in dv["regions"][0]["equations"]}
        for r in RULES:
            e = eqs["E_" + r]
            # the quotient of the damping rule overflows in double
            if r in active and (huge(us[k]) and r == "log_damp" or not math.isfinite(ap[("u", r)][0])):
                continue
            ups, rel = [], []
            loose = 1e-12
            for i in range(3):
                if i == pos and r in active:
                    ov, got, u = ap[("u", r)]
                    a = abs(damp(u)) if r == "log_damp" else abs(u)
                    if r == "positive" and not (ov + u > 0) and u == u:
                        a = abs(got - ov)
                    nv = got
                else:
                    a, nv = abs(other), un[r][i]
                ups.append(a)
                rel.append(a / (abs(nv) + MIN) if math.isfinite(nv) and math.isfinite(a) else (NAN if a != a or nv != nv or math.isinf(a) else 0.0))
            if any(x != x for x in ups):
                if e["absolute_error"] == e["absolute_error"] and e["relative_error"] == e["relative_error"]:
                    return "iteration %d %s: an update that is not a number is reported as errors %r %r" % (k + 1, r, e["absolute_error"], e["relative_error"])
                continue
            if not close(e["absolute_error"], max(ups), loose, 1e-300):
                return "iteration %d %s: absolute error %r, expected %r" % (k + 1, r, e["absolute_error"], max(ups))
            if not close(ups[e["absolute_error_node"]], max(ups), loose, 1e-300):
                return "iteration %d %s: absolute error node %d has %r, the largest is %r" % (k + 1, r, e["absolute_error_node"], ups[e["absolute_error_node"]], max(ups))
            if any(x != x for x in rel):
                continue
            # cancellation in extended precision makes the new value itself more exact than its double copy
            if ext and r in active and reldiff(e["relative_error"], max(rel)) > loose:
                ov, got, u = ap[("u", r)]
                if math.isfinite(ov) and math.isfinite(u) and abs(got) < 1e-12 * abs(u):
                    continue
            if not close(e["relative_error"], max(rel), loose, 1e-300):
                return "iteration %d %s: relative error %r, expected %r" % (k + 1, r, e["relative_error"], max(rel))
            if not close(rel[e["relative_error_node"]], max(rel), loose, 1e-300):
                return "iteration %d %s: relative error node %d has %r, the largest is %r" % (k + 1, r, e["relative_error_node"], rel[e["relative_error_node"]], max(rel))
        if "log_damp" in active and huge(us[k]) or any(not math.isfinite(ap[("c", r)][0]) for r in active):
            continue
        c = its[k]["circuit"]
        a, rr = 0.0, 0.0
        nan = False
        for r in RULES:
            l = [(abs(other), 2.0 + (k + 1) * other)]
            if r in active:
                ov, got, u = ap[("c", r)]
                x = abs(damp(u)) if r == "log_damp" else abs(u)
                if r == "positive" and not (ov + u > 0) and u == u:
                    x = abs(got - ov)
                l.append((x, got))
            for x, nv in l:
                a += x
                q = x / (abs(nv) + MIN) if math.isfinite(x) else NAN
                nan = nan or q != q
                rr = max(rr, q) if q == q else rr
        if not close(c["absolute_error"], a, 1e-12, 1e-300):
            return "iteration %d circuit: absolute error %r, expected %r" % (k + 1, c["absolute_error"], a)
        if not nan and not close(c["relative_error"], rr, 1e-12, 1e-300):
            return "iteration %d circuit: relative error %r, expected %r" % (k + 1, c["relative_error"], rr)


def combos(o):
    act = tuple(r for r in RULES if r != "positive" or o > 0)
    for u1 in first(o):
        for u2 in SECOND if not ctx.thorough else UPS:
            if not math.isfinite(u1) or u2 == 0.0 or ctx.thorough:
                pass
            yield u1, u2, act
            if u2 == 0.0:
                for r in act:
                    yield u1, u2, (r,)
    if not o > 0:
        for u1 in (0.0, 1.0, -1.0, NAN, INF):
            yield u1, 0.0, ("positive",)


def items(thorough):
    return [(ext, pos, o) for ext in (False, True) for pos in range(3) for o in OLD if not (ext and (abs(o) > 1e300 or 0 < abs(o) < 1e-305))]


if __name__ == "__main__":
    ctx.run(items(ctx.thorough), work, "update", setup=vc.quiet, timeout=30)
    s = ctx.stats
    ctx.finish(len(ctx.sets.get("cases", ())), s.get("transitions", 0), s.get("sequences", 0),
               "every old value x first update x second update of the lattice, at every node, for six update rules, in two precisions; values after each iteration, error norms, failure and restoration compared with the rules")
