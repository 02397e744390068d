#!/usr/bin/env python3
"""P20: convergence is reported exactly when the criteria are met.

The Newton loop is driven by a scripted solver callback. Every sequence of update classes (zero, below both
limits, exactly at a limit, above the absolute only, above the relative only, growing, beyond the maximum
error, not a number) for two devices (three equations, two regions) and the circuit is run under every
setting of the iteration, divergence and error limits, and the verdict, the number of iterations used, the
iteration records and the final state are compared with a reference automaton written from the manual.
"""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P20", assumptions=["the error of a region is the sum over its equations, the absolute error of a device the largest of its regions and its relative error their sum, the circuit's absolute error the sum over its nodes, as printed by the simulator",
                                 "a device diverges in an iteration when one of its errors is above its limit and larger than in the previous iteration (zero before the first)"])
d = vc.load_devsim()
import dev as devs, scripted
S = None
NAN = float("nan")
ABS, REL, MAX = 2.0 ** -6, 2.0 ** -10, 4096.0
MIN = 1e-10

# units that get an update: (name, owner, start value)
UNITS = ("A:u", "A:w", "B:R0:v", "B:R1:v", "C:n", "C:m")
DEV = {"A": ("A:u", "A:w"), "B": ("B:R0:v", "B:R1:v")}


def start(kind):
    return {"big": 2.0 ** 20, "small": 2.0 ** -9}[kind]


def world(ext):
    global S
    d.reset_devsim()
    if ext:
        for n in ("extended_model", "extended_equation", "extended_solver"):
            d.set_parameter(name=n, value=True)
    S = scripted.install()
    devs.line("A", (0.0, 1.0))
    devs.line2("B", (0.0, 1.0, 2.0), 1)
    for v in "uw":
        d.node_solution(device="A", region="R", name=v)
        d.equation(device="A", region="R", name="E" + v, variable_name=v)
    for r in ("R0", "R1"):
        d.node_solution(device="B", region=r, name="v")
        d.equation(device="B", region=r, name="Ev", variable_name="v")
    d.add_circuit_node(name="n", variable_update="default", value=0.0)
    d.add_circuit_node(name="m", variable_update="default", value=0.0)
    d.get_matrix_and_rhs()
    rows = {"A:u": d.get_equation_numbers(device="A", region="R", variable="u"), "A:w": d.get_equation_numbers(device="A", region="R", variable="w"),
            "B:R0:v": d.get_equation_numbers(device="B", region="R0", variable="v"), "B:R1:v": d.get_equation_numbers(device="B", region="R1", variable="v"),
            "C:n": (d.get_circuit_equation_number(node="n"),), "C:m": (d.get_circuit_equation_number(node="m"),)}
    return {k: list(v) for k, v in rows.items()}


def put(unit, values):
    p = unit.split(":")
    if p[0] == "C":
        d.set_circuit_node_value(node=p[1], solution="dcop", value=values[0])
    else:
        d.set_node_values(device=p[0], region="R" if p[0] == "A" else p[1], name=p[-1], values=values)


def get(unit):
    p = unit.split(":")
    if p[0] == "C":
        return [d.get_circuit_node_value(node=p[1], solution="dcop")]
    return list(d.get_node_model_values(device=p[0], region="R" if p[0] == "A" else p[1], name=p[-1]))


def err(unit, vals, ups):
    """error of one equation (or of the circuit's node): the vals after the update"""
    a = r = 0.0
    for v, u in zip(vals, ups):
        n1, n2 = abs(u), abs(v)
        q = n1 / (n2 + MIN)
        if n1 != n1 or n2 != n2:
            return NAN, NAN
        a, r = max(a, n1), max(r, q)
    return a, r


def nmax(*l):
    return NAN if any(x != x for x in l) else max(l)


class Ref:
    """the verdict automaton"""
    def __init__(self, vals, absl, rell, maxl, maxit, maxdiv):
        self.v = {k: list(x) for k, x in vals.items()}
        self.o = (absl, rell, maxl, maxit, maxdiv)

    def run(self, script):
        absl, rell, maxl, maxit, maxdiv = self.o
        last = {x: (0.0, 0.0) for x in DEV}
        div, hit, conv, records = 0, False, False, []
        for it in range(maxit):
            if conv or div >= maxdiv or hit:
                break
            ups = script[it]
            for u in UNITS:
                self.v[u] = [a + b for a, b in zip(self.v[u], ups[u])]
            rec = {}
            conv, anydiv = True, False
            for x in DEV:
                e = {u: err(u, self.v[u], ups[u]) for u in DEV[x]}
                if x == "A":
                    regs = {"R": (sum(e[u][0] for u in e), sum(e[u][1] for u in e))}
                else:
                    regs = {"R0": e["B:R0:v"], "R1": e["B:R1:v"]}
                da = nmax(*[q[0] for q in regs.values()])
                dr = sum(q[1] for q in regs.values())
                rec[x] = (da, dr, regs, e)
                if dr > rell and dr > last[x][1] or da > absl and da > last[x][0]:
                    anydiv = True
                last[x] = (da, dr)
                conv = conv and dr < rell and da < absl
                hit = hit or da > maxl
            ce = [err(u, self.v[u], ups[u]) for u in ("C:n", "C:m")]
            ca, cr = sum(q[0] for q in ce), nmax(*[q[1] for q in ce])
            rec["C"] = (ca, cr)
            conv = conv and cr < rell and ca < absl
            hit = hit or ca > maxl
            div = div + 1 if anydiv else 0
            records.append(rec)
        return conv, records


# classes of updates of a unit whose value is about v
def update(cls, v, it):
    if cls == "0": return 0.0
    if cls == "s": return min(ABS / 16, REL * abs(v) / 16)
    if cls == "A": return 2.0 * ABS * (1 + it)            # with a big value only the absolute limit is missed, and growing
    if cls == "a": return 8.0 * ABS / (2.0 ** it)         # the same, but shrinking
    if cls == "e": return ABS                              # exactly at the limit
    if cls == "r": return abs(v) / 4                       # with a small value only the relative limit is missed
    if cls == "M": return 2.0 * MAX
    if cls == "m": return MAX                              # at the limit, not beyond
    if cls == "n": return NAN
    raise AssertionError(cls)


ALPHA = "0saAerMmn"


def work(item):
    ext, kind, opts, firsts = item
    rows = world(ext)
    n = max(max(v) for v in rows.values()) + 1
    for word in words(kind, opts, firsts, 2 if ext and not ctx.thorough else 9):
        ctx.note((ext, kind, opts, word))
        ctx.count(sequences=1)
        absl, rell, maxl, maxit, maxdiv = opts
        vals = {}
        for u in UNITS:
            v = start("small" if u in SMALL[kind] else "big")
            vals[u] = [v * (1 + i) for i in range(len(rows[u]))]
            put(u, vals[u])
        script, ref = [], []
        cur = {u: list(v) for u, v in vals.items()}
        for it in range(max(maxit, 1) + 1):
            letters = word[it] if it < len(word) else word[-1]
            ups = {}
            for u, c in zip(UNITS, letters):
                # all nodes of a unit get an update, the last one the largest
                x = update(c, cur[u][-1], it)
                ups[u] = [x / 2 if len(rows[u]) > 1 and i == 0 and c != "n" else x for i in range(len(rows[u]))]
                cur[u] = [a + b for a, b in zip(cur[u], ups[u])]
            ref.append(ups)
            x = [0.0] * n
            for u in UNITS:
                for i, row in enumerate(rows[u]):
                    x[row] = ups[u][i]
            script.append(x)
        S.load(script)
        r = Ref(vals, *opts)
        conv, records = r.run(ref)
        for info in (True, False) if len(firsts) == 1 or ctx.thorough else (True,):
            S.load(script)
            kw = dict(type="dc", absolute_error=absl, relative_error=rell, maximum_error=maxl, maximum_iterations=maxit, maximum_divergence=maxdiv)
            try:
                out = d.solve(info=True, **kw) if info else d.solve(**kw)
                msg = None
            except d.error as e:
                out, msg = None, str(e)

            def bad(k, what):
                ctx.violation("%s:%s" % (k, vc.digest((ext, kind, opts, word, info))), "%s precision, %s, limits abs %g rel %g max %g iterations %d divergence %d, updates (%s) %s: %s" % (
                    "extended" if ext else "double", kind, absl, rell, maxl, maxit, maxdiv, " ".join(UNITS), " / ".join(word), what), {"item": item})
            ctx.count(transitions=max(1, len(records)))
            if any(x != x for rec in records for x in rec["A"][:2] + rec["B"][:2] + rec["C"]):
                # it must fail, by whatever report, and leave the state as it was
                ctx.count(not_a_number=1)
                if msg is None and (not info or out["converged"]):
                    return bad("nan", "success is reported after an update that is not a number")
                if any(not close(a, b) for u in UNITS for a, b in zip(get(u), vals[u])):
                    return bad("state", "the state is not the one before the solve")
                continue
            if S.k != len(records):
                return bad("count", "%d linear solves, expected %d" % (S.k, len(records)))
            if info:
                if msg is not None:
                    return bad("raised", "raised " + msg)
                if out["converged"] is not conv:
                    return bad("verdict", "converged is %s, expected %s; errors %s" % (out["converged"], conv, [(x["A"][:2], x["B"][:2], x["C"]) for x in records]))
                w = check(out, records, n)
                if w:
                    return bad("record", w)
            elif (msg is None) != conv:
                return bad("verdict", "%s, expected %s" % (msg or "returned normally", "success" if conv else "an error"))
            for u in UNITS:
                want = r.v[u] if conv else vals[u]
                got = get(u)
                if not all(close(a, b) for a, b in zip(got, want)):
                    return bad("state", "%s is %r, expected %r" % (u, got, want))
            for u in UNITS:
                put(u, vals[u])
            ctx.state("cases", repr((ext, kind, opts, word)))
        ctx.state("verdicts", repr((conv, len(records), tuple(opts))))


def close(a, b):
    return a != a and b != b or a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def check(out, records, n):
    if out.get("number_of_equations") != n:
        return "number of equations %r, expected %d" % (out.get("number_of_equations"), n)
    its = out["iterations"]
    if len(its) != len(records):
        return "%d iterations recorded, expected %d" % (len(its), len(records))
    for k, (o, rec) in enumerate(zip(its, records)):
        if o["iteration"] != k:
            return "iteration %d is numbered %r" % (k, o["iteration"])
        if not (close(o["circuit"]["absolute_error"], rec["C"][0]) and close(o["circuit"]["relative_error"], rec["C"][1])) and rec["C"][0] == rec["C"][0]:
            return "iteration %d circuit errors %r, expected %r" % (k, o["circuit"], rec["C"])
        dv = {x["name"]: x for x in o["devices"]}
        if sorted(dv) != ["A", "B"]:
            return "iteration %d devices %s" % (k, sorted(dv))
        for x in DEV:
            da, dr, regs, e = rec[x]
            if not (close(dv[x]["absolute_error"], da) and close(dv[x]["relative_error"], dr)):
                return "iteration %d device %s errors %r %r, expected %r %r" % (k, x, dv[x]["absolute_error"], dv[x]["relative_error"], da, dr)
            rg = {y["name"]: y for y in dv[x]["regions"]}
            if sorted(rg) != sorted(regs):
                return "iteration %d device %s regions %s" % (k, x, sorted(rg))
            for y in regs:
                if not (close(rg[y]["absolute_error"], regs[y][0]) and close(rg[y]["relative_error"], regs[y][1])):
                    return "iteration %d region %s errors %r %r, expected %r" % (k, y, rg[y]["absolute_error"], rg[y]["relative_error"], regs[y])
                eqs = {z["name"]: z for z in rg[y]["equations"]}
                exp = {"Eu": e["A:u"], "Ew": e["A:w"]} if x == "A" else {"Ev": e["B:%s:v" % y]}
                if sorted(eqs) != sorted(exp):
                    return "iteration %d equations %s" % (k, sorted(eqs))
                for q in exp:
                    if not (close(eqs[q]["absolute_error"], exp[q][0]) and close(eqs[q]["relative_error"], exp[q][1])):
                        return "iteration %d equation %s errors %r %r, expected %r" % (k, q, eqs[q]["absolute_error"], eqs[q]["relative_error"], exp[q])


SMALL = {"big": (), "small": UNITS, "mixed": ("A:w", "B:R1:v", "C:m")}
BIG = 1e300
OPTS = [(ABS, REL, BIG, 3, 20), (ABS, REL, BIG, 1, 20), (ABS, REL, BIG, 4, 1), (ABS, REL, BIG, 4, 2), (ABS, REL, MAX, 4, 20), (ABS, REL, MAX, 4, 2),
        (ABS, REL, BIG, 0, 20), (ABS, REL, BIG, 3, 0), (0.0, REL, BIG, 2, 20), (ABS, 0.0, BIG, 2, 20), (BIG, REL, BIG, 2, 20), (ABS, BIG, BIG, 2, 20)]


# the counting of diverging iterations in a row: longer sequences of growing and shrinking errors
LONG = [(ABS, REL, BIG, 7, 2), (ABS, REL, BIG, 7, 3), (ABS, REL, BIG, 7, 4)]


def letters(active):
    """all assignments of classes to the units in active, zero elsewhere"""
    for c in itertools.product(ALPHA, repeat=len(active)):
        yield "".join(c[active.index(u)] if u in active else "0" for u in UNITS)


def words(kind, opts, active, limit):
    maxit = opts[3]
    if opts in LONG:
        for w in itertools.product("Aa0" if ctx.thorough and len(active) == 1 else "Aa", repeat=(len(active) * (maxit - 1 if len(active) == 1 else 4))):
            c = [w[i:i + len(active)] for i in range(0, len(w), len(active))]
            yield tuple("".join(x[active.index(u)] if u in active else "0" for u in UNITS) for x in c)
        return
    depth = min(max(maxit, 1), 3 if ctx.thorough else 2 if len(active) > 1 else 3)
    if len(active) == 1:
        depth = min(max(maxit, 1), 4 if ctx.thorough else 3)
    l = list(letters(active))
    if len(active) == 2 and depth == 3 and not ctx.thorough:
        depth = 2
    if len(active) == 3:
        depth = 1 if not ctx.thorough else min(depth, 2)
    for w in itertools.product(l, repeat=min(depth, limit)):
        if len(active) > 1 and any(all(x[UNITS.index(u)] == "0" for x in w) for u in active):
            continue    # covered with fewer active units
        yield w


def items(thorough):
    out = []
    pairs = list(itertools.combinations(UNITS, 2))
    few = [("A:u", "A:w"), ("A:u", "B:R0:v"), ("A:w", "B:R1:v"), ("B:R0:v", "B:R1:v"), ("A:u", "C:n"), ("B:R1:v", "C:m"), ("C:n", "C:m")]
    act = [(u,) for u in UNITS] + (pairs if thorough else few) + list(itertools.combinations(UNITS, 3))
    for ext in (False, True):
        for kind in SMALL:
            for o in OPTS:
                for a in act:
                    if len(a) == 1 and kind == "mixed":
                        continue    # the same as big or small
                    if not thorough and (ext and len(a) > 1 and (o != OPTS[3] or kind != "mixed")):
                        continue
                    if not thorough and len(a) == 2 and (kind != "mixed" or o not in (OPTS[3], OPTS[5])):
                        continue
                    if len(a) == 3 and (o not in OPTS[:3] or not thorough and kind != "mixed" or kind == "small"):
                        continue
                    out.append((ext, kind, o, a))
        for o in LONG:
            for a in [(u,) for u in UNITS] + [("A:w", "B:R1:v"), ("A:u", "A:w")]:
                if not ext or len(a) == 1:
                    out.append((ext, "big", o, a))
    return out


if __name__ == "__main__":
    ctx.run(items(ctx.thorough), work, "verdict", setup=vc.quiet, timeout=200)
    s = ctx.stats
    ctx.finish(len(ctx.sets.get("cases", ())), s.get("transitions", 0), s.get("sequences", 0),
               "every sequence of update classes for every choice of up to three of the six equations and circuit nodes, under every limit setting; verdict, iteration count, records and final values compared with the automaton")
