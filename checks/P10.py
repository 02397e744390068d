#!/usr/bin/env python3
"""P10: equation numbers are a bijection onto rows at all times.

Explicit-state exploration: every history of the stated depth over adding, replacing and deleting
bulk, contact and interface equations, devices and circuit nodes, from three base states, run on the
implementation and on a reference table.  After every history the simulator numbers its equations and
lists, commands, variable lookups, rows and the assembled values are compared.
"""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc
vc.prepare()
ctx = vc.Ctx("P10", assumptions=["rows are compared after the simulator numbered its equations (assembly)"])
d = vc.load_devsim()
import dev as devs

ND = {"R0": 4, "R1": 3}
REGS = ("R0", "R1")
CONST = {}          # model name -> value, distinct powers so that every sum tells which equations took part


def const(name):
    if name not in CONST:
        CONST[name] = float(3 ** len(CONST))
    return CONST[name]


for r in REGS:
    for e in ("E0", "E1", "E2"):
        for v in ("u", "w"):
            const("b_%s_%s_%s" % (r, e, v))
    const("b_%s_E2_t" % r)
for c in ("c0", "c1"):
    for e in ("E0", "E1"):
        const("c_%s_%s" % (c, e))
for e in ("E0", "I"):
    const("i_" + e)

OPS = [("eq", r, e, v, up) for r in REGS for e, v, up in (("E0", "u", "default"), ("E1", "w", "positive"), ("E0", "w", "log_damp"), ("E2", "u", "default"))]
OPS += [("del", r, e) for r in REGS for e in ("E0", "E1")]
OPS += [("ceq", "c0", "E0"), ("ceq", "c0", "E1"), ("ceq", "c1", "E0"), ("cdel", "c0", "E0"), ("cdel", "c0", "E1")]
OPS += [("ieq", "E0", None, None), ("ieq", "I", "E0", "E1"), ("idel", "E0"), ("idel", "I")]
OPS += [("dev+",), ("dev-",), ("cnode", "n1"), ("cel",), ("calias",), ("cdelete",), ("number",)]
OPS3 = [("eq", r, "E2", "t", "default") for r in REGS] + [("del", r, "E2") for r in REGS]
BASES = {
    "three": tuple(("eq", "R0", e, v, "default") for e, v in (("E1", "w"), ("E0", "u"), ("E2", "t"))) + tuple(("eq", "R1", e, v, "default") for e, v in (("E2", "t"), ("E0", "u"), ("E1", "w"))) + (("number",), ("ceq", "c0", "E0"), ("ieq", "I", "E0", "E1")),
    "empty": (),
    "full": (OPS[0], OPS[1], OPS[4], OPS[5], ("number",), ("ceq", "c0", "E0"), ("ieq", "I", "E0", "E1")),
    "mixed": (("dev+",), ("cel",), ("eq", "R0", "E1", "w", "default"), ("eq", "R0", "E0", "u", "default"), ("eq", "R1", "E0", "u", "positive"), ("ieq", "E0", None, None), ("number",)),
}


class Ref:
    def __init__(self):
        self.eq = {r: [] for r in REGS}         # [(name, var, update)]
        self.ceq = {"c0": [], "c1": []}
        self.ieq = {}
        self.dev = False
        self.nodes = {}                          # circuit nodes that need a row
        self.alias = {}

    def apply(self, op):
        """None if any outcome that keeps the tables consistent is accepted, else whether it must succeed"""
        k = op[0]
        if k == "eq":
            l = self.eq[op[1]]
            other = [x for x in l if x[1] == op[3] and x[0] != op[2]]
            if other:
                return False
            for i, x in enumerate(l):
                if x[0] == op[2]:
                    l[i] = op[2:]
                    return True
            l.append(op[2:])
            return True
        if k == "del":
            l = self.eq[op[1]]
            n = [x for x in l if x[0] != op[2]]
            ok = len(n) != len(l)
            self.eq[op[1]] = n
            return ok
        if k == "ceq":
            if op[2] not in self.ceq[op[1]]:
                self.ceq[op[1]].append(op[2])
            return True
        if k == "cdel":
            if op[2] in self.ceq[op[1]]:
                self.ceq[op[1]].remove(op[2])
                return True
            return False
        if k == "ieq":
            self.ieq[op[1]] = (op[2] or op[1], op[3] or op[1])
            return True
        if k == "idel":
            return self.ieq.pop(op[1], None) is not None
        if k == "dev+":
            ok = not self.dev
            self.dev = True
            return ok
        if k == "dev-":
            ok = self.dev
            self.dev = False
            return ok
        return None


def mkdev(dev):
    devs.line2(dev, (0.0, 0.5, 1.0, 3.0, 4.0, 6.0), 3)
    for r in REGS:
        for v in ("u", "w", "t"):
            d.node_solution(device=dev, region=r, name=v)
        for e in ("E0", "E1", "E2"):
            for v in ("u", "w", "t") if e == "E2" else ("u", "w"):
                n = "b_%s_%s_%s" % (r, e, v)
                d.node_model(device=dev, region=r, name=n, equation="%r" % const(n))
    for c, r in (("c0", "R0"), ("c1", "R1")):
        for e in ("E0", "E1"):
            d.node_model(device=dev, region=r, name="c_%s_%s" % (c, e), equation="%r" % const("c_%s_%s" % (c, e)))
    for e in ("E0", "I"):
        d.interface_model(device=dev, interface="i0", name="i_" + e, equation="%r" % const("i_" + e))


def real(op):
    k = op[0]
    if k == "eq":
        d.equation(device="D", region=op[1], name=op[2], variable_name=op[3], variable_update=op[4], node_model="b_%s_%s_%s" % (op[1], op[2], op[3]))
    elif k == "del":
        d.delete_equation(device="D", region=op[1], name=op[2])
    elif k == "ceq":
        d.contact_equation(device="D", contact=op[1], name=op[2], node_model="c_%s_%s" % op[1:])
    elif k == "cdel":
        d.delete_contact_equation(device="D", contact=op[1], name=op[2])
    elif k == "ieq":
        kw = {"name0": op[2], "name1": op[3]} if op[2] else {}
        d.interface_equation(device="D", interface="i0", name=op[1], type="fluxterm", interface_model="i_" + op[1], **kw)
    elif k == "idel":
        d.delete_interface_equation(device="D", interface="i0", name=op[1])
    elif k == "dev+":
        try:
            devs.line("B", (0.0, 1.0))
        except d.error:
            if "B" in d.get_mesh_list():
                try:
                    d.create_device(mesh="B", device="B")
                except d.error:
                    raise
            else:
                raise
        d.node_solution(device="B", region="R", name="u")
        d.node_model(device="B", region="R", name="bm", equation="7")
        d.equation(device="B", region="R", name="EB", variable_name="u", node_model="bm")
    elif k == "dev-":
        d.delete_device(device="B")
        d.delete_mesh(mesh="B")
    elif k == "cnode":
        d.add_circuit_node(name=op[1], value=0.25)
    elif k == "cel":
        d.circuit_element(name="V1", n1="n2", n2="0", value=1.0)
    elif k == "calias":
        d.circuit_node_alias(node="n1", alias="n9")
    elif k == "cdelete":
        d.delete_circuit()
    elif k == "number":
        d.get_matrix_and_rhs()


EDGE = {}


def check(hist, ref, key):
    def bad(what):
        ctx.violation(key(what), "after %s: %s" % (hist, what))
        return True
    live = {"D": {r: ref.eq[r] for r in REGS}}
    if ref.dev:
        live["B"] = {"R": [("EB", "u", "default")]}
    if sorted(d.get_device_list()) != sorted(live):
        return bad("devices are %s" % (d.get_device_list(),))
    dangling = any(all(x[0] != e for x in ref.eq[r]) for c, r in (("c0", "R0"), ("c1", "R1")) for e in ref.ceq[c]) or \
        any(all(x[0] != n for x in ref.eq[r]) for p in ref.ieq.values() for n, r in zip(p, REGS))
    try:
        m = d.get_matrix_and_rhs(format="csr")
    except d.error as e:
        m = None
        if not str(e).strip():
            return bad("get_matrix_and_rhs failed without a message")
        if not dangling:
            return bad("get_matrix_and_rhs failed: %s" % str(e)[:200])
    # lists and commands
    for dev in live:
        for r, l in live[dev].items():
            got = list(d.get_equation_list(device=dev, region=r))
            if got != [x[0] for x in l]:
                return bad("get_equation_list %s %s is %s, live equations are %s" % (dev, r, got, l))
            for n, v, up in l:
                c = d.get_equation_command(device=dev, region=r, name=n)
                want = {"name": n, "variable_name": v, "variable_update": up, "device": dev, "region": r, "node_model": "bm" if dev == "B" else "b_%s_%s_%s" % (r, n, v)}
                for k, x in want.items():
                    if c.get(k) != x:
                        return bad("get_equation_command %s %s: %s is %r, must be %r" % (r, n, k, c.get(k), x))
            for n in {"E0", "E1", "E2"} - {x[0] for x in l}:
                try:
                    d.get_equation_command(device=dev, region=r, name=n)
                    return bad("get_equation_command of missing %s %s succeeded" % (r, n))
                except d.error:
                    pass
    for c in ("c0", "c1"):
        got = list(d.get_contact_equation_list(device="D", contact=c))
        if sorted(got) != sorted(ref.ceq[c]):
            return bad("get_contact_equation_list %s is %s, must be %s" % (c, got, ref.ceq[c]))
        for n in got:
            cmd = d.get_contact_equation_command(device="D", contact=c, name=n)
            if cmd.get("node_model") != "c_%s_%s" % (c, n) or cmd.get("name") != n:
                return bad("get_contact_equation_command %s %s is %s" % (c, n, cmd))
    got = list(d.get_interface_equation_list(device="D", interface="i0"))
    if sorted(got) != sorted(ref.ieq):
        return bad("get_interface_equation_list is %s, must be %s" % (got, sorted(ref.ieq)))
    for n in got:
        cmd = d.get_interface_equation_command(device="D", interface="i0", name=n)
        if (cmd.get("name0"), cmd.get("name1")) != ref.ieq[n] or cmd.get("interface_model") != "i_" + n:
            return bad("get_interface_equation_command %s is %s, must couple %s" % (n, cmd, ref.ieq[n]))
    # rows
    rows = {}
    for dev in live:
        for r, l in live[dev].items():
            nn = 2 if dev == "B" else ND[r]
            for n, v, up in l:
                a = list(d.get_equation_numbers(device=dev, region=r, equation=n))
                b = list(d.get_equation_numbers(device=dev, region=r, variable=v))
                if a != b or len(a) != nn:
                    return bad("equation numbers of %s %s by equation %s, by variable %s" % (r, n, a, b))
                for i, x in enumerate(a):
                    if x in rows:
                        return bad("row %d belongs to %s and %s" % (x, rows[x], (dev, r, n, i)))
                    rows[x] = (dev, r, n, i)
            for v in {"u", "w", "t", "q"} - {x[1] for x in l}:
                try:
                    a = d.get_equation_numbers(device=dev, region=r, variable=v)
                    return bad("get_equation_numbers for variable %s without equation on %s is %s" % (v, r, list(a)))
                except d.error:
                    pass
            for n in {"E0", "E1", "E2"} - {x[0] for x in l}:
                try:
                    a = d.get_equation_numbers(device=dev, region=r, equation=n)
                    return bad("get_equation_numbers for missing equation %s on %s is %s" % (n, r, list(a)))
                except d.error:
                    pass
    cn = [n for n in d.get_circuit_node_list() if n not in ("0", "GND")]
    alias = {}
    for n in cn:
        x = d.get_circuit_equation_number(node=n)
        if x < 0:
            return bad("circuit node %s has no row" % n)
        if x in rows:
            if rows[x][0] == "circuit" and "n9" in (n, rows[x][1]) and "n1" in (n, rows[x][1]):
                continue
            return bad("row %d belongs to %s and circuit node %s" % (x, rows[x], n))
        rows[x] = ("circuit", n)
    for n in ("0", "GND") if cn else ():
        try:
            if d.get_circuit_equation_number(node=n) != -1:
                return bad("ground has a row")
        except d.error:
            pass
    if sorted(rows) != list(range(len(rows))):
        return bad("rows are %s: not consecutive from zero" % sorted(rows))
    if m is not None:
        if len(m["static"]["rhs"]) != len(rows):
            return bad("system has %d rows, %d equations are live" % (len(m["static"]["rhs"]), len(rows)))
        rhs = m["static"]["rhs"]
        inv = {v: k for k, v in rows.items()}
        want = {}
        for dev in live:
            for r, l in live[dev].items():
                nv = EDGE.get((dev, r)) or EDGE.setdefault((dev, r), list(d.get_node_model_values(device=dev, region=r, name="NodeVolume")))
                con = {"R0": ("c0", 0), "R1": ("c1", 2)}.get(r)
                for n, v, up in l:
                    for i, vol in enumerate(nv):
                        x = (7.0 if dev == "B" else const("b_%s_%s_%s" % (r, n, v))) * vol
                        if dev == "D" and con[1] == i and n in ref.ceq[con[0]]:
                            x = const("c_%s_%s" % (con[0], n)) * vol
                        want[(dev, r, n, i)] = x
        if not dangling:
            for n, (a, b) in ref.ieq.items():
                # two interface equations may couple the same equation: both add
                want[("D", "R0", a, 3)] += const("i_" + n)
                want[("D", "R1", b, 0)] -= const("i_" + n)
            for k, x in want.items():
                g = -rhs[inv[k]]
                if not abs(g - x) <= 1e-12 * (abs(x) + 1.0):
                    return bad("row of %s assembles %r, the live equations give %r" % (k, g, x))
    ctx.state("tables", repr((ref.eq, ref.ceq, ref.ieq, ref.dev, sorted(cn))))
    return False


def work(item):
    base, ops = item
    ctx.note(item)
    d.reset_devsim()
    EDGE.clear()
    mkdev("D")
    ref = Ref()
    hist = list(BASES[base]) + list(ops)
    ctx.count(histories=1)
    for k, op in enumerate(hist):
        n0 = (sorted(d.get_circuit_node_list()), sorted(d.get_mesh_list()))
        want = ref.apply(tuple(op))
        try:
            real(tuple(op))
            ok = True
        except d.error as e:
            ok = False
            if not str(e).strip():
                ctx.violation("silent:%s" % op[0], "%s: %s failed without a message" % (hist, op))
                return
        ctx.count(transitions=1)
        if want is not None and ok != want:
            ctx.violation("outcome:%s:%s" % (op[0], want), "after %s: %s %s, must %s" % (hist[:k], op, "succeeded" if ok else "failed", "succeed" if want else "fail"))
            return
    if check(hist, ref, lambda what: "%s:%s" % (vc.digest(hist), what[:60])):
        return


def items(thorough):
    out = []
    for b in BASES:
        depth = (4 if b == "full" else 3) if thorough else (3 if b != "mixed" else 2)
        if b == "three":
            depth = 3 if thorough else 2
        for n in range(depth + 1):
            out += [(b, x) for x in itertools.product(OPS + OPS3 if b == "three" else OPS, repeat=n) if n < 4 or x[0][0] not in ("cnode", "cel", "calias", "cdelete", "number")]
    return out


if __name__ == "__main__":
    ctx.run(items(ctx.thorough), work, "history", setup=vc.quiet, timeout=120)
    ctx.finish(len(ctx.sets.get("tables", ())), ctx.stats.get("transitions", 0), ctx.stats.get("histories", 0),
               "every history over %d operations to depth 3 (quick: 2 from the mixed base; thorough: 4 from the full base) from %d bases" % (len(OPS), len(BASES)))
