"""A solver callback that answers every linear solve with a prescribed update, so that the Newton loop's own
logic (update rules, error norms, convergence verdict) can be enumerated independently of any linear algebra."""
import devsim as d


class Scripted:
    def __init__(self):
        self.script = []
        self.k = 0
        self.observe = None
        self.seen = []
        self.reuse = []

    def load(self, script, observe=None):
        self.script, self.k, self.observe, self.seen, self.reuse = script, 0, observe, [], []

    def __call__(self, **kw):
        a = kw["action"]
        if a == "init":
            self.n = kw["n"]
            return {"matrix_format": "csc", "solver_object": self, "status": True, "message": ""}
        if a == "factor":
            self.reuse.append(kw["is_same_symbolic"])
            return {"status": True, "message": ""}
        if self.observe:
            self.seen.append(self.observe())
        x = self.script[self.k] if self.k < len(self.script) else None
        self.k += 1
        if x is None:
            return {"status": False, "message": "end of script"}
        return {"status": True, "message": "", "x": x}


def install():
    s = Scripted()
    d.set_parameter(name="direct_solver", value="custom")
    d.set_parameter(name="solver_callback", value=s)
    return s
