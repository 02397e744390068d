"""Common machinery of the checks: build, sharded exhaustive execution in crash-isolated
worker processes, counterexample replay, known findings, evidence."""
import json, mmap, os, pickle, signal, struct, subprocess, sys, time, traceback, hashlib

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, LIB)
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build/chk")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Null:
    def write(self, s): return len(s)
    def flush(self): pass


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


def prepare(targets=("module", "mathlib"), build_dir=None, **kw):
    """Stage 0: build from /repo's working tree, then re-exec this script with the module importable."""
    if os.environ.get("VC_STAGE") == "1":
        return
    import build as B
    import fcntl
    out = build_dir or BUILD
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    with open(out + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        B.build(out, list(targets), **kw)
    pkg = out + "/pkg/devsim"
    if "module" in targets:
        os.makedirs(pkg, exist_ok=True)
        for src, dst in ((out + "/devsim_py3.so", "devsim_py3.so"), (REPO + "/dist/__init__.py", "__init__.py"),
                         (REPO + "/python_packages", "python_packages")):
            d = pkg + "/" + dst
            if os.path.islink(d):
                os.unlink(d)
            os.symlink(src, d)
    env = dict(os.environ, VC_STAGE="1", VC_BUILD=out, VC_T0=repr(t0), PYTHONDONTWRITEBYTECODE="1",
               DEVSIM_MATH_LIBS=out + "/libvmath.so", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONPATH=out + "/pkg:" + LIB)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


class Ctx:
    def __init__(self, pid, level="model_checking", assumptions=()):
        self.pid = pid
        self.level = level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = float(os.environ.get("VC_T0", time.time()))
        self.viol = []            # (key, what, replay)
        self.stats = {}
        self.samples = []
        self.sets = {}
        self.bounds = {}
        self.replay_item = None
        if "--replay" in sys.argv:
            self.replay_item = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        sys.excepthook = _hook(self)
        self.known = {}
        kf = VERIF + "/known_findings.json"
        if os.path.exists(kf):
            for e in json.load(open(kf))["findings"]:
                if e["property"] == pid and e.get("status") == "known":
                    self.known[e["key"]] = e

    # ---- recording, usable inside workers -----------------------------------------
    def count(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def state(self, name, obj):
        """Records a distinct state/behaviour; sizes of the sets are measured counts."""
        self.sets.setdefault(name, set()).add(hash(obj) & 0xffffffffffffffff if not isinstance(obj, int) else obj)

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violation(self, key, what, replay=None):
        if len(self.viol) < (100000 if "VC_ALL" in os.environ else 200) and not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, what, replay))

    # ---- sharded exhaustive run ------------------------------------------------------
    def run(self, items, fn, name="", timeout=60, nproc=None, setup=None, chunk=None, crash_key=None, stop_after=40):
        """Calls fn(item) for every item, over forked workers. fn reports through this ctx.
        A worker that dies or hangs is a violation of the item it was executing."""
        items = list(items)
        if self.replay_item is not None:
            if self.replay_item.get("name") != name:
                return
            items = [_untuple(self.replay_item["item"])]
        nproc = min(nproc or NPROC, max(1, len(items)))
        shards = [list(range(i, len(items), nproc)) for i in range(nproc)]
        procs = []
        self.bounds.setdefault("items_" + (name or "run"), 0)
        self.bounds["items_" + (name or "run")] += len(items)
        for s in shards:
            procs.append(self._spawn(items, s, fn, setup, timeout))
        restarts = 0
        while procs:
            p = procs.pop(0)
            pid, rfd, shm, idxs = p
            chunks = []
            while True:
                b = os.read(rfd, 1 << 20)
                if not b:
                    break
                chunks.append(b)
            os.close(rfd)
            _, st = os.waitpid(pid, 0)
            data = b"".join(chunks)
            ok = False
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and data:
                try:
                    res = pickle.loads(data)
                    ok = True
                except Exception:
                    ok = False
            if ok:
                if res.get("internal"):
                    print(res["internal"])
                    raise SystemExit(3)
                self._merge(res, name)
                continue
            pos = struct.unpack("q", shm[:8])[0]
            cur = idxs[pos] if 0 <= pos < len(idxs) else None
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            why = ("hang (no result in %ds)" % timeout) if sig == signal.SIGALRM else "process died, signal %d status %d" % (sig, os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1)
            if cur is None:
                print("worker failed outside an item: " + why)
                raise SystemExit(3)
            note = shm[16:2000].split(b"\0")[0].decode("utf8", "replace")
            ck = crash_key(items[cur], note) if crash_key else "crash:" + digest(items[cur])
            self.violation(ck, "%s; item=%s at=%s" % (why, _short(items[cur]), note), {"name": name, "item": items[cur]})
            self.count(crashed_items=1)
            restarts += 1
            if restarts > stop_after:
                print("too many crashed items, stopping early")
                break
            # results of the items before the crash are lost: rerun them, without the crashing one
            rest = [i for i in idxs if i != cur]
            if rest:
                procs.append(self._spawn(items, rest, fn, setup, timeout))

    def _spawn(self, items, idxs, fn, setup, timeout):
        r, w = os.pipe()
        shm = mmap.mmap(-1, 4096)
        shm[:8] = struct.pack("q", -1)
        pid = os.fork()
        if pid:
            os.close(w)
            return (pid, r, shm, idxs)
        try:
            os.close(r)
            self.viol, self.stats, self.samples, self.sets = [], {}, [], {}
            self.shm = shm
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            internal = None
            try:
                if setup:
                    setup()
                for pos, i in enumerate(idxs):
                    shm[:8] = struct.pack("q", pos)
                    shm[16:17] = b"\0"
                    signal.alarm(timeout)
                    nv = len(self.viol)
                    try:
                        fn(items[i])
                    except Exception as e:
                        if not _answers(e):
                            raise
                        # every item runs through on a tree where the property holds: a command that is refused, or an
                        # answer that cannot be read, comes from the code under test
                        tb = traceback.extract_tb(e.__traceback__)
                        at = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
                        self.violation("unexpected:" + digest(items[i]), "a valid use failed with %s: %s; item=%s at=%s" % (type(e).__name__, str(e).strip()[:300], _short(items[i]), at))
                    for k in range(nv, len(self.viol)):
                        key, what, rep = self.viol[k]
                        if rep is None:
                            self.viol[k] = (key, what, {"item": items[i]})
                signal.alarm(0)
            except BaseException:
                internal = "internal error of the check on item %s\n%s" % (_short(items[i]) if idxs else "", traceback.format_exc())
            out = pickle.dumps({"viol": self.viol, "stats": self.stats, "samples": self.samples, "sets": self.sets, "internal": internal})
            off = 0
            while off < len(out):
                off += os.write(w, out[off:off + (1 << 20)])
            os._exit(0)
        except BaseException:
            os._exit(70)

    def note(self, s):
        """Remember where in an item we are (shown if the worker dies)."""
        if hasattr(self, "shm"):
            b = str(s).encode("utf8", "replace")[:1900] + b"\0"
            self.shm[16:16 + len(b)] = b

    def _merge(self, res, name):
        for k, v in res["stats"].items():
            if k.startswith("max_"):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for k, v in res["sets"].items():
            self.sets.setdefault(k, set()).update(v)
        for s in res["samples"]:
            self.sample(s, 8)
        for key, what, rep in res["viol"]:
            if isinstance(rep, dict):
                rep.setdefault("name", name)
            self.violation(key, what, rep)

    # ---- finish -------------------------------------------------------------------
    def finish(self, states, transitions, traces, rule, extra=None, exhaustive=True):
        if self.replay_item is not None:
            for k, what, rep in self.viol:
                print("REPRODUCED key=%s %s" % (k, what))
            print("replay: %d violation(s)" % len(self.viol))
            raise SystemExit(1 if self.viol else 0)
        unknown = []
        for key, what, rep in self.viol:
            if key in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]["what"]))
            else:
                unknown.append((key, what, rep))
        rdir = VERIF + "/work/replay"
        os.makedirs(rdir, exist_ok=True)
        if os.environ.get("VC_ALL"):
            json.dump([(k, w) for k, w, _ in unknown], open(os.environ["VC_ALL"], "w"), indent=0)
        for n, (key, what, rep) in enumerate(unknown[:20]):
            path = "%s/%s-%d.json" % (rdir, self.pid, n)
            json.dump(dict(rep or {}, property=self.pid, key=key, what=what), open(path, "w"), indent=1, default=str)
            confirmed = ""
            if n < 3 and rep and "item" in rep:
                env = dict(os.environ)
                try:
                    r = subprocess.run([sys.executable] + sys.argv[:1] + ["--replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                    confirmed = " [replayed alone in a fresh process: %s]" % ("reproduced" if r.returncode == 1 else "NOT reproduced, depends on earlier items")
                except subprocess.TimeoutExpired:
                    confirmed = " [replay timed out]"
            print("  key=%s %s%s" % (key, what, confirmed))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        cov = {"states": int(states), "transitions": int(transitions), "traces_validated_against_impl": int(traces),
               "samples": self.samples[:8], "rule": rule, "exhaustive": bool(exhaustive and not self.stats.get("crashed_items"))}
        cov.update({k: v for k, v in self.stats.items()})
        cov.update({"distinct_" + k: len(v) for k, v in self.sets.items()})
        cov["bounds"] = self.bounds
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(unknown)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.pid), "w"), indent=1, default=str)
        print("%s %s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs" % (
            self.pid, self.tier, states, transitions, traces, len(unknown), time.time() - self.t0))
        sys.stdout.flush()
        os._exit(1 if unknown else 0)


def _answers(e):
    """errors that the answers of the code under test can cause in a check (not those of the machine it runs on)"""
    if isinstance(e, (OSError, MemoryError, subprocess.SubprocessError, NameError, ImportError, SyntaxError)):
        return False
    return True


def _hook(ctx):
    def hook(tp, e, tb):
        traceback.print_exception(tp, e, tb)
        sys.stdout.flush()
        if isinstance(e, Exception) and _answers(e):
            try:
                rdir = VERIF + "/work/replay"
                os.makedirs(rdir, exist_ok=True)
                path = "%s/%s-main.json" % (rdir, ctx.pid)
                json.dump({"property": ctx.pid, "what": "a valid use failed with %s: %s" % (tp.__name__, str(e)[:1000]), "at": traceback.format_tb(tb)}, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(1)
            except OSError:
                pass
    return hook


def _short(x):
    s = json.dumps(x, default=str)
    return s if len(s) < 700 else s[:700] + "..."


def _untuple(x):
    if isinstance(x, list):
        return tuple(_untuple(i) for i in x)
    if isinstance(x, dict):
        return {k: _untuple(v) for k, v in x.items()}
    return x


def quiet():
    """devsim prints through python's sys.stdout"""
    sys.stdout = Null()


def load_devsim():
    import devsim
    return devsim


class Vmath:
    """The monitored math library's counters and fault injection."""
    def __init__(self):
        import ctypes
        self.l = ctypes.CDLL(os.environ["DEVSIM_MATH_LIBS"])
        self.c = (ctypes.c_longlong * 6)()
        self.l.vmath_fault.restype = ctypes.c_char_p
    def counts(self):
        self.l.vmath_counts(self.c)
        return dict(zip(("symbolic", "numeric", "solve", "release", "fault", "live"), list(self.c)))
    def fault(self):
        f = self.l.vmath_fault()
        return (f or b"").decode()
    def reset(self): self.l.vmath_reset()
    def fail_at(self, k): self.l.vmath_fail_at(k)
    def symfail_at(self, k): self.l.vmath_symfail_at(k)
    def solvefail_at(self, k): self.l.vmath_solvefail_at(k)
    def badsol_at(self, k): self.l.vmath_badsol_at(k)
