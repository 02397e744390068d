"""One step of a check in a forked process of its own."""
import os, pickle, signal
import devsim as d


def child(fn, timeout=25):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                res = ("ok", fn())
            except d.error as e:
                res = ("error", str(e))
            b = pickle.dumps(res)
            off = 0
            while off < len(b):
                off += os.write(w, b[off:])
            os._exit(0)
        except BaseException as e:
            import traceback
            traceback.print_exc()
            os._exit(71)
    os.close(w)
    out = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        out.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("died", "signal %d" % os.WTERMSIG(st))
    if os.WEXITSTATUS(st) == 71:
        raise RuntimeError("child failed, see above")
    if os.WEXITSTATUS(st):
        return ("died", "status %d" % os.WEXITSTATUS(st))
    return pickle.loads(b"".join(out))
