"""Runs a function over many items in forked workers that share the loaded program."""
import os, pickle, traceback
from extract import AnalysisBroken


def pmap(fn, items, procs=None):
    items = list(items)
    n = min(procs or os.cpu_count() or 4, max(1, len(items)))
    if n <= 1 or os.environ.get("VERIF_SERIAL"):
        return [fn(x) for x in items]
    pipes = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = [(i, fn(items[i])) for i in range(w, len(items), n)]
                data = pickle.dumps(("ok", out))
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()))
            with os.fdopen(wr, "wb") as fh:
                fh.write(data)
            os._exit(0)
        os.close(wr)
        pipes.append((r, pid))
    res = [None] * len(items)
    for r, pid in pipes:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise AnalysisBroken("an analysis worker died")
        k, v = pickle.loads(data)
        if k == "err":
            raise AnalysisBroken("analysis worker failed:\n" + v)
        for i, x in v:
            res[i] = x
    return res
