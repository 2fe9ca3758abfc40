"""P20: pointers, references and iterators into growable objects."""
import ir, views
from check import Check


def stale():
    c = Check("P20", "a pointer, reference, iterator or view into a container or string is not used after an operation that may move or destroy what it points into")
    prog = ir.load()
    funcs = [f for f in prog.funcs.values() if f.file.startswith("clink/") and "/test/" not in f.file and f.blocks]
    V = views.Views(prog, funcs)
    seen = set()

    def report(f, n, x, e):
        v, o, so, inv = x
        w = f.n(inv)
        if v is None:
            c.violation("%s self %s" % (f.name, show(f, o)), f.file, n["l"], "%s: %s is given a pointer into %s, which it may move or overwrite before reading through the pointer" % (f.name, f.text(w)[:70], show(f, o)))
            return
        key = "%s %s" % (f.name, f.vars[v]["n"])
        if key in seen:
            return
        seen.add(key)
        c.violation(key, f.file, n["l"], "%s: %s points into %s, which %s (line %s) may have moved or destroyed" % (f.name, f.vars[v]["n"], show(f, o), f.text(w)[:70], w["l"]))
    for f in funcs:
        c.count("functions")
        k = V.analyse(f, report)
        c.count("views", k)
    c.count("summaries", sum(1 for s in V.summ.values() if s))
    c.need("views", 100)
    return c


def show(f, o):
    s = ""
    for x in o:
        if x == "this" or x == "v" or x == "g":
            continue
        s += f.vars[x]["n"] if isinstance(x, int) else x
    return s.lstrip(".")
