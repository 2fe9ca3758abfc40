"""P22: loops make progress."""
import ir, progress
from check import Check
from extract import AnalysisBroken


# decisions that cannot be taken together, with the reason
IMPOSSIBLE = {
    (("eol", True), ("length > 0", False), ("remaining > 0 && *text == 13 || *text == 10", False)): "when the text before the end of line is empty, text is at the end of line that strpbrk found",
}


def loops():
    c = Check("P22", "every way around a loop changes something that the decisions taken on that way depend on")
    for prog, top, least in ((ir.load(), "clink/", 600), (ir.load(["readline"]), "readline/", 200)):
        before = c.cov.get("loops", 0)
        one(c, prog, top)
        if c.cov["loops"] - before < least and not c.viol:
            raise AnalysisBroken("loops of %s" % top)
    return c


def one(c, prog, top):
    funcs = [f for f in prog.funcs.values() if f.file.startswith(top) and "/test/" not in f.file and f.blocks]
    L = progress.Loops(prog, funcs, IMPOSSIBLE)

    def report(f, h, path):
        ls = [line(f, b) for b in path]
        ls = [x for x in ls if x]
        c.violation("%s %s" % (f.name, what(f, path)), f.file, ls[0] if ls else f.line, "%s: a way around the loop changes nothing its conditions depend on (lines %s)" % (f.name, ", ".join(map(str, dict.fromkeys(ls)))))
    for f in funcs:
        c.count("functions")
        a, b, x = L.analyse(f, report, 20000 if c.tier == "thorough" else 3000)
        c.count("loops", a)
        c.count("ways around them examined in full", b)
        c.count("loops with too many ways", x)


def what(f, path):
    for b in path:
        t = f.blocks[b].get("tc")
        if t is not None:
            return f.text(f.n(t))[:60]
    return "loop"


def line(f, b):
    t = f.blocks[b].get("tc")
    if t is not None and f.n(t) is not None:
        return f.n(t)["l"]
    for e in f.blocks[b].get("e", ()):
        if isinstance(e, int) and f.n(e) is not None and f.n(e).get("l"):
            return f.n(e)["l"]
    return None
