"""P28: comparison functions give a consistent order."""
import ir
import luafront
import luascripts
import ordering
import par
from check import Check
from extract import AnalysisBroken

CALLS = {"qsort": 3, "bsearch": 4, "_qsort": 3}
STD = {"sort": 2, "stable_sort": 2, "partial_sort": 3, "nth_element": 3, "lower_bound": 3, "upper_bound": 3, "binary_search": 3, "equal_range": 3,
       "min_element": 2, "max_element": 2, "is_sorted": 2, "inplace_merge": 3, "merge": 5, "unique": 2}


def product(f):
    return f.file.startswith("clink/") and "/test/" not in f.file and not f.file.startswith("clink/test/")


def functions_in(prog, f, n, depth=0):
    """The comparison functions an argument may stand for."""
    out = []
    if n is None or depth > 4:
        return out
    for x in f.deep(n):
        if x["k"] == "Lambda" and x.get("f") in prog.funcs:
            out.append(prog.funcs[x["f"]])
        elif x["k"] == "Ref" and x.get("dk") == "fn" and x.get("f") in prog.funcs:
            out.append(prog.funcs[x["f"]])
        elif x["k"] == "Ref" and x.get("dk") == "v":
            for m in f.nodes:
                if m and m["k"] == "DeclStmt":
                    for d in m["ds"]:
                        if d["v"] == x["d"] and d["i"] >= 0:
                            out += functions_in(prog, f, f.nodes[d["i"]], depth + 1)
                elif m and m["k"] == "Asg" and f.path(f.kid(m, 0)) == ("v", x["d"]):
                    out += functions_in(prog, f, f.kid(m, 1), depth + 1)
        elif x["k"] in ("Construct", "InitList") and x.get("cls"):
            out += [g for g in prog.byname.get(x["cls"] + "::operator()", ())]
    return out


def params(f):
    return [v for v in f.vars if "p" in v]


def comparators(prog):
    """usr -> (function, kind, where it is used)"""
    res = {}
    for f in prog.funcs.values():
        if not product(f):
            continue
        for n in f.nodes:
            if not n or n["k"] != "Call":
                continue
            nm = n.get("n", "") or ""
            i = CALLS.get(nm)
            kind = "three"
            if i is None and nm.startswith("std::"):
                i, kind = STD.get(nm.rsplit("::", 1)[-1]), "less"
            a = f.args(n)
            if i is None or i >= len(a):
                continue
            for g in functions_in(prog, f, a[i]):
                if g.blocks and len(params(g)) == 2:
                    res.setdefault(g.usr, (g, kind, "%s in %s" % (nm, f.name)))
        ps = params(f)
        if f.short == "operator()" and len(ps) == 2 and f.blocks and "$lambda" not in f.name and f.type(ps[0]["t"])["s"] == f.type(ps[1]["t"])["s"] \
                and any(n and n["k"] == "Return" for n in f.nodes):
            res.setdefault(f.usr, (f, None, "a container"))
        if f.short in ("operator<", "operator==") and len(ps) == (1 if f.cls else 2) and f.blocks and not f.cls:
            res.setdefault(f.usr, (f, "less" if f.short == "operator<" else "equal", "the language"))
        # an ordering function with separate parameters for the parts of each item
        if f.short == "compare_matches" and len(ps) == 4 and f.blocks:
            res.setdefault(f.usr, (f, "less", "string.comparematches"))
    return res


class Grouped(ordering.Eval):
    def compare(self, f, a, b):
        ps = sorted((v["p"], i) for i, v in enumerate(f.vars) if "p" in v)
        if len(ps) == 2:
            return super().compare(f, a, b)
        self.inv += 1
        self.two = a != b
        fr = ordering.Frame(f)
        h = len(ps) // 2
        for p, i in ps:
            fr.env[i] = ("fld", ("item", a if p < h else b), "part%d" % (p % h))
        return self.run(fr)


def decide(prog, f, kind):
    state = {}
    mk = lambda o: Grouped(prog, o, state)
    rf = lambda s, a, b: s.result(f, a, b)
    if kind is None:
        # a functor kept by a container: an order says no of an item and itself, an equivalence says yes
        got = []

        def probe(s):
            got.append(rf(s, 0, 0))
        ordering.explore(mk, probe, ordering.Outcome(), 200)
        kind = "equal" if got and all(got) else "less"
    for rnd in range(2):
        out = ordering.Outcome()
        full = ordering.laws(mk, rf, kind, out)
        for k in state:
            if k:
                state[k] = True
    return kind, out, full


SAID = {"less": "an order", "three": "a three-way comparison", "equal": "an equivalence"}


def orders():
    c = Check("P28", "evaluated on every consistent outcome of its own comparison steps, a comparator never puts two items before each other, never puts an "
                     "item before itself, and agrees on any three items; and no step compares an item with itself")
    prog = ir.load()
    todo = list(comparators(prog).values())

    def run(t):
        f, kind, use = t
        kind, out, full = decide(prog, f, kind)
        return f.usr, kind, use, out.bad, out.cases, out.undetermined, sorted(out.same), full
    names, und = [], {}
    for usr, kind, use, bad, cases, undet, same, full in par.pmap(run, todo):
        f = prog.funcs[usr]
        nm = f.name
        if not cases:
            und[nm] = sorted(undet)[:3]
            continue
        names.append("%s: %s for %s, %d case(s)%s" % (nm, SAID[kind], use, cases, "" if full else " (not all)"))
        c.count("comparators")
        c.count("cases", cases)
        for law, (why, path) in sorted(bad.items()):
            c.violation("%s %s" % (nm, law), f.file, f.line, "%s, %s for %s: %s" % (nm, SAID[kind], use, why), path[-14:])
        for u, t in same[:1]:
            c.violation("%s same" % nm, f.file, f.line, "%s compares %s with itself (%s)" % (nm, t, u))

    # Lua
    S = luascripts.Scripts()
    for ch in S.chunks:
        byvar = {}
        for x in luafront.walk(ch.main):
            if x.k == "local" and len(x.vars) == len(x.exps):
                for v, e in zip(x.vars, x.exps):
                    if e.k == "func":
                        byvar[v] = e
            elif x.k == "localfunc":
                byvar[x.var] = x.f
        base = ch.path.rsplit("/", 1)[-1]

        def fn_of(e):
            if e.k == "func":
                return e
            return byvar.get(e.var) if e.k == "name" and e.var is not None else None

        def params_of(f):
            return list(f.params)
        owner = {}
        for f in luafront.walk(ch.main):
            if f.k == "func":
                for p in f.params:
                    owner[p] = (f, f.params.index(p))
        calls = [x for x in luafront.walk(ch.main) if x.k == "call"]
        for x in calls:
            if S.dot(x.f) != "table.sort" or not x.args:
                continue
            c.count("lua_sorts")
            if len(x.args) < 2:
                continue
            f = fn_of(x.args[1])
            if f is None:
                d = S.dot(x.args[1])
                if d == "string.comparematches":
                    c.count("lua_sorts_by_native_comparator")
                else:
                    und["%s:table.sort" % base] = ["the comparator is not a function of the same file"]
                continue
            targets = [(f, [0, 1], {})]
            # function(a, b) return order(t, a, b) end, where order is a parameter: every function passed for it
            for y in luafront.walk(f):
                if y.k == "call" and y.f.k == "name" and y.f.var in owner and owner[y.f.var][0] is not f:
                    g, ix = owner[y.f.var]
                    targets = []
                    for z in calls:
                        if z.f.k == "name" and z.f.var is not None and byvar.get(z.f.var) is g and ix < len(z.args):
                            h = fn_of(z.args[ix])
                            if h is not None:
                                targets.append((f, [0, 1], {y.f.var: ("lfn", h)}))
                    break
            for f, shape, outer in targets:
                state = {}

                def mk(o):
                    e = ordering.LuaEval(None, o, state)
                    e.funcs, e.outer = byvar, outer
                    return e
                out = ordering.Outcome()
                full = ordering.laws(mk, lambda s, a, b: s.lresult(f, (a, b)), "less", out)
                nm = "%s %s" % (base, luascripts.fname(f))
                if not out.cases:
                    und[nm] = sorted(out.undetermined)[:3]
                    continue
                names.append("%s: an order for table.sort, %d case(s)" % (nm, out.cases))
                c.count("lua_comparators")
                c.count("cases", out.cases)
                for law, (why, path) in sorted(out.bad.items()):
                    c.violation("%s %s" % (nm, law), ch.path, f.l, "the comparator in %s: %s" % (nm, why), path[-14:])
                for u, t in sorted(out.same)[:1]:
                    c.violation("%s same" % nm, ch.path, f.l, "the comparator in %s compares %s with itself" % (nm, t))
    c.cov["decided"] = sorted(names)
    c.cov["not_decided"] = und
    c.need("comparators", 9)
    c.need("lua_comparators", 6)
    return c
