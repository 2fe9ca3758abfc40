"""P14: the program's command line options."""
import re
import ir, formats
from check import Check
from extract import AnalysisBroken

HELP = re.compile(r"^(?:-([A-Za-z0-9?]))?(?:, )?(?:--([A-Za-z][\w-]*))?(.*)$")


def rows(f, n):
    """(name, has_arg, value) of an initialiser of `struct option[]`."""
    out = []
    for r in f.kids(n):
        r = f.strip(r)
        k = [f.strip(x) for x in f.kids(r)]
        if len(k) == 4 and k[0] is not None and k[0]["k"] == "Str":
            out.append((k[0]["s"], k[1].get("v"), k[3].get("v"), r["l"]))
    return out


def option_table(prog, f, n, depth=0):
    p = f.path(n)
    if p is None or depth > 3:
        return None
    if p[0] == "v":
        for x in f.nodes:
            if x and x["k"] == "DeclStmt":
                for d in x["ds"]:
                    if d["v"] == p[1] and d["i"] >= 0:
                        return rows(f, f.nodes[d["i"]])
        if p[1] in f.d["params"]:
            i = f.d["params"].index(p[1])
            out = None
            for g in prog.funcs.values():
                for x in g.calls():
                    if x.get("f") == f.usr:
                        r = option_table(prog, g, g.args(x)[i], depth + 1)
                        if r is None or (out is not None and [y[:3] for y in out] != [y[:3] for y in r]):
                            return None
                        out = r
            return out
    if p[0] == "g":
        for g in ir.globals_of(prog):
            if g.name == p[1] and g.d.get("i", -1) >= 0:
                return rows(g, g.nodes[g.d["i"]])
    return None


def shorts(s):
    out, i = {}, 0
    s = s.lstrip("+-")
    odd = []
    while i < len(s):
        ch = s[i]
        i += 1
        has = 0
        while i < len(s) and s[i] == ":":
            has += 1
            i += 1
        if not (ch.isalnum() or ch == "?"):
            odd.append(ch)
        out[ch] = has
    return out, odd


def result_path(f, call):
    """The variable that receives the result."""
    for x in f.nodes:
        if x and x["k"] == "Asg" and x["op"] == "=" and f.strip(f.kid(x, 1)) is call:
            return f.path(f.kid(x, 0))
        if x and x["k"] == "DeclStmt":
            for d in x["ds"]:
                if d["i"] >= 0 and f.strip(f.nodes[d["i"]]) is call:
                    return ("v", d["v"])
    return None


def blk_nodes(f, b):
    out = []
    for e in b.get("e", ()):
        i = e["n"] if isinstance(e, dict) else e
        if isinstance(i, int) and i >= 0 and f.nodes[i]:
            out.append(f.nodes[i])
    return out


def follow(prog, f, call, var, value):
    """Nodes executed with the option's value until the next option is fetched; was the value told apart from others?"""
    same = {var}
    for x in f.nodes:
        if x and x["k"] == "DeclStmt":
            for d in x["ds"]:
                if d["i"] >= 0 and f.path(f.nodes[d["i"]]) in same:
                    same.add(("v", d["v"]))
    start = None
    for b in f.blocks.values():
        if any(x is call for x in blk_nodes(f, b)):
            start = b["i"]
    if start is None:
        return None
    seen, nodes, told, passed, work = set(), [], False, False, [(start, True)]
    while work:
        i, first = work.pop()
        if (i, first) in seen:
            continue
        seen.add((i, first))
        b = f.blocks[i]
        xs = blk_nodes(f, b)
        if first:
            k = max(j for j, x in enumerate(xs) if x is call)
            xs = xs[k + 1:]
        elif any(x is call for x in xs):
            continue
        nodes += xs
        for x in xs:
            if x["k"] in ("Call", "Construct") and any(a is not None and f.path(a) in same for a in f.args(x)):
                passed = True
        tc = f.nodes[b["tc"]] if b.get("tc", -1) >= 0 else None
        succ = [s for s in b["s"] if s >= 0]
        if b.get("tk") == "SwitchStmt" and tc is not None and f.path(tc) in same:
            hit, dflt = None, None
            for s in b["s"]:
                if s < 0:
                    continue
                sb = f.blocks[s]
                labels = [f.nodes[c] for c in sb.get("case", ())]
                if any(value == y.get("v") for y in labels):
                    hit = s
                if sb.get("default"):
                    dflt = s
            if hit is not None:
                told = True
                succ = [hit]
            else:
                succ = [dflt if dflt is not None else b["s"][-1]]
        elif tc is not None and len(b["s"]) == 2:
            t = f.strip(tc)
            v = None
            if t["k"] == "Bin" and t["op"] in ("==", "!=", "<", "<=", ">", ">="):
                l, r = f.strip(f.kid(t, 0)), f.strip(f.kid(t, 1))
                for a, c, sw in ((l, r, 0), (r, l, 1)):
                    if a["k"] == "Asg":
                        a = f.strip(f.kid(a, 0))
                    if f.path(a) in same and c.get("v") is not None:
                        x, y = (value, c["v"]) if not sw else (c["v"], value)
                        v = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[t["op"]]
                        if t["op"] in ("==", "!=") and x == y:
                            told = True
            if v is not None:
                succ = [b["s"][0 if v else 1]]
        work += [(s, False) for s in succ if s is not None and s >= 0]
    return nodes, told, passed


def all_strings(prog, file):
    for f in prog.funcs.values():
        if f.file == file:
            for x in f.nodes:
                if x and x["k"] == "InitList":
                    ks = [f.strip(k) for k in f.kids(x)]
                    if len(ks) > 2 and all(k is not None and k["k"] in ("Str", "Null", "Lit", "ImplicitValueInitExpr") for k in ks):
                        yield f, x, ks
    for g in ir.globals_of(prog):
        if g.file == file:
            for x in g.nodes:
                if x and x["k"] == "InitList":
                    ks = [g.strip(k) for k in g.kids(x)]
                    if len(ks) > 2 and all(k is not None and k["k"] in ("Str", "Null", "Lit", "ImplicitValueInitExpr") for k in ks):
                        yield g, x, ks


def options():
    c = Check("P14", "for every option parser: short list, long table, handling code and help text name the same options and agree on which take an argument")
    prog = ir.load(["app"])
    per_file = {}
    for f in prog.calling({"getopt_long", "getopt"}):
        if not f.file.startswith("clink/"):
            continue
        for n in f.calls({"getopt_long", "getopt"}):
            c.count("parsers")
            a = f.args(n)
            lit = formats.literals(f, a[2])
            if not lit or len(lit) != 1:
                raise AnalysisBroken("P14: option string of %s is not a constant" % f.name)
            sh, odd = shorts(lit[0])
            if odd:
                # one mistake, one report: read the rest as it was meant
                sh, _ = shorts("".join(":" if ch in odd else ch for ch in lit[0]))
            for ch in odd:
                c.violation("%s|short %s" % (f.name, ch), f.file, n["l"], "%s: '%s' in the option string \"%s\" makes a stray option; an argument is marked with ':'" % (f.name, ch, lit[0]))
            longs = []
            if n["n"] == "getopt_long":
                longs = option_table(prog, f, a[3])
                if longs is None:
                    raise AnalysisBroken("P14: option table of %s not found" % f.name)
            var = result_path(f, n)
            if var is None:
                raise AnalysisBroken("P14: result variable of %s in %s not found" % (n["n"], f.name))
            vals = {}
            for ch, has in sh.items():
                vals.setdefault(ord(ch), []).append((("-" + ch), has))
            names = set()
            for nm, has, v, l in longs:
                c.count("long_options")
                if nm in names:
                    c.violation("%s|--%s|twice" % (f.name, nm), f.file, l, "%s: --%s is listed twice" % (f.name, nm))
                names.add(nm)
                vals.setdefault(v, []).append(("--" + nm, has))
            for v, forms in sorted(vals.items()):
                if v in (ord("?"),):
                    continue
                c.count("options")
                what = "/".join(x for x, _ in forms)
                if len({min(h, 1) if h < 2 else h for _, h in forms}) > 1:
                    c.violation("%s|%s|arity" % (f.name, what), f.file, n["l"], "%s: the forms of %s disagree on whether the option takes an argument (%s)" % (
                        f.name, what, ", ".join("%s %s" % (x, ["no argument", "argument", "optional argument"][min(h, 2)]) for x, h in forms)))
                r = follow(prog, f, n, var, v)
                if r is None:
                    raise AnalysisBroken("P14: call of %s in %s not in its flow graph" % (n["n"], f.name))
                nodes, told, passed = r
                uses = any(x["k"] == "Ref" and x.get("n") == "optarg" for x in nodes)
                takes = [h for _, h in forms]
                if not told and not passed and v != ord("h"):
                    c.violation("%s|%s|handled" % (f.name, what), f.file, n["l"], "%s accepts %s but never handles it" % (f.name, what))
                elif uses and any(h == 0 for h in takes):
                    c.violation("%s|%s|optarg" % (f.name, what), f.file, n["l"], "%s uses the argument of %s, but the option is declared without one" % (f.name, what))
                elif told and not uses and not passed and all(h == 1 for h in takes):
                    c.violation("%s|%s|ignored" % (f.name, what), f.file, n["l"], "%s: %s consumes an argument that is never used" % (f.name, what))
            # values tested for but never produced
            for b in f.blocks.values():
                tc = f.nodes[b["tc"]] if b.get("tc", -1) >= 0 else None
                if b.get("tk") == "SwitchStmt" and tc is not None and f.path(tc) == var:
                    for s in b["s"]:
                        for y in (f.nodes[q] for q in f.blocks[s].get("case", ())) if s >= 0 else ():
                            if y.get("v") not in vals and y.get("v") not in (ord("?"), ord(":"), 0, -1):
                                c.violation("%s|case %s" % (f.name, chr(y["v"])), f.file, y["l"], "%s handles option '%s', which is neither in the option string nor in the table" % (f.name, chr(y["v"])))
            per_file.setdefault(f.file, []).append((f, n, vals))
    for file, parsers in sorted(per_file.items()):
        # long names which a program without getopt_long compares for itself
        compared = set()
        for f in prog.funcs.values():
            if f.file == file:
                for x in f.calls():
                    for a in f.args(x):
                        if a is not None and f.strip(a)["k"] == "Str":
                            compared.add(f.strip(a)["s"])
        for g, x, ks in all_strings(prog, file):
            for k in ks:
                if k["k"] != "Str" or not k["s"].startswith("-") or len(k["s"]) < 2:
                    continue
                m = HELP.match(k["s"])
                if not m or not (m.group(1) or m.group(2)):
                    continue
                c.count("help_lines")
                arg = bool(re.search(r"<.*>", m.group(3)))
                best = None
                for f, n, vals in parsers:
                    bad = None
                    hit = set()
                    for form in (("-" + m.group(1)) if m.group(1) else None, ("--" + m.group(2)) if m.group(2) else None):
                        if not form:
                            continue
                        e = [(v, h) for v, fs in vals.items() for nm, h in fs if nm == form]
                        if not e and form in compared:
                            continue
                        if not e:
                            bad = "%s is not accepted by %s" % (form, f.name)
                            break
                        hit.add(e[0][0])
                        if bool(e[0][1]) != arg:
                            bad = "%s %s an argument in %s" % (form, "needs" if e[0][1] else "does not take", f.name)
                            break
                    if bad is None and len(hit) > 1:
                        bad = "its two forms are different options in %s" % f.name
                    if bad is None:
                        best = None
                        break
                    best = bad
                if best:
                    c.violation("%s|help %s" % (file.split("/")[-1], k["s"]), file, k["l"], "the help text says \"%s\", but %s" % (k["s"], best))
    c.need("parsers", 10)
    c.need("long_options", 35)
    c.need("options", 40)
    c.need("help_lines", 35)
    return c
