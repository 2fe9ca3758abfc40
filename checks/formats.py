"""Format strings agree with their arguments, and are never data."""
import ir, fmt
from check import Check

LUAF = {"lua_pushfstring", "luaL_error"}
NOT_FORMAT = {"__builtin_va_start", "va_start", "open", "_open", "_wopen", "_wsopen", "_sopen", "lua_gc", "execl", "fcntl", "ioctl", "_xerror"}
SCANF = {"sscanf", "swscanf", "fscanf", "scanf", "sscanf_s"}


def literals(f, n, seen=0):
    """All string literals an expression may denote, or None when it may denote something else."""
    n = f.strip(n)
    if n is None or seen > 6:
        return None
    if n["k"] == "Str":
        return [n["s"]]
    if n["k"] == "Cond":
        a, b = literals(f, f.kid(n, 1), seen + 1), literals(f, f.kid(n, 2), seen + 1)
        return None if a is None or b is None else a + b
    if n["k"] == "Ref" and n.get("dk") == "v":
        d = n["d"]
        out = []
        for x in f.nodes:
            if not x:
                continue
            if x["k"] == "DeclStmt":
                for dd in x["ds"]:
                    if dd["v"] == d and dd["i"] >= 0:
                        out.append(f.nodes[dd["i"]])
            elif x["k"] == "Asg" and x["op"] == "=":
                l = f.strip(f.kid(x, 0))
                if l is not None and l["k"] == "Ref" and l.get("d") == d and l.get("dk") == "v":
                    out.append(f.kid(x, 1))
            elif x["k"] == "Un" and x["op"] == "&":
                l = f.strip(f.kid(x, 0))
                if l is not None and l["k"] == "Ref" and l.get("d") == d and l.get("dk") == "v":
                    return None
        if d in f.d["params"] or not out:
            return None
        res = []
        for o in out:
            if f.strip(o)["k"] in ("Null",) or f.strip(o).get("v") == 0 and f.strip(o)["k"] == "Lit":
                continue
            r = literals(f, o, seen + 1)
            if r is None:
                return None
            res += r
        return res or None
    if n["k"] == "InitList":
        res = []
        for x in f.kids(n):
            r = literals(f, x, seen + 1)
            if r is None:
                return None
            res += r
        return res or None
    if n["k"] == "Index":
        b = f.strip(f.kid(n, 0))
        return literals(f, b, seen + 1)
    if n["k"] in ("Ref", "Member") and n.get("dk") == "g":
        for g in ir.globals_of(f.prog):
            if g.name == n.get("n"):
                t = g.type(g.d.get("t", -1))
                if g.d.get("i", -1) >= 0:
                    return literals(g, g.nodes[g.d["i"]], seen + 1)
        return None
    return None


def formats():
    c = Check("P03", "at every call of a printf-style function the format is a constant, and its conversions agree in number, order, kind, size and character width with the arguments")
    prog = ir.load()
    for f in prog.funcs.values():
        if not f.file.startswith(("clink/", "getopt/")):
            continue
        for n in f.calls():
            if not n.get("va"):
                continue
            nm = n["n"].rsplit("::", 1)[-1]
            if nm in NOT_FORMAT or nm in SCANF:
                continue
            args = f.args(n)
            fi = n["np"] - 1
            if fi < 0 or fi >= len(args):
                continue
            ft = f.ntype(args[fi])
            e = f.type(ft.get("e", -1))
            if ft["k"] not in ("ptr", "arr") or e["k"] != "int" or e.get("z") not in (1, 2):
                continue
            wide = e["z"] == 2
            lua = nm in LUAF
            lits = literals(f, args[fi])
            rest = args[fi + 1:]
            key = "%s|%s" % (f.name, nm)
            if lits is None:
                # forwarding wrappers hand over their own va_list elsewhere; a computed format is accepted
                # only as documented below
                src = f.path(args[fi])
                c.count("formats_not_constant")
                c.cov.setdefault("non_constant", []).append("%s: %s" % (f.name, f.text(args[fi])))
                if f.name in NONCONST:
                    c.cov.setdefault("exceptions_applied", []).append("%s: %s" % (f.name, NONCONST[f.name]))
                else:
                    c.violation(key + "|nonconst", f.file, n["l"], "the format passed to %s in %s is not a constant: %s" % (nm, f.name, f.text(args[fi])))
                continue
            c.count("format_calls")
            most = max(len(fmt.lua_parse(x) if lua else fmt.parse(x)) for x in lits)
            for s in sorted(set(lits)):
                specs = fmt.lua_parse(s) if lua else fmt.parse(s)
                if any(x[0] == "bad" for x in specs):
                    c.violation(key + "|" + s, f.file, n["l"], "%s in %s: malformed conversion in format %r" % (nm, f.name, s))
                    continue
                if len(specs) > len(rest):
                    c.violation(key + "|" + s, f.file, n["l"], "%s in %s: format %r needs %d arguments but %d are passed" % (nm, f.name, s, len(specs), len(rest)))
                    continue
                if len(specs) < len(rest) and most < len(rest):
                    c.violation(key + "|" + s, f.file, n["l"], "%s in %s: format %r uses %d arguments but %d are passed" % (nm, f.name, s, len(specs), len(rest)))
                for i, sp in enumerate(specs):
                    t = f.ntype(rest[i])
                    why = fmt.lua_agrees(f, sp, t) if lua else fmt.agrees(f, sp, t, wide)
                    c.count("conversions")
                    if why:
                        c.violation(key + "|" + s + "|%d" % i, f.file, n["l"], "%s in %s: format %r, %s (argument %s): %s" % (nm, f.name, s, sp[3], f.text(rest[i]), why))
    c.need("format_calls", 300)
    return c


NONCONST = {
    "display_manager::display": "termcap string UP, a constant of the table in termcap.cpp with a single %d",
    "display_manager::move_to_row": "termcap string UP",
    "tgoto": "Readline's interface: base is a termcap string of the table in termcap.cpp",
    "line_editor_impl::before_display_readline": "DEBUG build diagnostic; the format is built two lines earlier from a constant",
}
