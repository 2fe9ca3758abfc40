"""Properties decided by queries over the typed AST."""
import re
import ir, formats
from check import Check
from bounds import SCOPE

# Win32 functions that take text in the ANSI code page and which parameters are text
ANSI = re.compile(r"^[A-Z][A-Za-z0-9]*[a-z0-9]A$")
NOT_ANSI_API = {"WSA"}
NARROW_CRT = set("fopen _fsopen freopen unlink _unlink remove rename stat _stat64 _stat chdir _chdir mkdir _mkdir rmdir _rmdir access _access open _open "
                 "_sopen utime _utime64 opendir hooked_stat hooked_lstat getenv _putenv putenv system _popen popen".split())
# (file, API): why text in the ANSI code page is right there
ANSI_EXC = {
    ("history_db.cpp", "GetFinalPathNameByHandleA"): "only printed to the debug log of DEBUG builds",
    ("match_pipeline.cpp", "GetEnvironmentVariableA"): "list of generator names for debugging, ASCII by definition",
    ("os.cpp", "GetEnvironmentVariableA"): "numeric debugging switch",
    ("command_link_dialog.cpp", "CreateWindowExA"): "fixed English captions",
    ("command_link_dialog.cpp", "DrawTextA"): "fixed English captions",
    ("command_link_dialog.cpp", "SetWindowTextA"): "fixed English captions",
    ("dll.cpp", "MessageBoxA"): "DEBUG builds only, fixed text and a process id",
}
# code page used by a conversion on purpose
CP_EXC = {
    ("errfile_reader.cpp", "MultiByteToWideChar"): "compilers write error files in the ANSI code page",
    ("unicode_api.cpp", "MultiByteToWideChar"): "unicode.fromcodepage converts from the code page the script names",
    ("unicode_api.cpp", "WideCharToMultiByte"): "unicode.tocodepage converts to the code page the script names",
}


def const_text(prog, f, n, depth=0):
    """Does the expression denote only string constants (or null)?  Parameters are followed to every caller."""
    n = f.strip(n)
    if n is None or depth > 9:
        return False
    if n["k"] == "Null" or n.get("v") == 0:
        return True
    if formats.literals(f, n) is not None:
        return True
    if n["k"] == "InitList":
        return all(const_text(prog, f, x, depth) for x in f.kids(n))
    if n["k"] == "Cond":
        return const_text(prog, f, f.kid(n, 1), depth) and const_text(prog, f, f.kid(n, 2), depth)
    if n["k"] in ("Un", "Index") and n.get("op", "*") == "*":
        return const_text(prog, f, f.kid(n, 0), depth)
    if n["k"] == "Bin" and n["op"] in ("+", "-"):
        return const_text(prog, f, f.kid(n, 0), depth)
    if n["k"] in ("Ref", "Member") and n.get("dk") == "g":
        for g in ir.globals_of(prog):
            if g.name == n.get("n") and g.d.get("i", -1) >= 0:
                return all(x["k"] in ("Str", "Null", "Lit", "InitList", "Cast") for x in g.deep(g.nodes[g.d["i"]]))
        return False
    if n["k"] == "Ref" and n.get("dk") == "v":
        d = n["d"]
        if d in f.d["params"] and isinstance(f, ir.Func):
            i = f.d["params"].index(d)
            sites = 0
            for g in prog.funcs.values():
                if f.name not in g.callees:
                    continue
                for x in g.calls():
                    if x.get("f") == f.usr:
                        sites += 1
                        a = g.args(x)
                        if i >= len(a) or a[i] is None or not const_text(prog, g, a[i], depth + 1):
                            return False
            if not sites:
                return False
            # the parameter may be advanced, but not replaced
            for x in f.nodes:
                if x and x["k"] == "Asg" and x["op"] == "=" and f.path(f.kid(x, 0)) == ("v", d):
                    return False
            return True
        # a local: every value assigned to it is constant
        vals = []
        for x in f.nodes:
            if not x:
                continue
            if x["k"] == "DeclStmt":
                vals += [f.nodes[y["i"]] for y in x["ds"] if y["v"] == d and y["i"] >= 0]
            elif x["k"] == "Asg" and f.path(f.kid(x, 0)) == ("v", d):
                vals.append(f.kid(x, 1))
        return bool(vals) and all(const_text(prog, f, v, depth + 1) for v in vals)
    return False


# text parameters declared as void*
VOID_TEXT = {("WriteConsoleA", 1), ("ReadConsoleA", 1)}


def narrow_text_args(f, n):
    """Arguments of type char* (signed): text in or out."""
    out = []
    for i, a in enumerate(f.args(n)):
        if a is None:
            continue
        t = f.ntype(a)
        e = f.type(t.get("e", -1))
        s = f.strip(a)
        if t["k"] in ("ptr", "arr") and e["k"] == "int" and e.get("z") == 1 and not e.get("u") or (n.get("n"), i) in VOID_TEXT:
            out.append((i, a))
    return out


BINARY_PARAM = {"VerQueryValueA": {0}, "RegQueryValueExA": {4}, "RegGetValueA": {5}, "RegSetValueExA": set(), "GetFileVersionInfoA": {3}}


def wide():
    c = Check("P06", "text crosses the Windows API only through wide functions, conversions use UTF-8, and narrow C runtime functions run under the UTF-8 locale set by a static initialiser")
    prog = ir.load()
    used = set()
    # the locale initialiser
    locale_ok = False
    ctors = {f.cls: f for f in prog.calling("setlocale") if f.cls}
    for g in ir.globals_of(prog):
        t = g.type(g.d.get("t", -1))
        if t.get("r") in ctors:
            f = ctors[t["r"]]
            for n in f.calls("setlocale"):
                a = f.args(n)
                if a[0].get("v") == 0 and formats.literals(f, a[1]) and formats.literals(f, a[1])[0].lower().replace("-", "") == ".utf8":
                    locale_ok = True
    # or called directly during start-up
    for f in prog.calling("setlocale"):
        if not f.file.startswith(SCOPE):
            continue
        for n in f.calls("setlocale"):
            a = f.args(n)
            lit = formats.literals(f, a[1]) if len(a) > 1 and a[1] is not None else None
            c.count("setlocale_calls")
            null = f.strip(a[1])["k"] == "Null" or f.strip(a[1]).get("v") == 0
            if not null and (lit is None or any(x.lower().replace("-", "") != ".utf8" for x in lit)):
                c.violation("%s|setlocale" % f.name, f.file, n["l"], "%s selects a locale whose character set is not UTF-8 (%s)" % (f.name, f.text(a[1])))
    for f in prog.funcs.values():
        if not f.file.startswith(SCOPE) or "interpreter_lua_c" in f.file:
            continue
        base = f.file.split("/")[-1]
        for n in f.calls():
            nm = n.get("n")
            if not nm or n.get("f") in prog.funcs or n["k"] != "Call":
                continue
            if nm in ("MultiByteToWideChar", "WideCharToMultiByte"):
                c.count("conversions")
                a = f.args(n)[0]
                if a.get("v") != 65001:
                    if (base, nm) in CP_EXC:
                        used.add((base, nm))
                        continue
                    c.violation("%s|%s|codepage" % (f.name, nm), f.file, n["l"], "%s converts text with code page %s instead of UTF-8" % (f.name, f.text(a)))
                continue
            if ANSI.match(nm):
                c.count("ansi_calls")
                rt = f.ntype(n)
                if rt["k"] == "ptr" and f.elt(rt)["k"] == "int" and f.elt(rt).get("z") == 1 and not f.elt(rt).get("u"):
                    c.violation("%s|%s|result" % (f.name, nm), f.file, n["l"], "%s gets text in the ANSI code page from %s" % (f.name, nm))
                for i, a in narrow_text_args(f, n):
                    if i in BINARY_PARAM.get(nm, ()):
                        continue
                    if const_text(prog, f, a):
                        c.count("constant_text_args")
                        continue
                    if (base, nm) in ANSI_EXC:
                        used.add((base, nm))
                        continue
                    c.violation("%s|%s|%d" % (f.name, nm, i), f.file, n["l"], "%s passes text that is not a constant (%s) to %s, which uses the ANSI code page" % (f.name, f.text(a), nm))
            elif nm in NARROW_CRT:
                if narrow_text_args(f, n):
                    c.count("narrow_crt_calls")
                    if not locale_ok:
                        c.violation("%s|%s|locale" % (f.name, nm), f.file, n["l"], "%s passes a UTF-8 name to %s, but no static initialiser selects the UTF-8 locale" % (f.name, nm))
    c.cov["exceptions"] = ["%s %s: %s" % (a, b, ANSI_EXC.get((a, b)) or CP_EXC.get((a, b))) for a, b in sorted(used)]
    c.need("ansi_calls", 40)
    c.need("conversions", 8)
    c.need("narrow_crt_calls", 10)
    return c
