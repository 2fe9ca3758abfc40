"""P24: errors in scripts and patterns stay where they belong.  P25: values from scripts are tables before they are used as tables."""
import re
import ir, luaheight, luatypes, luafront, luascripts
from luafront import walk
from check import Check
from extract import AnalysisBroken

RAISE = re.compile(r"^(lua_callk?|lua_error|luaL_error|luaL_check(?!version_|stack)\w+|luaL_opt\w+|luaL_argerror|lua_arith|lua_concat|luaL_requiref|luaL_tolstring|lua_compare|lua_yieldk?)$")
# functions that only run inside the standalone interpreter's own protected call, or where the raise is impossible
RAISE_EXCEPT = {
    "lstop": "the interpreter's debug hook; runs inside the script it stops",
    "lua_bindable::make_new": "verifies, in debug builds, the metatable of the object it just made",
    "luaL_SessionStream::make_new": "as above", "luaL_YieldGuard::make_new": "as above",
    "loadline": "lua_concat of two strings", "dotty": "the standalone interpreter", "getargs": "the standalone interpreter", "pmain": "the standalone interpreter",
}
THROWS = {"regex": "std::regex_error"}


def short(n):
    return re.sub(r"<.*?>(?=::|$)", "", n)


def addresses(prog):
    """Functions whose address is taken: anything may call them."""
    out = set()
    for f in list(prog.funcs.values()) + list(ir.globals_of(prog)):
        used = set()
        for n in f.nodes:
            if n:
                used.update(n.get("c", ()))
                if n["k"] == "DeclStmt":
                    used.update(d["i"] for d in n["ds"])
        for i, n in enumerate(f.nodes):
            if n and n["k"] in ("Ref", "Member") and n.get("dk") == "fn" and n.get("f") and (i in used or isinstance(f, ir.GlobalVar)):
                out.add(n["f"])
    return out


def outside(prog):
    """Functions that can run without a protected call around them, with the caller that gets there."""
    callers = prog.callers()
    cf = {u for u, f in prog.funcs.items() if luaheight.is_cfunction(f)}
    taken = addresses(prog)
    roots = [u for u, f in prog.funcs.items() if u not in cf and not f.has("lambda") and (not callers.get(u) or u in taken)]
    par, st = {u: None for u in roots}, list(roots)
    while st:
        u = st.pop()
        f = prog.funcs[u]
        for n in f.calls():
            for t in prog.targets(n):
                if t.usr not in par:
                    par[t.usr] = u
                    st.append(t.usr)
    return par


def contained():
    c = Check("P24", "no Lua API call that can raise an error runs outside of a protected call; the outcome of a protected call is tested before its results are read; regular expressions are compiled and matched inside a handler")
    prog = ir.load()
    par = outside(prog)
    out = {u for u in par if prog.funcs[u].file.startswith("clink/") and not prog.funcs[u].file.startswith("clink/test")}
    # methods bound for scripts: member functions that take a lua_State and return int
    for u in sorted(out):
        f = prog.funcs[u]
        if par[u] is None and f.cls and luaheight.is_cfunction(f):
            continue
        c.count("functions_outside")
        for n in f.calls():
            if not RAISE.match(n.get("n") or ""):
                continue
            c.count("raising_calls_outside")
            if short(f.name) in RAISE_EXCEPT:
                continue
            path, x = [], u
            while x:
                path.append(prog.funcs[x].name)
                x = par[x]
            c.violation("%s|%s" % (short(f.name), n["n"]), f.file, n.get("l"),
                        "%s calls %s, which can raise a Lua error, and can run outside of any protected call (%s)" % (f.name, n["n"], " < ".join(path[:5])), path[::-1])
    c.need("functions_outside", 1500)
    # C functions for scripts may raise; how many such calls the rule looked at
    for f in prog.funcs.values():
        if f.usr not in out and f.file.startswith("clink/"):
            c.count("raising_calls_inside", sum(1 for n in f.calls() if RAISE.match(n.get("n") or "")))
    c.need("raising_calls_inside", 100)

    # results of protected calls
    an = luaheight.Analysis(prog)
    an.close()
    T = luatypes.Types(prog, an, out)
    T.run()
    c.count("protected_calls", len(T.pcalls))
    c.count("stack_reads", T.reads)
    c.need("protected_calls", 30)
    c.need("stack_reads", 300)
    for (u, nm, l), (f, n, what, tx) in sorted(T.viol.items(), key=str):
        if what == "result":
            c.violation("%s|%s" % (f.name, nm), f.file, n.get("l"), "%s takes the value at %s for a result without testing that the protected call succeeded; when it failed that is the error message" % (f.name, tx))
        elif nm in luatypes.RAISING or what in luatypes.RAISING:
            c.violation("%s|%s" % (f.name, nm), f.file, n.get("l"), "%s: %s on a value that may not be a table raises an error outside of any protected call" % (f.name, nm))

    # C++ exceptions
    for f in prog.funcs.values():
        if not f.file.startswith("clink/") or f.file.startswith("clink/test"):
            continue
        for n in f.nodes:
            if not n or n["k"] not in ("Call", "Construct"):
                continue
            nm = n.get("n") or ""
            ty = f.type(n["t"]).get("s", "") if n.get("t") is not None else ""
            k = None
            if re.match(r"^std::regex_(search|match|replace)$", nm.split("<")[0]):
                k = "matches a regular expression"
            elif nm.split("<")[0] in ("std::make_unique", "std::make_shared") and rx(f, n):
                k = "compiles a regular expression"
            elif n["k"] == "Construct" and re.match(r"^std::basic_regex", nm) and f.args(n):
                k = "compiles a regular expression"
            elif n["k"] == "New" and rx(f, n):
                k = "compiles a regular expression"
            elif re.match(r"^std::(sto[ildufl]+|stoull|stoul|stold)$", nm) or re.match(r"^std::(vector|deque|map|unordered_map|basic_string|array)\b.*::at$", nm):
                k = "calls %s" % nm
            if k is None:
                continue
            c.count("throwing_operations")
            h = n.get("try", "")
            if "..." in h or "std::exception" in h or ("regular" in k and "regex_error" in h):
                continue
            c.violation("%s|%s" % (f.name, k), f.file, n.get("l"), "%s %s outside of a handler for the exception it throws on bad input" % (f.name, k))
    c.need("throwing_operations", 2)

    # bundled scripts
    sc = luascripts.Scripts()
    for ch in sc.chunks:
        if ch.path.endswith("debugger.lua"):
            continue
        for fn in ch.allfuncs:
            for n in walk(fn, False):
                if n.k not in ("local", "assign", "callst"):
                    continue
                e = (n.exps[0] if n.exps else None) if n.k != "callst" else n.e
                if e is None or e.k != "call":
                    continue
                d = luafront.dotted(e.f)
                if d not in ("pcall", "xpcall", "coroutine.resume", "loadfile", "load", "loadstring"):
                    continue
                c.count("script_protected_calls")
                what = "%s in %s" % (d, luascripts.fname(fn) if hasattr(luascripts, "fname") else fn.name)
                if n.k == "callst":
                    c.violation("%s|%s" % (ch.path, what), ch.path, n.l, "%s: the outcome is ignored" % what)
                    continue
                v = first_var(n)
                if v is None:
                    continue
                if not tested(ch, fn, v):
                    c.violation("%s|%s" % (ch.path, what), ch.path, n.l, "%s: its first result, which tells whether the call succeeded, is never tested" % what)
    c.need("script_protected_calls", 12)
    return c


def rx(f, n):
    t = f.ntype(n)
    s = str(t.get("s", "")) + str(t.get("r", ""))
    e = f.type(t["e"]) if "e" in t else {}
    return "basic_regex" in s or "basic_regex" in (str(e.get("r", "")) + str(e.get("s", ""))) or "basic_regex" in (n.get("n") or "")


def first_var(n):
    if n.k == "local":
        return n.vars[0] if getattr(n, "vars", None) else None
    t = n.targets[0]
    return t.var if t.k == "name" and t.var is not None else None


def conds(n):
    if n.k == "if":
        return [a for a, _ in n.arms]
    if n.k in ("while", "repeat"):
        return [n.c]
    if n.k == "bin" and n.op in ("and", "or"):
        return [n.a]
    if n.k == "un" and n.op == "not":
        return [n.a]
    return []


def tested(ch, fn, v):
    for n in walk(fn):
        for e in conds(n):
            for x in walk(e):
                if x.k == "name" and x.var is v:
                    return True
        if n.k == "return" and n.exps:
            x = n.exps[0]
            if x.k == "name" and x.var is v:
                return True
    return False


def typed():
    c = Check("P25", "every Lua stack value that is indexed as a table, traversed or referenced is known to be a table on every path: just created, or its type was tested")
    prog = ir.load()
    an = luaheight.Analysis(prog)
    an.close()
    T = luatypes.Types(prog, an, set())
    todo = T.run()
    c.count("functions", len(todo))
    c.count("obligations", T.sites)
    c.count("traversals", T.nexts)
    c.count("requirements_on_callers", sum(len(x) for x in T.req.values()))
    for (u, nm, l), (f, n, what, tx) in sorted(T.viol.items(), key=str):
        if what == "result":
            continue
        if what == "key":
            c.violation("%s|key" % f.name, f.file, n.get("l"), "%s converts the key at %s to a string while it traverses a table" % (f.name, tx))
        elif what == nm:
            c.violation("%s|%s|%s" % (f.name, nm, tx), f.file, n.get("l"), "%s calls %s on the value at %s, which may not be a table" % (f.name, nm, tx))
        else:
            c.violation("%s|%s" % (f.name, nm), f.file, n.get("l"), "%s calls %s with a value that may not be a table (%s)" % (f.name, nm, what))
    for u, d in T.req.items():
        f = prog.funcs[u]
        if not T.callers.get(u):
            for (r, cond), why in d.items():
                c.violation("%s|entry" % f.name, f.file, f.line, "%s uses a value it is given as a table (%s), and who calls it is unknown" % (f.name, why))
    c.need("functions", 300)
    c.need("obligations", 500)
    c.need("traversals", 1)
    return c
