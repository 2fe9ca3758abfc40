"""P12: the scripting API does what its documentation says.  P13: scripts and native code agree on names."""
import re
import extract, ir, luaapi, luafront, luascripts
from luafront import walk
from luascripts import fname
from check import Check

# index arguments are read by these
ACC = re.compile(r"^(lua_(to\w+|is\w+|type|rawlen|pushvalue)|luaL_(check\w+|opt\w+|argerror)|check(string|integer|number)|opt(string|integer|number|boolean))$")

# documented names whose registered function is shared with a newer name or whose documentation is elsewhere
ARG_EXC = {
    "clink.split": "a deprecated name for string.explode, which takes a third argument",
    "rl.getinputrcfilename": "an undocumented argument for the standalone interpreter",
    "rl_buffer:setcommentrow": "the documentation shows the argument only in its text",
    "settings.get": "an undocumented third argument",
}
RET_EXC = {"clink.getansihost": "an undocumented second value"}


def native_files(prog):
    return sorted({f.file for f in prog.funcs.values() if f.file.startswith("clink/") and f.file.endswith(".cpp")})


def nret(doc):
    return max([len(y.split(",")) for y in doc.rets] or [0])


def documented():
    c = Check("P12", "each documented script API is registered under its name, bound to the function that carries the documentation, reads only documented arguments and returns the documented number of values")
    prog = ir.load()
    api = luaapi.Api(prog)
    sc = luascripts.Scripts()
    rels = native_files(prog) + [x.path for x in sc.chunks]
    ds = luaapi.docs(extract.REPO, rels)
    byfile = {}
    for f in prog.funcs.values():
        byfile.setdefault(f.file, []).append(f)
    docline = {}
    for d in ds:
        docline.setdefault(d.file, []).append(d.line)
    chunks = {x.path: x for x in sc.chunks}
    for k, f in api.dups:
        c.violation("dup " + k, f.file, f.line, "%s is registered twice" % k)
    seen = {}
    for d in ds:
        c.count("documented")
        key = (d.name, d.file.rsplit(".", 1)[1] if d.deprecated is None else "")
        if d.name in seen and not d.deprecated and not seen[d.name].deprecated:
            c.violation("doc twice " + d.name, d.file, d.line, "%s is documented twice (also %s:%d)" % (d.name, seen[d.name].file, seen[d.name].line))
        seen.setdefault(d.name, d)
        if d.file in chunks:
            lua_doc(c, sc, chunks[d.file], d)
        else:
            native_doc(c, prog, api, sc, d, docline, byfile)
    c.need("documented", 250)
    c.need("native_functions", 150)
    c.need("script_functions", 60)
    return c


def native_doc(c, prog, api, sc, d, docline, byfile):
    nm = d.name
    if d.var:
        c.count("values")
        if nm not in api.values and nm != "CLINK_EXE" and nm not in sc.defs:
            c.violation("value " + nm, d.file, d.line, "documented value %s is never set" % nm)
        return
    cls = ":" in nm
    if cls:
        o, m = nm.split(":")
        hits = [prog.funcs.get(u) for cl, (n, rows, g) in api.classes.items() for s, u, fn, fl in rows if s == m and (cl == o or cl == o + "_lua" or n == o)]
        if not hits:
            hits = [prog.funcs.get(u) for cl, (n, rows, g) in api.classes.items() for s, u, fn, fl in rows if s == m]
        if not hits:
            hits = [f for k, (f, fl, fn) in api.funcs.items() if k.endswith(":" + m)]
        fs = hits
    else:
        x = api.funcs.get(nm)
        fs = [x[0]] if x else []
        if not x and sc.func(nm):
            return          # implemented by a script
        if not x and nm in luascripts.STD:
            return          # documents a standard function that Clink extends
    if not fs:
        c.violation("unregistered " + nm, d.file, d.line, "documented function %s is not registered" % nm)
        return
    fs = [f for f in fs if f is not None]
    c.count("native_functions")
    # the documentation belongs to the function that follows it
    nxt = min([l for l in docline[d.file] if l > d.line], default=10 ** 9)
    region = [f for f in byfile.get(d.file, ()) if d.next <= f.line < nxt]
    inside = [f for f in fs if f in region]
    if not inside and region and d.deprecated is None:
        c.violation("binding " + nm, d.file, d.line, "%s is registered as %s, but its documentation belongs to %s" % (nm, fs[0].name if fs else "?", ", ".join(f.name for f in region[:3])))
        return
    if not inside and d.deprecated and d.deprecated in api.funcs and fs and api.funcs[d.deprecated][0] is not fs[0]:
        c.violation("binding " + nm, d.file, d.line, "%s is registered as %s, but the name it is deprecated for is %s" % (nm, fs[0].name, api.funcs[d.deprecated][2]))
        return
    if d.deprecated is not None:
        return
    f = (inside or fs)[0]
    top = 0
    for n in f.calls():
        if ACC.match((n.get("n") or "").rsplit("::", 1)[-1]):
            a = f.args(n)
            v = f.strip(a[1]) if len(a) > 1 else None
            if v is not None and 0 < v.get("v", 0) < 100:
                top = max(top, v["v"])
    if top > len(d.args) + cls and not any("..." in a for a in d.args) and nm not in ARG_EXC:
        c.violation("args " + nm, f.file, f.line, "%s reads argument %d, but only %d are documented" % (f.name, top - cls, len(d.args)))
    rets = returns_native(f)
    if rets is None or nm in RET_EXC:
        return
    c.count("return_counts")
    want = nret(d)
    if rets and max(rets) > want:
        c.violation("rets " + nm, f.file, f.line, "%s returns %d values, but %d are documented" % (f.name, max(rets), want))
    if rets and max(rets) < want:
        c.violation("rets " + nm, f.file, f.line, "%s returns at most %d values, but %d are documented" % (f.name, max(rets), want))


def returns_native(f):
    """Constant return values, or None when some are computed."""
    out = set()
    for n in f.nodes:
        if n and n["k"] == "Return":
            v = f.strip(f.kid(n, 0))
            if v is None:
                continue
            if "v" in v:
                out.add(v["v"])
            elif v["k"] == "Cond":
                for x in f.kids(v)[1:]:
                    x = f.strip(x)
                    if x is not None and "v" in x:
                        out.add(x["v"])
                    else:
                        return None
            elif v["k"] == "Call" and v.get("n") in ("luaL_error", "luaL_argerror", "lua_error"):
                continue
            else:
                return None
    return out


def lua_returns(fn):
    """(largest number of values returned, open ended)"""
    m, op = 0, False
    for s in fn.body:
        for x in walk(s, False):
            if x.k == "return":
                m = max(m, len(x.exps))
                if x.exps and x.exps[-1].k in ("call", "method", "vararg"):
                    op = True
    return m, op


def lua_doc(c, sc, chunk, d):
    if d.var:
        c.count("values")
        root = d.name.split(".")[0]
        if d.name not in sc.defs and not any(x.v == d.name for ch in sc.chunks for x in ch.globals_read) and not any(u[2] == d.name for u in sc.uses()):
            c.violation("value " + d.name, d.file, d.line, "documented value %s is never used" % d.name)
        return
    hit = [f for f in chunk.allfuncs if f.l == d.next]
    names = {f.name for f in hit}
    f = next((f for f in hit if f.name in (d.name, "_" + d.name)), None)
    if f is None:
        m = re.split(r"[.:]", d.name)[-1]
        f2 = [e for ch, e in sc.defs.get(d.name, ())] or [e for ch, e in sc.methods.get(m, ())]
        if ":" in d.name and not f2 or ":" not in d.name and not (d.name in sc.defs):
            c.violation("undefined " + d.name, d.file, d.line, "documented function %s is not defined" % d.name)
        elif any(n for n in names if n) and not d.deprecated and "." in d.name and all(n and n != d.name for n in names):
            c.violation("placed " + d.name, d.file, d.line, "the documentation of %s belongs to %s" % (d.name, ", ".join(sorted(names))))
        return
    c.count("script_functions")
    if d.deprecated is not None:
        return
    n = len(f.params) - (1 if ":" in d.name and f.params and f.params[0].kind == "self" else 0)
    var = any("..." in a for a in d.args)
    if not f.vararg and not var and n != len(d.args):
        c.violation("args " + d.name, d.file, f.l, "%s takes %d arguments, but %d are documented" % (d.name, n, len(d.args)))
    m, op = lua_returns(f)
    want = nret(d)
    if m < want and not op:
        c.violation("rets " + d.name, d.file, f.l, "%s returns at most %d values, but %d are documented" % (d.name, m, want))


# ------------------------------------------------------------------------------------------------
GLOBALS_OK = {
    "clink": "the API table", "rl_state": "documented for prompt filters and generators", "git": "the git module", "config_loader": "used by clink config",
    "NONL": "documented constant", "NOSTK": "documented constant", "pause": "documented debugging aid", "_error_handler": "called by the native code", "_error_handler_ret": "called by the native code",
    "_co_error_handler": "called by the native code", "require": "wrapped while a theme is loaded",
}
VENDOR = {"clink/lua/scripts/debugger.lua": "third-party debugger that defines its commands as globals"}
SENDERS = {"send_event", "send_event_string_out", "send_event_cancelable", "send_event_cancelable_string_inout", "send_event_internal", "host_send_event"}


def names():
    c = Check("P13", "every name that a script takes from the native code or from another script, and every name the native code takes from a script, is defined with a compatible signature")
    prog = ir.load()
    api = luaapi.Api(prog)
    sc = luascripts.Scripts()
    known = set(luascripts.STD) | set(api.funcs) | set(api.values) | set(sc.defs) | {"CLINK_EXE"} | set(api.tables)
    known |= {k.rsplit(".", 1)[0] for k in known if "." in k}
    gnames = native_globals(prog)
    known |= gnames
    roots = {k.split(".")[0] for k in known if "." in k}
    uses = list(sc.uses())
    tested = {}
    for ch, n, d, t, fn in uses:
        if t:
            tested.setdefault(ch.path, set()).add(d)
    for ch, n, d, t, fn in uses:
        c.count("script_uses")
        if d in known or t:
            continue
        if "." in d:
            if d.split(".")[0] not in roots:
                continue
            ps = d.split(".")
            pre = [".".join(ps[:i]) for i in range(2, len(ps) + 1)]
            if any(p in tested.get(ch.path, ()) for p in pre):
                continue            # optional: its presence is tested in the same script
            if n_parent_known_value(pre, sc, api):
                continue
        c.violation("undefined %s in %s" % (d, ch.path), ch.path, n.l, "%s uses %s, which is defined neither by the native code nor by a script" % (fname(fn), d))
    # accidental globals
    for ch in sc.chunks:
        if ch.path in VENDOR:
            continue
        for x in ch.globals_written:
            c.count("global_writes")
            if x.v not in GLOBALS_OK:
                c.violation("global %s in %s" % (x.v, ch.path), ch.path, x.l, "%s assigns the undeclared global %s" % (fname(x.func), x.v))
    # methods
    meths = set(sc.methods) | luascripts.STD_METHODS | {s for n, rows, g in api.classes.values() for s, u, fn, fl in rows}
    meths |= native_metatable_names(prog) | {k.split(".")[1] for k in api.funcs if k.startswith("string.")}
    for ch in sc.chunks:
        for x in walk(ch.main):
            if x.k == "method":
                c.count("method_calls")
                if x.m not in meths:
                    c.violation("method %s in %s" % (x.m, ch.path), ch.path, x.l, "%s calls method %s, which no class defines" % (fname(x.func), x.m))
    # native code calling scripts
    for f in prog.funcs.values():
        if not f.file.startswith("clink/"):
            continue
        named = []
        for n in f.calls():
            s = (n.get("n") or "").rsplit("::", 1)[-1]
            if s in ("push_named_function", "host_call_lua_rl_global_function", "call_lua_rl_global_function"):
                for a in f.args(n):
                    a = f.strip(a)
                    if a is not None and a["k"] == "Str":
                        named.append((n, a["s"]))
        for n, s in named:
            c.count("native_calls")
            if not sc.func(s) and s not in api.funcs:
                c.violation("native %s" % s, f.file, n["l"], "%s calls the script function %s, which no script defines" % (f.name, s))
                continue
            later = sorted((m["l"], i, m) for i, m in enumerate(f.calls()) if m["l"] >= n["l"] and (m.get("n") or "").rsplit("::", 1)[-1] in ("pcall", "pcall_silent", "lua_pcallk") and len(f.args(m)) >= 3)
            nextn = min([m["l"] for m, _ in named if m["l"] > n["l"]], default=10 ** 9)
            later = [x for x in later if x[0] < nextn]
            if not later or not sc.func(s):
                continue
            a = [f.strip(x) for x in f.args(later[0][2])]
            na, nr = a[1].get("v") if a[1] else None, a[2].get("v") if a[2] else None
            c.count("native_signatures")
            fns = [e for _, e in sc.func(s)]
            if na is not None and all(not e.vararg and na > len(e.params) for e in fns):
                c.violation("native args %s" % s, f.file, later[0][0], "%s passes %d arguments to %s, which takes %d" % (f.name, na, s, len(fns[0].params)))
            if nr is not None and nr > 0 and all(not lua_returns(e)[1] and nr > lua_returns(e)[0] for e in fns):
                c.violation("native rets %s" % s, f.file, later[0][0], "%s expects %d results from %s, which returns %d" % (f.name, nr, s, lua_returns(fns[0])[0]))
    events(c, prog, sc)
    c.need("script_uses", 2000)
    c.need("native_calls", 20)
    c.need("native_signatures", 10)
    c.need("events", 9)
    return c


def n_parent_known_value(pre, sc, api):
    """A member of a table that is filled dynamically (the value, not the table's layout, is data)."""
    for p in pre[:-1]:
        for ch, e in sc.defs.get(p, ()):
            if e is None or e.k not in ("table", "bin"):
                return True
            if e.k == "table" and not e.items:
                return True
    return False


def native_globals(prog):
    out = set()
    for f in prog.funcs.values():
        if f.callees & {"lua_setglobal"}:
            for n in f.calls("lua_setglobal"):
                a = f.args(n)
                s = f.strip(a[1]) if len(a) > 1 else None
                if s is not None and s["k"] == "Str":
                    out.add(s["s"])
    return out


def native_metatable_names(prog):
    """Names in luaL_Reg style tables (session streams, yield guards)."""
    out = set()
    for usr, g in prog.globals.items():
        if g[1].startswith("clink/lua/src"):
            gv = ir.GlobalVar(prog, usr, *g)
            for n in gv.nodes:
                if n and n["k"] == "InitList":
                    s = [x for x in (gv.strip(k) for k in gv.kids(n)) if x is not None]
                    if len(s) == 2 and s[0]["k"] == "Str":
                        out.add(s[0]["s"])
    for f in prog.funcs.values():
        if f.file.startswith("clink/lua/src") and f.callees & {"luaL_newmetatable", "luaL_setfuncs"}:
            for n in f.nodes:
                if n and n["k"] == "InitList":
                    s = [x for x in (f.strip(k) for k in f.kids(n)) if x is not None]
                    if len(s) == 2 and s[0]["k"] == "Str":
                        out.add(s[0]["s"])
    return out


def events(c, prog, sc):
    sent, mech = {}, set()
    for f in prog.funcs.values():
        if not f.file.startswith("clink/"):
            continue
        for n in f.calls():
            if (n.get("n") or "").rsplit("::", 1)[-1] in SENDERS:
                for a in f.args(n):
                    a = f.strip(a)
                    if a is not None and a["k"] == "Str":
                        if a["s"].startswith("_send"):
                            mech.add((a["s"], f, n["l"]))
                        elif a["s"].startswith("on"):
                            sent.setdefault(a["s"], (f, n["l"]))
        for n in f.nodes:
            if n and n["k"] == "Str" and re.match(r"on[a-z]+$", n.get("s", "")):
                sent.setdefault("?" + n["s"], (f, n["l"]))
    reg = {}
    for ch in sc.chunks:
        for x in walk(ch.main):
            if x.k == "call" and x.f.k == "name" and x.f.v == "_add_event_callback":
                if x.args and x.args[0].k == "str":
                    reg[x.args[0].v] = (ch, x)
                    fn = x.func
                    if fn.name != "clink." + x.args[0].v:
                        c.violation("event %s registration" % x.args[0].v, ch.path, x.l, "%s registers callbacks for the event %s" % (fn.name, x.args[0].v))
            elif x.k == "str" and re.match(r"on[a-z]+$", x.v):
                sent.setdefault("?" + x.v, None)
    # Lua side mentions other than the registration itself
    mention = {}
    for ch in sc.chunks:
        for x in walk(ch.main):
            if x.k == "str" and re.match(r"on[a-z]+$", x.v):
                mention[x.v] = mention.get(x.v, 0) + 1
            elif x.k == "call" and x.f.k == "name" and x.f.v == "_add_event_callback" and x.args and x.args[0].k == "str":
                mention[x.args[0].v] = mention.get(x.args[0].v, 0) - 1
            elif x.k == "index" and x.i.k == "str" and x.i.v in reg:
                pass
    c.cov["events"] = len(reg)
    for e, (ch, x) in sorted(reg.items()):
        native = e in sent or ("?" + e in sent and sent["?" + e] is not None)
        if not native and mention.get(e, 0) <= 0:
            c.violation("event %s never sent" % e, ch.path, x.l, "scripts can register for the event %s, but nothing sends it" % e)
    for e, w in sorted(sent.items()):
        if not e.startswith("?") and e not in reg and w is not None:
            c.violation("event %s unregistrable" % e, w[0].file, w[1], "%s sends the event %s, for which scripts cannot register" % (w[0].name, e))
    for m, f, l in sorted(mech, key=lambda t: t[0]):
        c.count("event_mechanisms")
        if not sc.func("clink._internal." + m):
            c.violation("event mechanism %s" % m, f.file, l, "%s sends events through %s, which no script defines" % (f.name, m))
