"""P04 / P05: height of the Lua stack along every path of native code."""
import ir
import luaheight
from check import Check

# functions with a net effect that nothing in the product calls directly, or whose effect is not a fixed number
BAL_EXCEPT = {
    "lua_state::pcall": "member overload kept for callers that hold the object; forwards to the static one, which is analysed",
    "lua_state::pcall_silent": "member overload, as above",
    "save_stack_top::~save_stack_top": "restores the height its constructor saved; inlined into every function that uses it",
    "lua_bindable::push": "pushes the object; instantiated for every class, used by some",
    "lua_bindable::make_new": "pushes the new object; instantiated for every class, used by some",
    "config": "the settings tool's private state, closed before the process exits; do_config runs a script loaded on it",
    "do_config": "as above",
    "lua_state::send_event_string_out": "consumes its nargs arguments, like every send_event function",
    "lua_state::send_event_cancelable": "as above",
    "host_lua::send_event": "as above", "host_lua::send_event_string_out": "as above", "host_lua::send_event_cancelable": "as above",
    "lua_state::call_onfiltermatches": "consumes arguments and leaves results exactly like pcall",
}


def short(n):
    import re
    return re.sub(r"<.*?>(?=::|$)", "", n)


def _analysis(c):
    prog = ir.load()
    an = luaheight.Analysis(prog)
    an.close()
    c.cov["functions_analysed"] = len(an.res)
    c.cov["paths_to_exit"] = sum(len(r["exits"]) for r in an.res.values())
    c.need("functions_analysed", 300)
    return prog, an


def hs(h):
    if h is None:
        return "an undetermined height"
    return "%s%+d%s" % ({"e": "entry", "a": "absolute"}[h[0]], h[1], " plus %d unknown term(s)" % len(h[2]) if h[2] else "")


def blame(prog, an, f):
    """The innermost functions whose effect is not fixed, reached from f through such functions."""
    out, seen = [], set()

    def go(g):
        if g.usr in seen:
            return
        seen.add(g.usr)
        sub = []
        if an.summary(g) == {"*": None}:
            for n in g.calls():
                for t in prog.targets(n):
                    if t.usr in an.rel.set and t.usr != g.usr and not luaheight.is_cfunction(t) and short(t.name) not in BAL_EXCEPT \
                            and t.short not in ("glob_next",) and an.summary(t) == {"*": None}:
                        sub.append(t)
        if sub:
            for t in sub:
                go(t)
        else:
            out.append(g)

    go(f)
    return out or [f]


def balance():
    c = Check("P04", "on every path, native code outside Lua C functions leaves the Lua stack at the height it found it, or shifted by one fixed amount that depends only on its arguments and result and that every caller compensates")
    prog, an = _analysis(c)
    used = set()
    lua = 0
    for u in sorted(an.rel.set):
        f = prog.funcs[u]
        if not f.blocks or luaheight.is_cfunction(f):
            continue
        s = an.summary(f)
        r = an.run(f)
        lua += 1
        c.count("obligations")
        if s == {"*": 0}:
            continue
        callers = [x for x in an.callers.get(u, ()) if x != u and not luaheight.excluded(prog.funcs[x])]
        if s != {"*": None} and an.callers.get(u, set()) - {u}:
            c.count("helpers_with_fixed_effect")
            continue            # accounted for in the callers
        if s == {"*": None} and callers and all(x in an.rel.set and an.usable(f) for x in callers):
            c.count("helpers_followed_into_callers")
            continue            # followed path by path in the callers
        if short(f.name) in BAL_EXCEPT and not ("::send_event" in f.name and len({e[2] for e in r["exits"]}) > 1):
            used.add("%s: %s" % (short(f.name), BAL_EXCEPT[short(f.name)]))
            continue
        for f2 in blame(prog, an, f):
            r = an.run(f2)
            bad = [e for e in r["exits"] if e[2] != luaheight.ZERO] or r["exits"]
            kinds = sorted({hs(e[2]) for e in r["exits"]}) if f2 is not f else sorted({hs(e[2]) for e in bad})
            where = "; the height is lost at %s:%s (%s)" % r["lost"] if r["lost"] else ""
            c.violation("balance|%s" % f2.name, f2.file, f2.line, "%s can return with the Lua stack at %s%s%s"
                        % (f2.name, " or ".join(kinds[:4]), where, "" if f2 is f else ", which nothing up to %s makes good" % f.name),
                        ["line %s" % x for x in (bad[0][3] if bad else [])])
    c.cov["exceptions_applied"] = used
    c.need("obligations", 120)
    return c


def results():
    c = Check("P05", "on every path a Lua C function has pushed at least as many values as the number of results it returns, never removes values it did not push, and pushes a bounded number of values")
    prog, an = _analysis(c)
    used = set()
    for u in sorted(an.rel.set):
        f = prog.funcs[u]
        if not f.blocks or not luaheight.is_cfunction(f):
            continue
        an.summary(f)
        r = an.run(f)
        c.count("lua_functions")
        for (file, line, name), (call, h) in sorted(r["under"].items(), key=str):
            if short(f.name) == "lua_bindable::call":
                used.add("lua_bindable::call: removes its two leading arguments around the method call and returns the method's results")
                continue
            c.violation("removes|%s" % f.name, file, line, "%s removes a value it did not push (%s leaves the stack %d below where the function found it)" % (f.name, call, -h))
        for cls, cv, h, tr, d in r["exits"]:
            c.count("returns_checked")
            if d is not None and d >= 0:
                continue
            if short(f.name) == "lua_bindable::call" and d == -2:
                used.add("lua_bindable::call: removes its two leading arguments around the method call and returns the method's results")
                continue
            lost = " (lost at %s:%s, %s)" % r["lost"] if r["lost"] else ""
            if d is None:
                c.violation("results|%s|unknown" % f.name, f.file, f.line, "%s returns %s results with the stack at %s%s: they cannot be shown to be pushed"
                            % (f.name, "an unknown number of" if cv is None else cv, hs(h), lost), ["line %s" % x for x in tr])
            else:
                c.violation("results|%s|%s" % (f.name, cv), f.file, f.line, "%s returns %s results on a path where only %s were pushed" % (f.name, cv if cv is not None else "some", (cv or 0) + d),
                            ["line %s" % x for x in tr])
    c.cov["exceptions_applied"] = used
    c.cov["not_analysed"] = sorted(luaheight.SKIP) + list(luaheight.SKIP_FILES)
    c.need("lua_functions", 250)
    return c
