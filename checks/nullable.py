"""P11: results that may be null are tested before they are used."""
import re
import ir, nullness
from check import Check

LIB = set("""strchr strrchr strstr strpbrk wcschr wcsrchr wcsstr memchr strtok bsearch
fopen _wfopen freopen _fdopen fdopen popen _popen tmpfile opendir getenv _wgetenv
lua_tolstring lua_touserdata lua_tothread luaL_testudata GlobalLock GetProcAddress GetModuleHandleA GetModuleHandleW
rl_variable_value rl_get_keymap_name rl_named_function current_history history_get previous_history next_history remove_history""".split())
# null only when an argument breaks the function's own precondition, or when memory is exhausted
PRECOND = {
    "line_editor_create": "null only for a description without streams",
    "binder::get_group_node": "null only for an index outside the node table",
    "display_lines::get": "null only for an index past the line count",
    "bind_resolver::binding::get_module": "null only for a binding that is not valid",
    "match_adapter::get_match": "null only for an index past the match count",
    "matches_impl::get_infos": "null only when there are no matches, and the callers iterate up to their number",
    "array::push_back": "null only when a fixed-size array is full",
    "array::operator[]": "index past the end",
    "linear_allocator::alloc": "null only when memory is exhausted or the size is zero",
}
FUNC_EXC = {
    ("add_impl", "checkstring(1)"): "the caller has already tested the first argument",
    ("add_impl::$lambda", "lua_touserdata(-1)"): "metamethod of the userdata itself",
    ("draw_test", "settings::find"): "looks up a setting that the same program defines",
    ("incomplete", "lua_tolstring"): "the error message of a failed parse is a string",
    ("is_rl_variable_true", "lua_tolstring"): "get_rl_variable has just pushed a string",
}


def bare(name):
    return re.sub(r"<[^<>]*>", "", name)


def nullable():
    c = Check("P11", "a result that can be null is tested on every path before it is dereferenced or passed on to code that requires an object")
    prog = ir.load()
    ours = [f for f in prog.funcs.values() if f.file.startswith("clink/") and f.blocks]
    nul = set()
    for f in ours:
        if f.type(f.d.get("ret", -1))["k"] == "ptr" and bare(f.name) not in PRECOND:
            for n in f.nodes:
                if n and n["k"] == "Return":
                    k = f.strip(f.kid(n, 0))
                    if k is not None and (k["k"] == "Null" or k.get("v") == 0 or (k["k"] == "Cond" and any(x is not None and (x["k"] == "Null" or x.get("v") == 0) for x in map(f.strip, f.kids(k)[1:])))):
                        nul.add(f.usr)
    needs = {}
    for _ in range(3):
        ch = False
        for f in ours:
            if any(f.vtype(v)["k"] == "ptr" for v in f.d.get("params", ())):
                r = nullness.must_deref(prog, f, needs)
                if r and needs.get(f.usr) != r:
                    needs[f.usr] = r
                    ch = True
        if not ch:
            break
    found, sites, uses, bad = {}, set(), 0, []
    new = set(nul)
    first = True
    while new:
        def src(fr, n, args):
            if len(args) > 1 and args[1][0] == "c" and args[1][1] < -1000:
                return False        # an upvalue set by the code that made the closure
            if n.get("n") in LIB:
                return True
            return any(t.usr in nul for t in prog.targets(n)) if n["k"] == "Call" else False
        names = {prog.funcs[u].name for u in new}
        over = {o for u in new for o in prog.funcs[u].d.get("overrides", ())}
        todo = [f.usr for f in ours if first and f.callees & LIB or f.callees & names or any(n.get("f") in over for n in f.calls())]
        fo, si, us, bd, nn = nullness.run(prog, todo, src, needs)
        found.update(fo)
        sites |= si
        uses += us
        bad += bd
        new = {u for u in nn if u not in nul and bare(prog.funcs[u].name) not in PRECOND}
        nul |= new
        first = False
    c.count("nullable_functions", len(nul))
    c.count("requiring_functions", len(needs))
    c.count("sites", len(sites))
    c.count("uses", uses)
    for (file, fn, source), (line, sl, how, tr) in sorted(found.items()):
        if (fn, source) in FUNC_EXC:
            c.count("exceptions")
            continue
        c.violation("%s %s" % (fn, source), file, line, "%s: the result of %s (line %s) is %s without having been tested for null" % (fn, source, sl, how), tr)
    if bad:
        c.cov["incomplete"] = sorted({prog.funcs[u].name for u in bad})
    c.need("sites", 300)
    c.need("uses", 20)
    return c
