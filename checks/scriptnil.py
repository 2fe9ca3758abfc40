"""P27: the scripts Clink ships never use a missing value as if it were present."""
import os
import ir
import luaapi
import luanil
import luascripts
from check import Check
from extract import AnalysisBroken

# Functions written in C++ that may return nil, with the number of values that are missing together (documented as "| nil").
NATIVE = {"rl.getvariable": 1, "rl.isvariabletrue": 1, "rl.invokecommand": 1, "rl.getcommandbindings": 1, "rl.gethistoryindex": 1, "rl.translatekey": 1,
          "rl.getinputrcfilename": 2, "rl.getkillringstring": 1, ":getanchor": 1, ":getargument": 1, "console.readinput": 1, "console.sendterminalrequest": 1,
          "os.getexesubsystem": 1, "os.getenv": 1, "os.getalias": 1, "os.resolvealias": 1, "os.getclipboardtext": 1, "os.expandabbreviatedpath": 3,
          "os.getfileversion": 1, "settings.get": 1, "settings.list": 1, "settings.parsecolor": 1, "settings.formatcolor": 1, "unicode.fromcodepage": 1, "unicode.tocodepage": 1,
          "path.getdirectory": 1, "path.getdrive": 1, "log.getfile": 1}

# Functions whose last test for nil never fails.
SURE = {"get_classify_color": "every name it looks up is a setting",
        "clink.argmatcher": "both branches of the test leave a matcher", "git.makecommand": "only a missing command gives none, and every call passes one"}

SKIP = {"debugger.lua": "the interactive debugger of the Lua developer tools: what it reads is typed by the developer"}

EXCEPT = {
    ("cd_delayinit", "pending.desc"): "the flag and the description of a pending entry are set and cleared together",
    ("nilwhenzero", "tonumber()"): "both callers pass what %d+ matched",
    ("use_custom_prompt", "file"): "every argument either names the file or ends the function, and there is at least one",
    ("_do_filter_prompt", "func"): "a missing :filter function is meant to raise the error",
    ("color_handler", "info"): "set together with word, which the test requires",
    ("color_handler", "word"): "only a word makes the argument invalid",
    ("set_handler", "settings.get()"): "the name comes from the list of settings",
    ("classify_handler", "setting_info"): "a prefix of a name is only accepted at the end of the line, so there is no next word",
    ("test_dupe", "es"): "suggestions are only stored with their text",
    ("aggregate", "index_analyzed_history"): "the first entry has nothing to be a duplicate of, so it sets the index",
    ("internal_check_for_update", "mock"): "only for debugging the updater",
    ("internal_check_for_update", "f"): "only for debugging the updater",
    ("clink.addpackagepath", "parent"): "scripts are loaded by their full path",
    ("os.abbreviatepath", "parent"): "os.getenv makes up HOME from the user's profile directory",
    ("argmatcher_classifier:classify", "cw"): "the function only returns nothing for a missing word, and the word is never missing",
    ("argmatcher_classifier:classify", "reader"): "the tokeniser skips leading @ signs of the first command, so only chained commands, which have a reader, start with one",
}


CHECKS = {"checkstring", "checkinteger", "checknumber", "luaL_checkstring", "luaL_checkinteger", "luaL_checknumber", "luaL_checklstring", "luaL_checktype"}


def required(prog):
    """name -> positions of the arguments a native function insists on."""
    api = luaapi.Api(prog)
    out, meths = {}, {}

    def of(f, off):
        r = set()
        for n in f.nodes if f else ():
            if n and n["k"] in ("Call", "MCall") and (n.get("n") or "").rsplit("::", 1)[-1] in CHECKS:
                a = f.args(n)
                v = f.strip(a[1]) if len(a) > 1 else None
                if v is not None and 0 < v.get("v", 0) < 20:
                    r.add(v["v"] - 1 - off)
        return {i for i in r if i >= 0}
    for k, (f, flag, nm) in api.funcs.items():
        out[k] = of(f, 0)
    for cls, (name, rows, g) in api.classes.items():
        for s, u, nm, flag in rows:
            meths.setdefault(s, []).append(of(prog.funcs.get(u), 1))
    for s, rs in meths.items():
        out[":" + s] = set.intersection(*rs)
    return {k: r for k, r in out.items() if r}


def scriptnil():
    c = Check("P27", "in the scripts Clink ships, a value that a function documents as possibly missing, that another script function may leave out, or that the code itself tests, is on every path known to be present before it is indexed, called, concatenated, counted or computed with")
    sc = luascripts.Scripts()
    for d in SURE:
        if not sc.func(d) and not any(f.name == d for x in sc.chunks for f in x.allfuncs):
            raise AnalysisBroken("script function %s not found" % d)
    sc.chunks = [x for x in sc.chunks if os.path.basename(x.path) not in SKIP]
    nat = required(ir.load())
    c.count("native_functions_with_required_arguments", len(nat))
    n = luanil.Nil(sc, NATIVE, SURE, nat)
    c.count("functions", n.run())
    c.count("uses", n.uses)
    c.count("possibly_missing_values", n.sources)
    for (path, fn, e, what), line in sorted(n.findings.items()):
        if (fn, e) in EXCEPT:
            c.count("excepted")
            continue
        c.violation("%s %s %s" % (fn, e, what), path, line, "%s: %s is %s where it may be nil" % (fn, e, what))
    c.need("native_functions_with_required_arguments", 60)
    c.need("functions", 300)
    c.need("uses", 5000)
    c.need("possibly_missing_values", 150)
    return c
