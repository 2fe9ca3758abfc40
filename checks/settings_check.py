"""P16: settings."""
import os, re
import ir, formats, luascripts
from luafront import walk
from check import Check
from extract import AnalysisBroken

NAME = re.compile(r"^[a-z][a-z0-9_]*(\.[a-z0-9_]+)+$")
# documented, but only in some builds
BUILD = {"debug.log_output_callstacks": "only in builds with Microsoft's compiler"}
# documented default is what the program falls back to while the setting is empty
FALLBACK = {"color.suggestion": ("", "bright black")}


class Setting:
    def __init__(self, name, kind, default, values, short, file, line, var):
        self.name, self.kind, self.default, self.values, self.short, self.file, self.line, self.var = name, kind, default, values, short, file, line, var

    def shown_default(self):
        if self.kind == "bool":
            return "True" if self.default else "False"
        if self.kind == "enum":
            return self.values[self.default] if isinstance(self.default, int) and 0 <= self.default < len(self.values) else None
        return str(self.default)


def kind_of(n):
    m = re.match(r"^setting_(impl<(bool|int|const char ?\*)>|enum|color)::", n or "")
    if not m:
        return None
    return {"bool": "bool", "int": "int"}.get(m.group(2), "str") if m.group(2) else m.group(1)


def from_construct(g, n, var, c, out):
    kind = kind_of(n.get("n"))
    if kind is None or n["k"] != "Construct":
        return
    a = [g.strip(x) for x in g.kids(n)]
    lits = [(x["s"] if x is not None and x["k"] == "Str" else None) for x in a]
    if len(a) < 3 or lits[0] is None:
        return
    last = a[-1]
    values = None
    if kind == "enum":
        if lits[-2] is None:
            raise AnalysisBroken("P16: options of setting %s are not constant" % lits[0])
        values = lits[-2].split(",")
    d = last.get("s") if last["k"] == "Str" else last.get("v")
    out.append(Setting(lits[0], kind, d, values, lits[1] or "", g.file, n["l"], var))


def native(prog, c):
    out = []
    for g in ir.globals_of(prog):
        if g.file.startswith("clink/") and "/test/" not in g.file and g.d.get("i", -1) >= 0:
            n = g.strip(g.nodes[g.d["i"]])
            if n is not None:
                from_construct(g, n, g.name, c, out)
    for f in prog.funcs.values():
        if f.file.startswith("clink/"):
            for x in f.nodes:
                if x and x["k"] == "DeclStmt":
                    for d in x["ds"]:
                        if d["i"] >= 0 and f.nodes[d["i"]]["k"] == "Construct":
                            from_construct(f, f.nodes[d["i"]], None, c, out)
    return out


def lua_value(e):
    if e.k in ("str", "num"):
        return e.v
    if e.k == "true" or e.k == "false":
        return e.k == "true"
    return None


def scripted(S, c):
    out = []
    for ch in S.chunks:
        for x in walk(ch.main):
            if x.k == "call" and S.dot(x.f) == "settings.add" and len(x.args) >= 2 and x.args[0].k == "str":
                d, kind, values = x.args[1], None, None
                v = lua_value(d)
                if d.k == "table":
                    kind, values, v = "enum", [lua_value(i) for _, i in d.items], 0
                elif isinstance(v, bool):
                    kind = "bool"
                elif d.k == "num":
                    kind = "int"
                elif d.k == "str":
                    kind = "color" if x.args[0].v.startswith("color.") else "str"
                short = x.args[2].v if len(x.args) > 2 and x.args[2].k == "str" else ""
                out.append(Setting(x.args[0].v, kind, v, values, short, ch.path, x.l, None))
    return out


def named_after(f, q, values):
    """The option an enumerator is named after (paste_crlf_space -> "space"), if any."""
    q = f.strip(q) if isinstance(q, dict) else q
    r = [x for x in f.deep(q) if x["k"] == "Ref" and x.get("dk") == "ec"] if q is not None else []
    if len(r) != 1:
        return None
    m = [i for i, v in enumerate(values) if r[0]["n"].split("::")[-1].lower().endswith("_" + v.lower()) or r[0]["n"].split("::")[-1].lower() == v.lower()]
    return m[0] if len(m) == 1 else None


def same_name(f, q, st, c):
    i = named_after(f, q, st.values)
    if i is not None and q.get("v") is not None:
        c.count("enumerator_names")
        if q["v"] != i:
            c.violation("%s|%s|order" % (st.name, st.values[i]), f.file, q["l"], "the constant named after option \"%s\" of %s is %d, but the option is number %d" % (st.values[i], st.name, q["v"], i))


def enum_uses(prog, c, byvar):
    """Places where an enum setting's value is compared with a constant, switched on or used as an index."""
    for f in prog.funcs.values():
        if not f.file.startswith("clink/"):
            continue
        vals = {}

        def setting_of(n):
            n = f.strip(n)
            if n is None:
                return None
            if n["k"] == "Call" and (n.get("n") or "").endswith("::get") and not f.args(n):
                o = f.obj(n)
                o = f.strip(o) if o is not None else None
                if o is not None and o["k"] == "Ref" and o.get("n") in byvar:
                    return o["n"]
            if n["k"] == "Ref" and n.get("dk") == "v":
                return vals.get(n["d"])
            return None
        if not any((n.get("n") or "").startswith("setting_impl<int>::get") for n in f.calls()):
            continue
        for x in f.nodes:
            if x and x["k"] == "DeclStmt":
                for d in x["ds"]:
                    if d["i"] >= 0:
                        s = setting_of(f.nodes[d["i"]])
                        writes = sum(1 for y in f.nodes if y and y["k"] in ("Asg",) and f.path(f.kid(y, 0)) == ("v", d["v"]))
                        if s and not writes:
                            vals[d["v"]] = s
        for x in f.nodes:
            if not x:
                continue
            if x["k"] == "Bin" and x["op"] in ("==", "!=", "<", "<=", ">", ">="):
                l, r = f.strip(f.kid(x, 0)), f.strip(f.kid(x, 1))
                for p, q in ((l, r), (r, l)):
                    s = setting_of(p)
                    if s and q.get("v") is not None:
                        c.count("enum_comparisons")
                        st = byvar[s]
                        same_name(f, q, st, c)
                        last = len(st.values) - (x["op"] in ("==", "!="))
                        if not 0 <= q["v"] <= last:
                            c.violation("%s|%s|%s" % (f.name, st.name, q["v"]), f.file, x["l"], "%s compares %s with %d, but the setting only has the options %s" % (f.name, st.name, q["v"], ",".join(st.values)))
            elif x["k"] == "Index":
                s = setting_of(f.kid(x, 1))
                if s:
                    t = f.ntype(f.strip(f.kid(x, 0)))
                    if t["k"] == "arr" and t.get("n"):
                        c.count("enum_indexes")
                        if t["n"] < len(byvar[s].values):
                            c.violation("%s|%s|index" % (f.name, byvar[s].name), f.file, x["l"], "%s indexes %d entries with %s, which has %d options" % (f.name, t["n"], byvar[s].name, len(byvar[s].values)))
        for b in f.blocks.values():
            if b.get("tk") == "SwitchStmt" and b.get("tc", -1) >= 0:
                s = setting_of(f.nodes[b["tc"]])
                if not s:
                    continue
                c.count("enum_switches")
                st = byvar[s]
                have, dflt = set(), False
                for q in b["s"]:
                    if q < 0:
                        continue
                    dflt |= bool(f.blocks[q].get("default"))
                    for y in (f.nodes[z] for z in f.blocks[q].get("case", ())):
                        have.add(y.get("v"))
                        same_name(f, y, st, c)
                        if not 0 <= (y.get("v") or 0) < len(st.values):
                            c.violation("%s|%s|case %s" % (f.name, st.name, y.get("v")), f.file, y["l"], "%s has a case for option %s of %s, which only has %s" % (f.name, y.get("v"), st.name, ",".join(st.values)))


def enum_families(prog, c, byvar):
    """Enumerators of one file named <prefix>_<option> for every option of a setting of that file number the options."""
    files = {}
    for f in list(prog.funcs.values()) + list(ir.globals_of(prog)):
        if f.file.startswith("clink/"):
            for x in f.nodes:
                if x and x["k"] == "Ref" and x.get("dk") == "ec" and x.get("v") is not None:
                    files.setdefault(f.file, {})[x["n"].split("::")[-1].lower()] = (x["v"], x["l"])
    for st in byvar.values():
        names = files.get(st.file, {})
        if len(st.values) < 3:
            continue
        for pre in {n[:-len(st.values[0])] for n in names if n.endswith("_" + st.values[0].lower())}:
            if not all(pre + v.lower() in names for v in st.values[1:]):
                continue
            for i, v in enumerate(st.values):
                c.count("enumerator_names")
                if names[pre + v.lower()][0] != i:
                    c.violation("%s|%s|order" % (st.name, v), st.file, names[pre + v.lower()][1], "%s is %d, but \"%s\" is option number %d of %s" % (pre + v.lower(), names[pre + v.lower()][0], v, i, st.name))


def documented(c, root):
    p = os.path.join(root, "docs", "clink.md")
    rows = {}
    on = False
    for i, l in enumerate(open(p, encoding="utf-8", errors="replace"), 1):
        if l.startswith("## "):
            on = "Clink Settings" in l
        if not on:
            continue
        m = re.match(r"^(?:<a name=\"[^\"]*\">)+(?:</?a/?>)*`([a-z0-9_.]+)`\s*\|([^|]*)\|", l)
        if m:
            d = re.sub(r"\[[^\]]*\]\([^)]*\)", "", m.group(2)).strip()
            d = re.sub(r"</?code>", "`", d).replace("&nbsp;", " ").replace("&nbsp", " ")
            q = re.match(r"^`(.*)`$", d)
            rows[m.group(1)] = ((q.group(1) if q else d).strip(), i)
    return rows


def same_default(s, doc):
    have = s.shown_default()
    if have is None:
        return False
    have = have.strip()
    doc = doc.strip().strip('"')
    if doc.lower() == have.lower():
        return True
    if s.kind == "color":
        return norm_color(doc) == norm_color(have)
    if doc == "" and have == "":
        return True
    return re.sub(r"\s+", " ", doc) == re.sub(r"\s+", " ", have)


def norm_color(x):
    return " ".join({"bri": "bright", "br": "bright", "bol": "bold"}.get(w, w) for w in x.lower().replace("sgr ", "").split())


def settings():
    c = Check("P16", "settings have unique valid names, options that contain their default, the documented defaults; every name used somewhere exists and every comparison is with an existing option")
    prog = ir.load()
    S = luascripts.Scripts()
    nat, scr = native(prog, c), scripted(S, c)
    c.cov["native_settings"], c.cov["scripted_settings"] = len(nat), len(scr)
    limits = {}
    for g in ir.globals_of(prog):
        if g.name in ("settings::c_max_len_name", "settings::c_max_len_short_desc") and g.d.get("i", -1) >= 0:
            limits[g.name.split("_")[-1]] = g.strip(g.nodes[g.d["i"]]).get("v")
    r = prog.record("setting")
    lim_name, lim_desc = limits.get("name") or 32, limits.get("desc") or 48
    c.cov["limits"] = [lim_name, lim_desc]
    seen = {}
    for s in nat + scr:
        key = s.name.lower()
        if key in seen and not (seen[key].file == s.file and s.var is None):
            c.violation("%s|twice" % s.name, s.file, s.line, "setting %s is defined twice (also in %s)" % (s.name, seen[key].file))
        seen.setdefault(key, s)
        if not NAME.match(s.name):
            c.violation("%s|name" % s.name, s.file, s.line, "\"%s\" is not a valid setting name" % s.name)
        if len(s.name) > lim_name:
            c.violation("%s|name length" % s.name, s.file, s.line, "the name %s is longer than the %d characters that are kept" % (s.name, lim_name))
        if len(s.short) > lim_desc:
            c.violation("%s|description length" % s.name, s.file, s.line, "the short description of %s is longer than the %d characters that are kept" % (s.name, lim_desc))
        if not s.short.strip():
            c.violation("%s|description" % s.name, s.file, s.line, "setting %s has no short description" % s.name)
        if s.kind == "enum":
            c.count("enum_settings")
            if not isinstance(s.default, int) or not 0 <= s.default < len(s.values):
                c.violation("%s|default" % s.name, s.file, s.line, "the default of %s (%s) is not one of its %d options" % (s.name, s.default, len(s.values)))
            if len({v.lower() for v in s.values}) != len(s.values) or any(not re.match(r"^[A-Za-z0-9_]+$", v) for v in s.values):
                c.violation("%s|options" % s.name, s.file, s.line, "the options of %s are not distinct words: %s" % (s.name, ",".join(s.values)))
        if s.default is None:
            c.violation("%s|default constant" % s.name, s.file, s.line, "the default of %s is not a constant" % s.name) if s.kind != "enum" else None
    # names used
    def used(name, file, line, who):
        c.count("names_used")
        if name.lower() not in seen:
            c.violation("%s|%s" % (who, name), file, line, "%s uses the setting \"%s\", which does not exist" % (who, name))
            return None
        return seen[name.lower()]
    for f in prog.calling({"strcmp", "stricmp", "_stricmp", "strcasecmp"}):
        if not f.file.startswith("clink/"):
            continue
        for n in f.calls({"strcmp", "stricmp", "_stricmp", "strcasecmp"}):
            a = [f.strip(x) for x in f.args(n)[:2]]
            for x, y in (a, a[::-1]):
                if x is not None and x["k"] == "Call" and re.match(r"^setting(_iter)?::get_name$", x.get("n") or ""):
                    for nm in formats.literals(f, y) or ():
                        used(nm, f.file, n["l"], f.name)
    for f in prog.calling("settings::find"):
        for n in f.calls("settings::find"):
            for nm in formats.literals(f, f.args(n)[0]) or ():
                s = used(nm, f.file, n["l"], f.name)
                if s is None:
                    continue
                for m in f.calls():
                    if (m.get("n") or "").split("::")[-1] == "set" and f.obj(m) is not None and f.strip(f.obj(m)) is n:
                        for v in formats.literals(f, f.args(m)[0]) or () if f.args(m) else ():
                            c.count("constant_values")
                            if s.kind == "enum" and v.lower() not in [x.lower() for x in s.values]:
                                c.violation("%s|%s=%s" % (f.name, nm, v), f.file, m["l"], "%s sets %s to \"%s\", which is not one of its options" % (f.name, nm, v))
    for ch in S.chunks:
        for x in walk(ch.main):
            if x.k == "call" and S.dot(x.f) in ("settings.get", "settings.set", "settings.clear") and x.args and x.args[0].k == "str":
                s = used(x.args[0].v, ch.path, x.l, ch.path.split("/")[-1])
            # a comparison of a setting's value with a constant option
            if x.k == "bin" and x.op in ("==", "~="):
                for p, q in ((x.a, x.b), (x.b, x.a)):
                    e = p
                    if e.k == "name" and getattr(e, "var", None) is not None and not e.var.writes and e.var in S_init(S, ch):
                        e = S_init(S, ch)[e.var]
                    if e.k == "call" and S.dot(e.f) == "settings.get" and e.args and e.args[0].k == "str" and q.k == "str" and q.v:
                        s = seen.get(e.args[0].v.lower())
                        if s is not None and s.kind == "enum":
                            c.count("enum_comparisons")
                            if q.v not in s.values:
                                c.violation("%s|%s=%s" % (ch.path.split("/")[-1], s.name, q.v), ch.path, x.l, "%s compares %s with \"%s\", which is not one of its options (%s)" % (ch.path, s.name, q.v, ",".join(s.values)))
    # names that old settings are migrated to
    for f in prog.funcs.values():
        if f.file.endswith("core/src/settings.cpp"):
            for x in f.nodes:
                if x and x["k"] == "Str" and NAME.match(x.get("s") or "") and x["s"].split(".")[0] in {k.split(".")[0] for k in seen}:
                    c.count("migrated_names")
                    used(x["s"], f.file, x["l"], f.name)
    byvar = {s.var: s for s in nat if s.kind == "enum" and s.var}
    for s in nat:
        if s.var and s.kind == "enum" and "::" in s.var:
            byvar.setdefault(s.var.split("::")[-1], s)
    enum_uses(prog, c, byvar)
    enum_families(prog, c, byvar)
    # the documented table, and the file of enhanced defaults
    root = luascripts.root()
    docs = documented(c, root)
    c.cov["documented_settings"] = len(docs)
    for nm, (d, line) in sorted(docs.items()):
        s = seen.get(nm.lower())
        if s is None and nm in BUILD:
            continue
        if s is None:
            c.violation("docs|%s" % nm, "docs/clink.md", line, "the documented setting %s does not exist" % nm)
            continue
        if s.name != nm:
            c.violation("docs|%s|case" % nm, s.file, s.line, "the setting documented as %s is named %s" % (nm, s.name))
        if FALLBACK.get(nm) == (s.default, d):
            continue
        if not same_default(s, d):
            c.violation("docs|%s|default" % nm, s.file, s.line, "the default of %s is \"%s\", but it is documented as \"%s\"" % (nm, s.shown_default(), d))
    for i, l in enumerate(open(os.path.join(root, "_default_settings"), encoding="utf-8"), 1):
        m = re.match(r"^([a-z0-9_.]+)\s*=\s*(.*?)\s*$", l)
        if m:
            c.count("enhanced_defaults")
            s = used(m.group(1), "_default_settings", i, "_default_settings")
            if s is not None and s.kind == "enum" and m.group(2) not in s.values:
                c.violation("_default_settings|%s" % s.name, "_default_settings", i, "%s is not an option of %s" % (m.group(2), s.name))
            if s is not None and s.kind == "bool" and m.group(2).lower() not in ("true", "false", "0", "1", "yes", "no", "on", "off"):
                c.violation("_default_settings|%s" % s.name, "_default_settings", i, "%s is not a value of %s" % (m.group(2), s.name))
    c.need("native_settings", 80)
    c.need("scripted_settings", 10)
    c.need("enum_settings", 15)
    c.need("names_used", 90)
    c.need("enum_comparisons", 20)
    c.need("documented_settings", 80)
    c.need("enhanced_defaults", 20)
    return c


_inits = {}


def S_init(S, ch):
    if ch not in _inits:
        d = {}
        for x in walk(ch.main):
            if x.k == "local" and len(x.vars) == len(x.exps):
                d.update(zip(x.vars, x.exps))
        _inits[ch] = d
    return _inits[ch]
