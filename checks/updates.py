"""P19: an update to something stored reaches the stored thing."""
import ir
from check import Check

MAPS = ("std::map", "std::unordered_map", "std::multimap")
GUARDS = {"find", "erase", "count", "clear", "at", "size", "empty", "operator[]"}
# maps whose key decides the value, or that are filled once: an entry already present already holds the value
SAME = {
    ("is_cmd_command", "s_map"): "filled once; 'rem' is entered first on purpose so that the list entry does not replace its flag",
    ("path::is_executable_extension", "s_pathexts"): "every entry maps to true",
    ("ensure_keydesc_map", "s_pmap_keydesc"): "filled once; the first entry goes into an empty map, and the others follow a lookup",
    ("add_cached_path_type", "s_cached_path_type"): "a cache of something computed from the key",
    ("binder::create_group", "m_group_names"): "the key is the index of the group just appended",
    ("load_custom_defaults::$lambda", "map"): "the map was emptied before the file is read; a name given twice keeps its first value",
    ("matches_lookaside::add", "m_map"): "the value is decoded from what the key points at",
    ("rewrite_master_bank", "remap"): "the key is the file offset of a line, and each line is visited once",
    ("settings::rollback_settings_values::rollback_settings_values", "m_restore"): "one entry per setting, and setting names are unique",
    ("task_manager::add", "m_map"): "keys are checked for a running task, or made unique, by the callers",
    ("word_classifications::init", "m_face_map"): "the map was emptied by clear, and face definitions are unique",
}


def product(f):
    return f.file.startswith("clink/") and "/test/" not in f.file and not f.file.startswith("clink/test/")


def elems(b):
    return [e for e in b.get("e", ()) if isinstance(e, int)]


def positions(f):
    pos = {}
    for b in f.blocks.values():
        for i, e in enumerate(elems(b)):
            pos[e] = (b["i"], i)
    return pos


def own_fields_written(prog, u, memo, depth=0):
    """Does a method assign to fields of its own object (directly or by calling its own methods)?"""
    if u in memo:
        return memo[u]
    memo[u] = False
    g = prog.funcs.get(u)
    if g is None or not g.blocks:
        return False
    r = False
    for n in g.nodes:
        if not n:
            continue
        if n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--"):
            p = g.path(g.kid(n, 0))
            if p and p[0] == "this" and len(p) > 1 and "*" not in p:
                r = True
        elif n["k"] == "Call" and n.get("o", -1) >= 0 and not n.get("cm"):
            o = g.path(g.obj(n))
            if o == ("this",) and depth < 4 and n.get("f") and own_fields_written(prog, n["f"], memo, depth + 1):
                r = True
            elif o and o[0] == "this" and len(o) > 1 and "*" not in o and value_class(n.get("cls", "")):
                r = True
    memo[u] = r
    return r


def value_class(c):
    return c.startswith(("std::vector", "std::map", "std::set", "std::unordered", "std::list", "std::deque", "std::basic_string", "std::string", "str", "wstr"))


def parents(f):
    par = {}
    for i, n in enumerate(f.nodes):
        if n:
            for key in ("o", "fn"):
                if isinstance(n.get(key), int) and n[key] >= 0:
                    par[n[key]] = i
            for c in n.get("c", ()):
                if c >= 0:
                    par[c] = i
    return par


def range_var(f, i):
    """Is this the initialiser of a range-for variable?"""
    n = f.n(i)
    for x in f.deep(n):
        if x["k"] == "Ref" and x.get("n", "").startswith("__begin"):
            return True
    return False


def copies(c, prog, f, memo):
    pos = None
    for n in list(f.nodes):
        if not n or n["k"] != "DeclStmt":
            continue
        for d in n.get("ds", ()):
            i = d.get("i")
            if i is None or i < 0:
                continue
            v, t = d["v"], f.vtype(d["v"])
            if t["k"] in ("ref", "rref") or f.vars[v]["n"].startswith("__"):
                continue
            loop = range_var(f, i)
            src = f.n(i)
            if t["k"] == "rec":
                x = f.strip(src)
                if x is None or x["k"] != "Construct" or len(f.kids(x)) != 1:
                    continue
                a = f.strip(f.kid(x, 0))
                if a is None or a["k"] == "Construct" or f.ntype(a).get("r") != t.get("r"):
                    continue
                if a["k"] == "Call" and (a.get("n", "").endswith("move") or not loop and not ref_call(prog, f, a)):
                    continue
                dt = prog.records.get(t.get("r")) if hasattr(prog, "records") else None
            elif not loop:
                continue
            c.count("copies")
            if pos is None:
                pos, par = positions(f), parents(f)
            judge_copy(c, prog, f, n, v, a if t["k"] == "rec" else f.strip(src), loop, pos, par, memo)


def byvalue(c, prog, f, memo):
    """Parameters passed by value, and temporaries."""
    pos = par = None
    for v in f.d.get("params", ()):
        t = f.vtype(v)
        if t["k"] != "rec" or not f.vars[v].get("n"):
            continue
        if pos is None:
            pos, par = positions(f), parents(f)
        c.count("copies")
        judge_copy(c, prog, f, None, v, None, False, pos, par, memo)
    for i, n in enumerate(f.nodes):
        if not n or n["k"] != "Call" or n.get("cm") or n.get("o", -1) < 0 or not value_class(n.get("cls", "")):
            continue
        o = f.strip(f.obj(n))
        if o is None or o["k"] != "Call" or n.get("n", "").rsplit("::", 1)[-1] not in MUTATORS:
            continue
        ts = prog.targets(o)
        if not ts or any(t.type(t.d.get("ret", -1))["k"] != "rec" for t in ts):
            continue
        if par is None:
            pos, par = positions(f), parents(f)
        c.count("temporaries")
        if not used(f, i, par):
            c.violation("%s %s" % (f.name, f.text(o)), f.file, n["l"], "%s: %s changes a copy returned by %s, so the change is lost" % (f.name, f.text(n)[:60], f.text(o)))


MUTATORS = {"push_back", "emplace_back", "pop_back", "insert", "emplace", "erase", "clear", "resize", "assign", "concat", "copy", "format", "truncate", "trim", "operator=", "operator<<", "operator+=", "swap"}


def ref_call(prog, f, a):
    for t in prog.targets(a):
        return t.type(t.d.get("ret", -1))["k"] == "ref"
    return a.get("n", "").rsplit("::", 1)[-1] in ("operator[]", "at", "back", "front", "operator*", "top")


def judge_copy(c, prog, f, decl, v, src, loop, pos, par, memo):
    reads, writes, whole, rfield = [], [], [], {}
    alias, binds = {v: None}, set()
    for n in f.nodes:
        if n and n["k"] == "DeclStmt":
            for d in n.get("ds", ()):
                if d.get("i") is not None and d["i"] >= 0 and f.vtype(d["v"])["k"] == "ref":
                    x, fld = f.strip(f.n(d["i"])), None
                    while x is not None and x["k"] in ("Member", "Index") and f.ntype(f.strip(f.kid(x, 0)))["k"] != "ptr":
                        fld = x.get("m", fld)
                        x = f.strip(f.kid(x, 0))
                    if x is not None and x["k"] == "Ref" and x.get("dk") == "v" and x.get("d") in alias and fld:
                        alias[d["v"]] = fld
                        binds.add(id(x))
    for i, n in enumerate(f.nodes):
        if n and id(n) in binds:
            continue
        if not n or n["k"] != "Ref" or n.get("d") not in alias or n.get("dk") != "v":
            if n and n["k"] == "Lambda":
                for k in f.deep(n):
                    pass
                cap = [x for x in n.get("caps", ())]
                if v in cap:
                    reads.append(i)
            continue
        # climb through member accesses
        j, w, field = i, None, alias[n["d"]]
        while True:
            p = par.get(j)
            if p is None:
                break
            q = f.nodes[p]
            if q["k"] == "Index" and f.nodes[j] is f.kid(q, 0) and f.ntype(f.nodes[j])["k"] not in ("ptr", "rec"):
                j = p
                continue
            if q["k"] == "Member" and f.nodes[j] is f.kid(q, 0):
                if f.ntype(f.nodes[j])["k"] == "ptr":
                    break               # through a pointer: not part of the copy
                field = field or q["m"]
                j = p
                continue
            if q["k"] == "Cast":
                j = p
                continue
            if q["k"] == "Asg" and f.strip(f.kid(q, 0)) is f.strip(f.nodes[j]) and f.ntype(f.nodes[j])["k"] != "ref":
                w = p
            elif q["k"] == "Un" and q["op"] in ("++", "--"):
                w = p
            elif q["k"] == "Call" and q.get("o") == j and not q.get("cm"):
                if value_class(q.get("cls", "")) or q.get("f") and own_fields_written(prog, q["f"], memo):
                    w = p
            break
        if w is not None and (f.nodes[w]["k"] == "Call" or f.nodes[w]["k"] == "Un") and used(f, w, par):
            w = None
        if w is not None:
            writes.append((w, field))
        else:
            reads.append(i)
            rfield[i] = field
            if field is None and not method_read(f, i, par):
                whole.append(i)
    if not writes:
        return
    c.count("modified_copies")
    rb = {}
    wb = {}
    for r in reads:
        x = r
        while x is not None and x not in pos:
            x = par.get(x)
        if x is None:
            return                  # used in a way the flow graph does not place: assume it is read
        rb.setdefault(pos[x][0], []).append((pos[x][1], rfield.get(r)))
        if r in whole:
            wb.setdefault(pos[x][0], []).append(pos[x][1])
    dpos = pos.get(f.nodes.index(decl)) if decl is not None else None
    for w, field in writes:
        if w not in pos:
            continue
        b, k = pos[w]
        # the element a loop visits is expected to change with its field, unless the changed copy itself is used
        mine = {x: [y for y, g in ys if not field or g in (None, field)] for x, ys in rb.items()}
        if read_after(f, b, k, wb if field and (loop or element(f, src)) else mine, dpos):
            continue
        if decl is None:
            c.violation("%s %s" % (f.name, f.vars[v]["n"]), f.file, f.nodes[w]["l"], "%s: %s changes the parameter %s, which is the callee's copy; nothing reads it afterwards, so the change is lost" % (f.name, f.text(f.nodes[w])[:60], f.vars[v]["n"]))
            continue
        what = "the loop variable %s, a copy of the element" % f.vars[v]["n"] if loop else "%s, a copy of %s" % (f.vars[v]["n"], f.text(src))
        c.violation("%s %s" % (f.name, f.vars[v]["n"]), f.file, f.nodes[w]["l"], "%s: %s changes %s; the copy is not used afterwards, so the change is lost" % (f.name, f.text(f.nodes[w])[:60], what))


def element(f, src):
    """An element of a container or array, as opposed to the fields or result of something."""
    if src is None:
        return False
    if src["k"] == "Index":
        return True
    return src["k"] == "Call" and src.get("n", "").rsplit("::", 1)[-1] in ("operator[]", "at", "back", "front", "top", "operator*")


def method_read(f, i, par):
    """x.size() and the like: a question to the copy, not a use of the whole copy."""
    p = par.get(i)
    return p is not None and f.nodes[p]["k"] == "Call" and f.nodes[p].get("o") == i


def used(f, w, par):
    p = par.get(w)
    while p is not None and f.nodes[p]["k"] == "Cast" and f.nodes[p].get("ck") != "ToVoid":
        p = par.get(p)
    return p is not None and f.nodes[p].get("ck") != "ToVoid"


def read_after(f, b, k, rb, dpos):
    """Can a read follow position (b, k) before the variable is declared anew?"""
    seen, work = set(), [(b, k)]
    while work:
        b, k = work.pop()
        lim = None
        if dpos and dpos[0] == b and dpos[1] > k:
            lim = dpos[1]
        if any(x > k and (lim is None or x < lim) for x in rb.get(b, ())):
            return True
        if lim is not None:
            continue
        for s in f.blocks[b]["s"]:
            if s is not None and s >= 0 and s not in seen:
                seen.add(s)
                work.append((s, -1))
    return False


def updates():
    c = Check("P19", "a copy that is modified is read afterwards; an entry is put in a map only where the key is known to be absent, or the result is looked at")
    prog = ir.load()
    memo = {}
    for f in prog.funcs.values():
        if not product(f) or not f.blocks:
            continue
        c.count("functions")
        copies(c, prog, f, memo)
        byvalue(c, prog, f, memo)
        maps(c, prog, f)
    c.need("functions", 2000)
    c.need("copies", 30)
    c.need("map_insertions", 8)
    return c


def maps(c, prog, f):
    sites = [n for n in f.nodes if n and n["k"] == "Call" and n.get("cls", "").startswith(MAPS) and n.get("n", "").rsplit("::", 1)[-1] in ("emplace", "insert", "try_emplace")]
    if not sites:
        return
    par, pos = parents(f), positions(f)
    for n in sites:
        i = f.nodes.index(n)
        c.count("map_insertions")
        if used(f, i, par) or (f.name, f.text(f.obj(n))) in SAME:
            continue
        m = f.text(f.obj(n)).rstrip("*").replace("()", "")
        guards = {}
        for j, g in enumerate(f.nodes):
            if g and g["k"] == "Call" and g.get("cls", "").startswith(MAPS) and g.get("n", "").rsplit("::", 1)[-1] in GUARDS and f.text(f.obj(g)) == f.text(f.obj(n)):
                x = j
                while x is not None and x not in pos:
                    x = par.get(x)
                if x is not None:
                    guards.setdefault(pos[x][0], []).append(pos[x][1])
        p = f.path(f.obj(n))
        if p and p[0] == "v" and len(p) == 1 and not f.vars[p[1]].get("st") and f.vtype(p[1])["k"] == "rec" and "p" not in f.vars[p[1]]:
            continue                # a map made in this function
        if i not in pos or f.cls and f.short == f.cls.rsplit("::", 1)[-1]:
            continue                # a constructor fills its own, empty, map
        if made_here(f, n, guards, pos, par) and not dominated(f, pos[i], guards):
            continue
        if not dominated(f, pos[i], guards):
            c.violation("%s %s" % (f.name, f.text(f.obj(n))), f.file, n["l"], "%s: %s keeps the old value when the key is already present, and neither the key was looked up before nor the result is looked at" % (f.name, f.text(n)[:80]))


def made_here(f, n, guards, pos, par):
    """m = new map dominates the insertion."""
    p = f.path(f.obj(n))
    while p and p[-1] in ("*",):
        p = p[:-1]
    made = {}
    for j, g in enumerate(f.nodes):
        if g and g["k"] == "Asg" and g["op"] == "=" and j in pos and p and f.path(f.kid(g, 0)) == p:
            r = f.strip(f.kid(g, 1))
            if r is not None and r["k"] == "New":
                made.setdefault(pos[j][0], []).append(pos[j][1])
    i = f.nodes.index(n)
    return bool(made) and i in pos and dominated(f, pos[i], made)


def dominated(f, at, guards):
    b, k = at
    if any(x < k for x in guards.get(b, ())):
        return True
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x == f.entry:
            return False
        for p in f.preds()[x]:
            if p in seen or p in guards:
                continue
            seen.add(p)
            work.append(p)
    return True
