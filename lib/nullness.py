"""Results that may be null are tested before they are dereferenced.

cl = frozenset of (term, source, line): values that came from a call which can return null.
"""
import multiprocessing
import engine
from engine import Client, Interp, C, INF

NONNULL_ARGS = {}
for nm, idx in (("strlen", (0,)), ("strcmp", (0, 1)), ("strcpy", (0, 1)), ("strcat", (0, 1)), ("strncmp", (0, 1)), ("strncpy", (0, 1)), ("strchr", (0,)), ("strrchr", (0,)),
                ("strstr", (0, 1)), ("stricmp", (0, 1)), ("_stricmp", (0, 1)), ("_strnicmp", (0, 1)), ("strnicmp", (0, 1)), ("strcasecmp", (0, 1)), ("strspn", (0, 1)), ("strcspn", (0, 1)), ("strpbrk", (0, 1)),
                ("memcpy", (0, 1)), ("memmove", (0, 1)), ("memset", (0,)), ("memcmp", (0, 1)), ("atoi", (0,)), ("strtol", (0,)), ("strtoul", (0,)), ("strdup", (0,)), ("_strdup", (0,)),
                ("wcslen", (0,)), ("wcscmp", (0, 1)), ("wcsicmp", (0, 1)), ("_wcsicmp", (0, 1)), ("wcscpy", (0, 1)), ("wcschr", (0,)), ("wcsrchr", (0,)), ("wcsstr", (0, 1)), ("wcsncmp", (0, 1)), ("_wcsnicmp", (0, 1)),
                ("fclose", (0,)), ("fputs", (0, 1)), ("fgets", (0, 2)), ("fgetc", (0,)), ("fputc", (1,)), ("fwrite", (0, 3)), ("fread", (0, 3)), ("fprintf", (0,)), ("fflush", ()), ("fseek", (0,)), ("ftell", (0,)), ("fileno", (0,)), ("_fileno", (0,)), ("ungetc", (1,)),
                ("puts", (0,)), ("qsort", ()), ("xmalloc", ())):
    NONNULL_ARGS[nm] = idx


LUA_TYPE_TESTS = {"lua_isstring", "lua_isnumber", "lua_isuserdata"}
LUA_TYPE_TESTED = {"lua_tolstring", "lua_touserdata"}
LUA_PURE = {"lua_type", "lua_tolstring", "lua_tointegerx", "lua_tonumberx", "lua_toboolean", "lua_gettop", "lua_touserdata", "lua_rawlen", "lua_absindex"} | LUA_TYPE_TESTS
MARKS = ("lua:", "deref:")
LUA_MOVES = {"lua_settop", "lua_insert", "lua_remove", "lua_replace"}


class NullClient(Client):
    max_depth = 1
    budget = 40000

    def __init__(self, prog, sources, needs, report):
        self.prog, self.sources, self.needs, self.report = prog, sources, needs, report
        self.sites, self.uses = set(), 0

    def initial(self, it, f):
        return frozenset()

    def rename(self, cl, a, b):
        return frozenset((engine.rename_term(x[0], a, b),) + x[1:] for x in cl)

    def live_terms(self, cl):
        return [x[0] for x in cl]

    def gc(self, it, st):
        if not st.cl:
            return False
        reach = set(st.env.values()) | set(st.temps.values())
        out = frozenset(x for x in st.cl if (x[1] == "lua:" and it.truth(st, x[0]) is not False) or (x[0] in reach and it.truth(st, x[0]) is not True))
        ch = out != st.cl
        st.cl = out
        return ch

    def call(self, fr, st, n, args):
        nm = n.get("n")
        if nm in ("luaL_error", "luaL_argerror", "lua_error", "luaL_typerror"):
            return []       # does not return
        need = NONNULL_ARGS.get(nm)
        if need is None:
            need = self.needs.get(n.get("f"))
        if need:
            for i in need:
                if i < len(args):
                    self.use(fr, st, n, args[i], "passed to %s" % nm)
        if nm and nm.startswith("lua"):
            if nm in LUA_TYPE_TESTS:
                fr.it.havoc(fr, st, n, args)
                t = fr.it.fresh(fr, st, n)
                st.cons.pop(t, None)
                st.cl = st.cl | {(t, "lua:", args[1])}
                return [(st, t)]
            if nm not in LUA_PURE:
                # the stack may have changed; absolute indices keep their value
                st.cl = frozenset(x for x in st.cl if x[1] != "lua:" or (x[2][0] == "c" and x[2][1] > 0 and nm not in LUA_MOVES))
        src = self.sources(fr, n, args)
        if not src:
            return None
        if nm in LUA_TYPE_TESTED:
            for x in st.cl:
                if x[1] == "lua:" and x[2] == args[1] and fr.it.truth(st, x[0]) is True:
                    return None
        self.sites.add((fr.f.file, n.get("l", 0), nm))
        fr.it.havoc(fr, st, n, args)
        t = fr.it.fresh(fr, st, n)
        st.cons.pop(t, None)
        if n["k"] == "Call" and len(args) == 2 and args[1][0] == "c":
            nm = "%s(%d)" % (nm, args[1][1])
        st.cl = frozenset(x for x in st.cl if x[0] != t) | {(t, nm, n.get("l", 0))}
        return [(st, t)]

    def ret(self, fr, st, n, t):
        if t is not None and any(x[0] == t and x[1] not in MARKS for x in st.cl) and fr.it.truth(st, t) is None:
            self.nullable = True

    def branch(self, fr, st, node, truth):
        if truth is False and node is not None and any(x[1] == "deref:" for x in st.cl):
            # the value now known to be null has been dereferenced on this path
            for x in st.cl:
                if x[1] == "deref:" and fr.it.const_of(st, x[0]) == 0:
                    self.report(fr, node, (x[0], "tested late", x[2]), "tested for null after having been dereferenced")
                    return False
        return True

    def use(self, fr, st, n, t, how):
        if t[0] == "c" and t[1] == 0:
            return
        if self.belief and t[0] in ("in", "s") and fr.it.truth(st, t) is None:
            if not any(x[0] == t for x in st.cl):
                st.cl = st.cl | {(t, "deref:", n.get("l", 0))}
        for x in st.cl:
            if x[0] == t and x[1] not in MARKS:
                self.uses += 1
                if fr.it.truth(st, t) is not True:
                    self.report(fr, n, x, how)
                    st.cl = st.cl - {x}

    belief = False
    nullable = False

    def elem(self, fr, st, n):
        if not st.cl and not self.belief:
            return
        f, k = fr.f, n["k"]
        b = None
        if k == "Member" and n.get("arrow") and n.get("dk") != "g":
            b = f.kid(n, 0)
        elif k == "Un" and n["op"] == "*":
            b = f.kid(n, 0)
        elif k == "Index":
            b = f.kid(n, 0)
            if b is not None and f.ntype(b)["k"] != "ptr":
                b = None
        elif k == "Bin" and n["op"] in ("+", "-"):
            for b in f.kids(n):
                if f.ntype(b)["k"] == "ptr":
                    self.use(fr, st, n, fr.it.value(fr, st, b), "used in pointer arithmetic")
            return
        if b is not None and b["k"] != "This":
            self.use(fr, st, n, fr.it.value(fr, st, b), "dereferenced")

    def lost(self, fr, st, n, terms):
        pass


class Worker:
    def __init__(self, prog, sources, needs):
        self.prog, self.found = prog, {}
        self.cl = NullClient(prog, sources, needs, self.report)
        self.it = Interp(prog, self.cl)

    def report(self, fr, n, x, how):
        k = (fr.f.file, fr.f.name, x[1])
        if k not in self.found:
            self.found[k] = (n.get("l", 0), x[2], how, fr.it.trace_lines())


def _one(u):
    w = _W
    w.found, w.cl.sites, w.cl.uses, w.cl.nullable = {}, set(), 0, False
    ok = w.it.analyze(w.prog.funcs[u])
    return u, ok, w.found, w.cl.sites, w.cl.uses, w.cl.nullable


def run(prog, todo, sources, needs, belief=False, jobs=8):
    global _W
    _W = Worker(prog, sources, needs)
    _W.cl.belief = belief
    found, sites, uses, bad, nul = {}, set(), 0, [], set()
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for u, ok, fo, si, us, nu in pool.imap_unordered(_one, sorted(todo), chunksize=4):
            found.update(fo)
            sites |= si
            uses += us
            if nu:
                nul.add(u)
            if not ok:
                bad.append(u)
    return found, sites, uses, bad, nul


def must_deref(prog, f, needs):
    """Indices of the pointer parameters that are dereferenced on every path through f."""
    out = []
    ps = {v: i for i, v in enumerate(f.d.get("params", ()))}
    cand = {}
    for n in f.nodes:
        if not n:
            continue
        b, k = None, n["k"]
        if k == "Member" and n.get("arrow") and n.get("dk") != "g":
            b = [f.kid(n, 0)]
        elif k == "Un" and n["op"] == "*":
            b = [f.kid(n, 0)]
        elif k == "Index":
            b = [f.kid(n, 0)]
        elif k == "Call":
            nd = NONNULL_ARGS.get(n.get("n")) or needs.get(n.get("f"))
            a = f.args(n)
            b = [a[i] for i in nd if i < len(a)] if nd else None
        for x in b or ():
            x = f.strip(x)
            if x is not None and x["k"] == "Ref" and x.get("dk") == "v" and x["d"] in ps and f.vtype(x["d"])["k"] == "ptr":
                cand.setdefault(x["d"], set()).add(f.nodes.index(n))
    if not cand:
        return out
    written = {f.strip(f.kid(n, 0))["d"] for n in f.nodes if n and n["k"] in ("Asg", "Un") and (n["k"] == "Asg" or n["op"] in ("++", "--", "&")) and f.kid(n, 0) is not None
               and f.strip(f.kid(n, 0))["k"] == "Ref" and "d" in f.strip(f.kid(n, 0))}
    where = {}
    for b in f.blocks.values():
        for e in b.get("e", ()):
            if isinstance(e, int):
                where[e] = b["i"]
    for v, es in cand.items():
        if v in written:
            continue
        for bi in {where[e] for e in es if e in where}:
            seen, st = {bi}, [f.entry]
            while st:
                x = st.pop()
                if x in seen or x not in f.blocks:
                    continue
                seen.add(x)
                st += [y for y in f.blocks[x]["s"] if y >= 0]
            if f.exit not in seen:
                out.append(ps[v])
                break
    return out
