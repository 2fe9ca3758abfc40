"""Height of the Lua stack along every path of native code.

The height is (base, offset, terms): base "e" counts from the height at entry, base "a" is absolute (after lua_settop with
a constant); terms are the unknown integers (for example a parameter nargs) with their coefficients.  None means unknown.
"""
import re
from engine import Client, Interp, C, INF, info, rename_term

# net effect of an API call; tuples (if result is zero/null, otherwise)
FIX = {}
for n in """lua_pushnil lua_pushnumber lua_pushinteger lua_pushunsigned lua_pushlstring lua_pushstring lua_pushvfstring lua_pushfstring
lua_pushboolean lua_pushlightuserdata lua_pushthread lua_pushvalue lua_createtable lua_newuserdata lua_newthread lua_getglobal lua_getfield
lua_rawgeti lua_rawgetp lua_getuservalue luaL_newmetatable luaL_tolstring luaL_gsub luaL_loadfilex luaL_loadbufferx luaL_loadstring
luaL_getsubtable lua_len luaL_pushresult luaL_pushresultsize luaL_where lua_load luaL_requiref luaL_traceback""".split():
    FIX[n] = 1
for n in """lua_gettable lua_rawget lua_insert lua_copy lua_checkstack luaL_checkstack lua_compare lua_gc lua_rawlen lua_type lua_typename
lua_isnumber lua_isstring lua_iscfunction lua_isuserdata lua_toboolean lua_tolstring lua_tonumberx lua_tointegerx lua_tounsignedx lua_touserdata
lua_tothread lua_topointer lua_tocfunction lua_absindex lua_rawequal luaL_checklstring luaL_optlstring luaL_checknumber luaL_optnumber
luaL_checkinteger luaL_optinteger luaL_checkunsigned luaL_optunsigned luaL_checktype luaL_checkany luaL_checkudata luaL_testudata luaL_checkoption
luaL_unref luaL_len luaL_buffinit luaL_prepbuffsize luaL_buffinitsize luaL_addlstring luaL_addstring luaL_setmetatable luaL_checkversion_ lua_status
lua_upvalueid lua_getstack lua_sethook lua_gethook lua_atpanic lua_version luaL_openlibs lua_dump luaL_newstate lua_close lua_getallocf lua_setallocf
lua_gethookmask lua_gethookcount lua_setinfo lua_concat0 luaL_fileresult luaL_execresult lua_getfieldnoraise lua_tolstring""".split():
    FIX[n] = 0
for n in "lua_settable lua_rawset".split():
    FIX[n] = -2
for n in "lua_setglobal lua_setfield lua_rawseti lua_rawsetp lua_setmetatable lua_setuservalue lua_remove lua_replace luaL_ref luaL_addvalue".split():
    FIX[n] = -1
COND = {"lua_getmetatable": (0, 1), "luaL_getmetafield": (0, 1), "luaL_callmeta": (0, 1), "lua_next": (-1, 1),
        "lua_getupvalue": (0, 1), "lua_setupvalue": (0, -1), "lua_getlocal": (0, 1), "lua_setlocal": (-1, -1)}
FIX["luaL_fileresult"] = None
FIX["luaL_execresult"] = None
NORET = {"lua_error", "luaL_error", "luaL_argerror", "lua_yieldk", "luaL_typerror"}
CALLS = {"lua_callk": None, "lua_pcallk": 1, "lua_state::pcall_silent": 1, "lua_state::pcall": 1}
CFUN = re.compile(r"^(int|int32|int32_t)\b")


def is_api(n):
    return n in FIX or n in COND or n in CALLS or n in NORET or n in ("lua_settop", "lua_gettop", "lua_pushcclosure", "lua_concat",
                                                                     "lua_arith", "lua_getinfo", "luaL_setfuncs", "lua_xmove", "lua_resume")


def is_state_ptr(f, v):
    t = f.vtype(v)
    return t["k"] == "ptr" and f.type(t.get("e", -1)).get("r", "") == "lua_State"


def is_cfunction(f):
    ps = f.d["params"]
    if len(ps) != 1 or not is_state_ptr(f, ps[0]):
        return False
    rt = f.type(f.d.get("ret", -1))
    if rt["k"] != "int" or rt.get("z") != 4:
        return False
    return True


def lin(t):
    """A term as (constant, {term: coefficient})."""
    if t[0] == "c":
        return t[1], {}
    if t[0] == "op" and t[1] in ("+", "-"):
        a, b = lin(t[2]), lin(t[3])
        k = 1 if t[1] == "+" else -1
        d = dict(a[1])
        for x, c in b[1].items():
            d[x] = d.get(x, 0) + k * c
        return a[0] + k * b[0], {x: c for x, c in d.items() if c}
    return 0, {t: 1}


def lsub(a, b):
    d = dict(a[1])
    for x, c in b[1].items():
        d[x] = d.get(x, 0) - c
    return a[0] - b[0], {x: c for x, c in d.items() if c}


def hadd(h, c, terms=()):
    d = dict(h[2])
    for x, k in dict(terms).items():
        d[x] = d.get(x, 0) + k
    return (h[0], h[1] + c, frozenset((x, k) for x, k in d.items() if k))


ZERO = ("e", 0, frozenset())


# interpreter.cpp and interpreter_lua_c.h are lua.c; the readers of sessionstream.cpp are liolib.c's, which count their
# results in a loop bounded by luaL_checkstack
SKIP_FILES = ("clink/app/src/loader/interpreter.cpp", "clink/app/src/loader/interpreter_lua_c.h")
SKIP = {"ss_read", "ss_readline_closure", "luaL_SessionStream::read", "luaL_SessionStream::lines"}


def excluded(f):
    return f.file in SKIP_FILES or f.name in SKIP or "@F@__invoke#" in f.usr or "@F@operator int (*)(lua_State *)" in f.usr


class Rel:
    """Functions that reach the Lua API."""

    def __init__(self, prog):
        self.prog = prog
        direct = [f for f in prog.funcs.values() if f.file.startswith("clink/") and any(is_api(x) for x in f.callees)]
        seen = {f.usr for f in direct}
        for f in prog.funcs.values():
            if f.file.startswith("clink/") and f.usr not in seen and f.blocks:
                if f.cls == "lua_state" or any(is_state_ptr(f, p) for p in f.d["params"]):
                    seen.add(f.usr)
        self.set = {u for u in seen if not excluded(prog.funcs[u])}


class StackClient(Client):
    max_depth = 3
    deep_arith = True
    max_states = 128
    budget = 250000

    def __init__(self, an):
        self.an = an
        self.exits = []
        self.reports = []
        self.lostat = None
        self.under = {}

    def initial(self, it, f):
        return (ZERO, frozenset())

    def inline(self, f):
        if (f.cls or "") in ("save_stack_top",) or f.has("lambda"):
            return True
        return f.usr in self.an.rel.set and f.usr not in self.an.stack and self.an.summary(f) == {"*": None} and self.an.usable(f)

    def rename(self, cl, a, b):
        def rh(h):
            return h and (h[0], h[1], frozenset((rename_term(x, a, b), k) for x, k in h[2])) if h and h[2] else h
        return (rh(cl[0]), frozenset(((b if s == a else s), rh(h)) for s, h in cl[1]))

    def live_terms(self, cl):
        out = set()
        for h in [cl[0]] + [x[1] for x in cl[1]]:
            if h:
                out.update(x for x, _ in h[2])
        return out

    def gc(self, it, st):
        if st.cl[1]:
            u = it.used(st)
            keep = frozenset(x for x in st.cl[1] if x[0] in u)
            if keep != st.cl[1]:
                st.cl = (st.cl[0], keep)
        return False

    def group(self, st):
        return st.cl[0]

    def join_cl(self, a, b):
        return (a[0] if a[0] == b[0] else None, a[1] & b[1])

    # ------------------------------------------------------------------
    def add(self, fr, st, n, d):
        h = st.cl[0]
        if h is None:
            return
        if d is None:
            self.lostat = self.lostat or (fr.f.file, n.get("l"), n.get("n"))
            st.cl = (None, st.cl[1])
            return
        c, terms = (d, {}) if isinstance(d, int) else d
        h = hadd(h, c, terms)
        if abs(h[1]) > 24 or len(h[2]) > 3 or any(abs(k) > 4 for _, k in h[2]):
            self.lostat = self.lostat or (fr.f.file, n.get("l"), "unbounded growth")
            st.cl = (None, st.cl[1])
            return
        if h[1] < 0 and not h[2]:
            self.under.setdefault((fr.f.file, n.get("l"), fr.f.name), (n.get("n"), h[1]))
        st.cl = (h, st.cl[1])

    def main_state(self, fr, n):
        """False when the call works on another coroutine's stack."""
        a = fr.f.args(n)
        if not a or a[0] is None:
            return True
        return not self.an.is_thread(fr.f, a[0])

    def call(self, fr, st, n, args):
        nm = n.get("n")
        it = fr.it
        if nm is None:
            return None
        if nm in NORET:
            return []
        if not is_api(nm):
            return None
        if nm not in ("lua_state::pcall_silent", "lua_state::pcall") and not self.main_state(fr, n):
            return None
        if nm == "lua_gettop":
            h = st.cl[0]
            t = it.fresh(fr, st, n)
            st.cons[t] = (0, 1 << 20, frozenset())
            if h is not None:
                if h[0] == "a" and not h[2]:
                    return [(st, C(h[1]))]
                st.cl = (h, frozenset(x for x in st.cl[1] if x[0] != t) | {(t, h)})
            return [(st, t)]
        if nm == "lua_settop":
            self.settop(fr, st, n, args[1])
            return [(st, C(0))]
        if nm in COND:
            z, nz = COND[nm]
            t = it.fresh(fr, st, n)
            s2 = st.copy()
            self.add(fr, st, n, z)
            self.add(fr, s2, n, nz)
            s2.cons[t] = (-INF, INF, frozenset((0,)))
            return [(st, C(0)), (s2, t)]
        if nm in CALLS:
            a0 = fr.f.args(n)[0]
            k = 1 if a0 is not None and fr.f.ntype(a0)["k"] == "ptr" else 0
            nargs = self.lin(it, st, args[k])
            nres = self.lin(it, st, args[k + 1])
            it.havoc(fr, st, n, args)
            ok = None
            if not (nres[0] < 0 and not nres[1]):
                ok = lsub(lsub(nres, nargs), (1, {}))
            if CALLS[nm] is None:
                self.add(fr, st, n, ok)
                return [(st, C(0))]
            t = it.fresh(fr, st, n)
            s2 = st.copy()
            self.add(fr, st, n, ok)
            self.add(fr, s2, n, lsub((0, {}), nargs))
            s2.cons[t] = (-INF, INF, frozenset((0,)))
            return [(st, C(0)), (s2, t)]
        it.havoc(fr, st, n, args)
        t = it.fresh(fr, st, n)
        if nm in ("luaL_fileresult", "luaL_execresult"):
            self.add(fr, st, n, (0, {t: 1}))
        elif nm == "lua_pushcclosure":
            self.add(fr, st, n, lsub((1, {}), self.lin(it, st, args[2])))
        elif nm == "lua_concat":
            self.add(fr, st, n, lsub((1, {}), self.lin(it, st, args[1])))
        elif nm == "lua_arith":
            k = it.const_of(st, args[1])
            self.add(fr, st, n, None if k is None else (0 if k == 6 else -1))
        elif nm == "luaL_setfuncs":
            k = it.const_of(st, args[2])
            self.add(fr, st, n, None if k is None else -k)
        elif nm == "lua_getinfo":
            w = fr.f.strip(fr.f.args(n)[1])
            if w is not None and w["k"] == "Str":
                self.add(fr, st, n, ("f" in w["s"]) + ("L" in w["s"]) - (">" in w["s"]))
            else:
                self.add(fr, st, n, None)
        elif nm in ("lua_xmove", "lua_resume"):
            k = it.const_of(st, args[2])
            self.add(fr, st, n, None if k is None or nm == "lua_resume" else -k)
        else:
            self.add(fr, st, n, FIX[nm])
        if nm == "lua_newuserdata":
            st.cons[t] = (-INF, INF, frozenset((0,)))
        return [(st, t)]

    def lin(self, it, st, t):
        k = it.const_of(st, t)
        if k is not None:
            return k, {}
        c, d = lin(t)
        out = {}
        for x, m in d.items():
            k = it.const_of(st, x)
            if k is None:
                out[x] = m
            else:
                c += k * m
        return c, out

    def settop(self, fr, st, n, a):
        it = fr.it
        c, d = self.lin(it, st, a)
        if not d:
            if c < 0:
                self.add(fr, st, n, c + 1)
            else:
                st.cl = (("a", c, frozenset()), st.cl[1])
            return
        known = dict(st.cl[1])
        base, nb, const, terms = None, 0, c, {}
        for x, k in d.items():
            h = known.get(x)
            if h is None:
                terms[x] = terms.get(x, 0) + k
                continue
            if base not in (None, h[0]):
                nb = 99
            base = h[0]
            nb += k
            const += k * h[1]
            for y, m in h[2]:
                terms[y] = terms.get(y, 0) + k * m
        if nb == 1:
            st.cl = ((base, 0, frozenset()), st.cl[1])
            self.add(fr, st, n, (const, terms))
            return
        if nb == 0 and (base is not None or all(k < 0 for k in d.values())):
            self.add(fr, st, n, (const + 1, terms))     # lua_pop with a computed count
            return
        self.lostat = self.lostat or (fr.f.file, n.get("l"), "lua_settop")
        st.cl = (None, st.cl[1])

    def subst(self, it, st, callee, args, d):
        """A summary's effect with the caller's arguments in place of the parameters."""
        if d is None or isinstance(d, int):
            return d
        c, out = d[0], {}
        for i, k in d[1]:
            if i >= len(args):
                return None
            ac, ad = self.lin(it, st, args[i])
            c += k * ac
            for x, m in ad.items():
                out[x] = out.get(x, 0) + k * m
        return c, {x: m for x, m in out.items() if m}

    def after_call(self, fr, st, n, args, res):
        ds = []
        tg = fr.f.prog.targets(n)
        if not tg and n.get("n") is None or tg and all(is_cfunction(c) and (c.usr not in self.an.rel.set or self.an.summary(c) == {"*": None}) for c in tg):
            a = fr.f.args(n)
            if len(a) == 1 and a[0] is not None and fr.f.ntype(a[0])["k"] == "ptr" and fr.f.type(fr.f.ntype(a[0]).get("e", -1)).get("r") == "lua_State" \
                    and fr.f.ntype(n)["k"] == "int":
                self.add(fr, st, n, (0, {res: 1}))      # a Lua function pushes what it says it returns
                return [(st, res)]
        for c in tg:
            if c.usr in self.an.rel.set:
                ds.append(self.an.summary(c))
        if not ds or all(d == {"*": 0} for d in ds):
            return None
        # functions that work on another coroutine
        if any(a is not None and fr.f.ntype(a)["k"] == "ptr" and fr.f.type(fr.f.ntype(a).get("e", -1)).get("r") == "lua_State" and self.an.is_thread(fr.f, a)
               for a in fr.f.args(n)):
            return None
        d = ds[0]
        if any(x != d for x in ds):
            self.add(fr, st, n, None)
            return [(st, res)]
        it, callee = fr.it, fr.f.prog.targets(n)[0]
        if "*" in d:
            self.add(fr, st, n, self.subst(it, st, callee, args, d["*"]))
            return [(st, res)]
        out = []
        for tv in sorted(d, key=repr):
            s = st.copy()
            if tv is True or tv is False:
                if it.assume(s, res, tv):
                    self.add(fr, s, n, self.subst(it, s, callee, args, d[tv]))
                    out.append((s, res if tv else C(0)))
            else:
                self.add(fr, s, n, self.subst(it, s, callee, args, d[tv]))
                out.append((s, C(tv)))
        return out

    def exit(self, fr, st, t):
        h = st.cl[0]
        rt = fr.f.type(fr.f.d.get("ret", -1))
        cls, cv = "*", None
        if rt["k"] in ("bool", "ptr") or rt["k"] == "int":
            if t is not None:
                cv = fr.it.const_of(st, t)
                b = fr.it.truth(st, t)
                cls = "?" if b is None else b
                if cv is not None and rt["k"] == "int":
                    cls = cv
            else:
                cls = "?"
        d = None
        if h is not None and t is not None and rt["k"] == "int":
            c, ts = lsub((h[1], dict(h[2])), self.lin(fr.it, st, t))
            d = c if not ts else None
        self.exits.append((cls, cv, h, fr.it.trace_lines(), d))


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.rel = Rel(prog)
        self.memo = {}
        self.res = {}
        self.stack = []

    def usable(self, f):
        """Small enough to be followed path by path in its callers."""
        return len(f.blocks) < 60

    def is_thread(self, f, n, depth=0):
        n = f.strip(n)
        if n is None or depth > 4:
            return False
        if n["k"] == "Call" and n.get("n") in ("lua_newthread", "lua_tothread", "luaL_newstate"):
            return True
        if n["k"] == "Ref" and n.get("dk") == "v":
            d = n["d"]
            if d in f.d["params"]:
                ps = [p for p in f.d["params"] if is_state_ptr(f, p)]
                return len(ps) > 1 and d != ps[0]
            for x in f.nodes:
                if x and x["k"] == "DeclStmt":
                    for dd in x["ds"]:
                        if dd["v"] == d and dd["i"] >= 0 and self.is_thread(f, f.nodes[dd["i"]], depth + 1):
                            return True
                elif x and x["k"] == "Asg" and x["op"] == "=":
                    l = f.strip(f.kid(x, 0))
                    if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and l.get("d") == d and self.is_thread(f, f.kid(x, 1), depth + 1):
                        return True
        return False

    def summary(self, f):
        """{"*": d} or {True: d, False: d'}; d None when unknown."""
        if f.usr in self.memo:
            return self.memo[f.usr]
        if f.usr in self.stack:
            return {"*": 0}
        if is_cfunction(f) and f.usr not in self.rel.set:
            return {"*": 0}
        r = self.run(f)
        hs = {}
        for cls, cv, h, tr, _ in r["exits"]:
            hs.setdefault(cls, set()).add(h)
        allh = set().union(*hs.values()) if hs else {ZERO}

        def one(s):
            if len(s) == 1:
                h = next(iter(s))
                if h is not None and h[0] == "e":
                    if not h[2]:
                        return h[1]
                    t = []
                    for x, k in h[2]:
                        if not (x[0] == "in" and len(x[1]) == 3 and x[1][:2] == ("v", 0) and x[1][2] in f.d["params"] and not x[2]):
                            return None
                        t.append((f.d["params"].index(x[1][2]), k))
                    return (h[1], tuple(sorted(t)))
            return None
        if len(hs) > 8:
            out = {"*": None}
        elif len(allh) == 1 and (allh == {ZERO} or not is_cfunction(f) or any(isinstance(k, (str, bool)) for k in hs)):
            out = {"*": one(allh)}
        elif "?" in hs or "*" in hs:
            out = {"*": None}
        else:
            out = {k: one(v) for k, v in hs.items()}
            if None in out.values():
                out = {"*": None}
        self.memo[f.usr] = out
        return out

    def run(self, f):
        if f.usr in self.res:
            return self.res[f.usr]
        self.stack.append(f.usr)
        cl = StackClient(self)
        it = Interp(self.prog, cl)
        ok = it.analyze(f)
        self.stack.pop()
        r = {"exits": cl.exits if ok else [("*", None, None, [], None)], "ok": ok, "lost": cl.lostat, "under": cl.under}
        self.res[f.usr] = r
        return r

    def close(self):
        """Analyses everything; callers of functions that change the height are analysed too, wherever they are."""
        prog = self.prog
        callers = {}
        for f in prog.funcs.values():
            if f.file.startswith("clink/") and f.blocks:
                for n in f.calls():
                    for t in prog.targets(n):
                        callers.setdefault(t.usr, set()).add(f.usr)
        self.callers = callers
        while True:
            new = set()
            for u in sorted(self.rel.set):
                f = prog.funcs[u]
                if self.summary(f) != {"*": 0}:
                    new |= {x for x in callers.get(u, ()) if x not in self.rel.set and not excluded(prog.funcs[x])}
            if not new:
                return
            self.rel.set |= new
            work = list(new)
            stale = set(new)
            while work:
                for c in callers.get(work.pop(), ()):
                    if c in self.rel.set and c not in stale:
                        stale.add(c)
                        work.append(c)
            for u in stale:
                self.memo.pop(u, None)
                self.res.pop(u, None)
