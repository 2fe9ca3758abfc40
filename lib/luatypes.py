"""Which Lua stack slots are known to hold tables, along every path of native code.

A state describes the stack from the top down, so it needs no absolute height:
  lst    tuple of entries, top first; an entry is True (a table), False (unknown) or ("E", k), the k-th value from the top at
         entry to the function; below lst the stack continues with ("E", base), ("E", base + 1), ...; base None: unknown
  tabs   keys of slots named some other way that hold a table: ("A", i) absolute index, ("V", variable, offset), ("E", k)
  saved  variable -> how many values were pushed since it took lua_gettop()
  facts  call node or boolean variable -> outcome on this path
"""
import re
import luaheight
from luaheight import FIX, COND, NORET, is_cfunction, is_state_ptr

REG = -1001000
TABLES = {"lua_createtable", "luaL_newmetatable", "luaL_getsubtable"}
LIBS = {"clink", "os", "io", "string", "table", "package", "debug", "console", "path", "rl", "settings", "unicode", "http", "log", "coroutine", "_G"}
# call -> (index argument, how many values it has on top of the table when it is called)
NEED = {"lua_rawget": 1, "lua_rawgeti": 1, "lua_rawset": 1, "lua_rawseti": 1, "lua_next": 1, "luaL_ref": 1}
RAISING = {"lua_getfield": 1, "lua_setfield": 1, "lua_gettable": 1, "lua_settable": 1}
PCALLS = ("lua_callk", "lua_pcallk", "lua_state::pcall", "lua_state::pcall_silent")
MAXL = 48


class S:
    __slots__ = ("lst", "base", "tabs", "saved", "facts")

    def __init__(self, lst=(), base=0, tabs=frozenset(), saved=frozenset(), facts=frozenset()):
        self.lst, self.base, self.tabs, self.saved, self.facts = lst, base, tabs, saved, facts

    def key(self):
        return (self.lst, self.base, self.tabs, self.saved, self.facts)

    def copy(self):
        return S(*self.key())

    def at(self, k):
        """k-th from the top, 0 based."""
        if k < len(self.lst):
            return self.lst[k]
        return ("E", self.base + k - len(self.lst)) if self.base is not None else False

    def push(self, e=False, n=1):
        self.lst = (e,) * n + self.lst
        self.saved = frozenset((v, c + n) for v, c in self.saved)
        if len(self.lst) > MAXL:
            self.lst, self.base = self.lst[:MAXL], None

    def pop(self, n=1):
        self.saved = frozenset((v, c - n) for v, c in self.saved)
        m = min(n, len(self.lst))
        self.lst = self.lst[m:]
        if n > m and self.base is not None:
            self.base += n - m

    def fill(self, k):
        """Makes position k explicit."""
        while len(self.lst) <= k:
            self.lst += (("E", self.base),) if self.base is not None else (False,)
            if self.base is not None:
                self.base += 1

    def lose(self):
        self.lst, self.base, self.saved = (), None, frozenset()

    def put(self, k, e):
        self.fill(k)
        self.lst = self.lst[:k] + (e,) + self.lst[k + 1:]


class Types:
    def __init__(self, prog, an, raising):
        self.prog, self.an, self.raising = prog, an, raising
        self.eff = {}          # usr -> set of (facts about parameters, net effect) or None
        self.req = {}          # usr -> {requirement: (site text)}
        self.sites = 0
        self.nexts = 0
        self.reads = 0
        self.pcalls = set()
        self.viol = {}
        self.lost = []

    # -- index expressions --------------------------------------------------
    def index(self, f, n):
        n = f.strip(n)
        if n is None:
            return None
        v = n.get("v")
        if v is None and n["k"] == "Lit":
            v = n.get("v")
        if v is not None:
            if v == REG:
                return ("R",)
            if v < REG:
                return ("U", v)
            return ("T", -v - 1) if v < 0 else ("A", v) if v > 0 else None
        if n["k"] == "Ref" and n.get("dk") == "v":
            return ("V", n["d"], 0)
        if n["k"] == "Call" and n.get("n") == "lua_gettop":
            return ("T", 0)
        if n["k"] == "Call" and n.get("n") == "lua_absindex":
            return self.index(f, f.args(n)[1])
        if n["k"] == "Bin" and n.get("op") in ("+", "-"):
            a, b = f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1))
            if n["op"] == "+" and a.get("v") is not None:
                a, b = b, a
            ia = self.index(f, a)
            if b.get("v") is not None and ia and ia[0] == "V":
                k = b["v"] if n["op"] == "+" else -b["v"]
                return ("V", ia[1], ia[2] + k)
        return None

    def slot(self, st, ix):
        """The entry the index denotes: True, False, or a key that can be learned about."""
        if ix is None:
            return False
        if ix[0] == "R":
            return True
        if ix[0] == "T":
            return st.at(ix[1])
        if ix[0] == "V":
            for v, c in st.saved:
                if v == ix[1]:
                    k = c - ix[2]
                    if k >= 0:
                        return st.at(k)
        return ix

    def is_table(self, st, e):
        return e is True or (e is not False and e in st.tabs)

    def learn(self, st, f, ixn):
        ix = self.index(f, ixn)
        if ix is None or ix[0] == "R":
            return
        if ix[0] == "V":
            for v, c in st.saved:
                if v == ix[1] and c - ix[2] >= 0:
                    ix = ("T", c - ix[2])
                    break
        if ix[0] == "T":
            e = st.at(ix[1])
            if e is not True and e is not False and e[0] in "EAV":
                st.tabs = st.tabs | {e}
            else:
                st.put(ix[1], True)
        else:
            st.tabs = st.tabs | {ix}

    # -- conditions ---------------------------------------------------------
    def assume(self, st, f, c, val, depth=0):
        """The states in which the condition has that outcome."""
        c = f.strip(c)
        if c is None or depth > 8:
            return [st]
        if c["k"] == "Un" and c.get("op") == "!":
            return self.assume(st, f, f.kid(c, 0), not val, depth + 1)
        if c["k"] == "Bin" and c.get("op") in ("&&", "||"):
            if (c["op"] == "&&") == val:
                return [y for x in self.assume(st, f, f.kid(c, 0), val, depth + 1) for y in self.assume(x, f, f.kid(c, 1), val, depth + 1)]
            return self.assume(st.copy(), f, f.kid(c, 0), val, depth + 1) + \
                [y for x in self.assume(st, f, f.kid(c, 0), not val, depth + 1) for y in self.assume(x, f, f.kid(c, 1), val, depth + 1)]
        if c["k"] == "Bin" and c.get("op") in ("==", "!=", ">", "<", "<=", ">="):
            a, b = f.strip(f.kid(c, 0)), f.strip(f.kid(c, 1))
            op = c["op"]
            if a is not None and a.get("v") is not None and a["k"] != "Call":
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            eq = (op == "==") == val
            if a is None or b is None:
                return [st]
            if a["k"] == "Ref" and a.get("dk") == "v" and b.get("v") is not None:
                for k, x in st.facts:
                    if k == ("k", a["d"]):
                        r = {"==": x == b["v"], "!=": x != b["v"], "<": x < b["v"], ">": x > b["v"], "<=": x <= b["v"], ">=": x >= b["v"]}[op]
                        return [st] if r == val else []
                if b["v"] == 0 and op in ("<", ">="):
                    return self.fact(st, ("n", a["d"]), (op == "<") == val)
            if op in ("==", "!=") and b["k"] == "Null":
                return self.assume(st, f, a, not eq, depth + 1)
            if op in ("==", "!=") and b.get("v") is not None:
                if a["k"] == "Asg" and a.get("op") == "=":
                    a = f.strip(f.kid(a, 1))
                tcall = self.typecall(f, a)
                if tcall is not None:
                    if b["v"] == 5 and eq:
                        self.learn(st, f, tcall)
                    elif b["v"] == 5:
                        e = self.slot(st, self.index(f, tcall))
                        if self.is_table(st, e):
                            return []
                    ix = self.index(f, tcall)
                    if ix and ix[0] == "T" and eq and b["v"] == 4 and st.at(ix[1]) == ("K", 0):
                        st.put(ix[1], False)
                    return self.fact(st, ("t", "==%d" % b["v"], ix), eq) if ix and ix[0] == "A" else [st]
                if b["v"] == 0:
                    return self.assume(st, f, a, not eq, depth + 1)
            return [st]
        if c["k"] == "Call":
            if c.get("n") in ("lua_isnumber", "lua_isstring", "lua_isuserdata", "lua_iscfunction"):
                ix = self.index(f, f.args(c)[1])
                if val and self.is_table(st, self.slot(st, ix)):
                    return []
                return self.fact(st, ("t", c["n"], ix), val) if ix and ix[0] == "A" else [st]
            i = self.tests().get(c.get("f"))
            if i is not None:
                if val:
                    self.learn(st, f, f.args(c)[i])
                elif self.is_table(st, self.slot(st, self.index(f, f.args(c)[i]))):
                    return []
            if not any(k == ("c", id(c)) for k, _ in st.facts):
                return [st]
            st.lst = tuple(False if e == ("X", id(c)) else e for e in st.lst)
            return self.fact(st, ("c", id(c)), val)
        if c["k"] == "Ref" and c.get("dk") == "v":
            init = self.single_init(f, c["d"])
            if init is not None and self.pure(f, init):
                return self.assume(st, f, init, val, depth + 1)
            if any(k == ("v", c["d"]) for k, _ in st.facts):
                st.lst = tuple(False if type(e) is tuple and e[0] == "X" else e for e in st.lst)
            if not self.tested(f, c["d"]):
                return [st]
            return self.fact(st, ("v", c["d"]), val)
        return [st]

    def tested(self, f, d):
        """Variables whose outcome is worth remembering: tested more than once, or a parameter."""
        memo = self.__dict__.setdefault("_td", {})
        if f.usr not in memo:
            cnt = {}
            for b in f.blocks.values():
                tc = b.get("tc")
                if tc is None or tc < 0:
                    continue
                for v in {x["d"] for x in f.deep(f.nodes[tc]) if x["k"] == "Ref" and x.get("dk") == "v"}:
                    cnt[v] = cnt.get(v, 0) + 1
            memo[f.usr] = {v for v, k in cnt.items() if k > 1 or v in f.d["params"]}
        return d in memo[f.usr]

    def fact(self, st, k, val):
        for x, v in st.facts:
            if x == k:
                return [st] if v == val else []
        st.facts = st.facts | {(k, val)}
        return [st]

    def typecall(self, f, n):
        n = f.strip(n)
        if n is not None and n["k"] == "Call" and n.get("n") == "lua_type":
            return f.args(n)[1]
        if n is not None and n["k"] == "Ref" and n.get("dk") == "v":
            i = self.single_init(f, n["d"])
            if i is not None and f.strip(i)["k"] == "Call":
                return self.typecall(f, i)
        return None

    def single_init(self, f, d):
        memo = self.__dict__.setdefault("_si", {})
        k = (f.usr, d)
        if k not in memo:
            r, cnt = None, 0
            for x in f.nodes:
                if not x:
                    continue
                if x["k"] == "DeclStmt":
                    for dd in x["ds"]:
                        if dd["v"] == d and dd["i"] >= 0:
                            r = f.nodes[dd["i"]]
                            cnt += 1
                elif x["k"] in ("Asg",) or (x["k"] == "Un" and x.get("op") in ("++", "--", "&")):
                    l = f.strip(f.kid(x, 0))
                    if l is not None and l["k"] == "Ref" and l.get("d") == d and l.get("dk") == "v":
                        cnt += 2
            memo[k] = r if cnt == 1 and d not in f.d["params"] else None
        return memo[k]

    def pure(self, f, n, depth=0):
        """A type test over a slot named by a constant absolute index, a variable that never changes, or literals."""
        n = f.strip(n)
        if n is None:
            return False
        if n["k"] in ("Bin", "Un"):
            return all(self.pure(f, x, depth + 1) for x in f.kids(n))
        if n.get("v") is not None:
            return True
        if n["k"] == "Ref" and n.get("dk") == "v":
            i = self.single_init(f, n["d"])
            return i is not None and depth < 5 and self.pure(f, i, depth + 1)
        if n["k"] == "Call" and n.get("n") in ("lua_type", "lua_isnumber", "lua_isstring", "lua_isuserdata"):
            ix = self.index(f, f.args(n)[1])
            return bool(ix) and (ix[0] == "A" or ix[0] == "V" and (ix[1] in f.d["params"] or self.single_init(f, ix[1]) is not None))
        return False

    # -- transfer -----------------------------------------------------------
    def need(self, st, f, n, ixn, what):
        self.sites += 1
        ix = self.index(f, ixn)
        e = self.slot(st, ix)
        if self.is_table(st, e):
            return
        if e is not False and e is not None:
            if e[0] == "E" and not is_cfunction(f):
                self.require(f, e, n, what, st)
                return
            if e[0] == "V" and e[1] in f.d["params"] and e[2] == 0 and not self.assigned(f, e[1]):
                self.require(f, ("P", f.d["params"].index(e[1])), n, what, st)
                return
        self.bad(f, n, what, ixn)

    def assigned(self, f, d):
        for x in f.nodes:
            if x and (x["k"] == "Asg" or x["k"] == "Un" and x.get("op") in ("++", "--", "&")):
                l = f.strip(f.kid(x, 0))
                if l is not None and l["k"] == "Ref" and l.get("d") == d and l.get("dk") == "v":
                    return True
        return False

    def require(self, f, r, n, what, st):
        r = (r, frozenset((f.d["params"].index(x[1]), v) for x, v in st.facts if x[0] == "v" and x[1] in f.d["params"]))
        d = self.req.setdefault(f.usr, {})
        if r not in d:
            d[r] = "%s in %s" % (what, f.name)
            self.changed.add(f.usr)

    def bad(self, f, n, what, ixn=None):
        self.viol.setdefault((f.usr, n["n"] or what, n.get("l")), (f, n, what, f.text(ixn) if ixn is not None else ""))

    def main_state(self, f, n):
        a = f.args(n)
        return not a or a[0] is None or not self.an.is_thread(f, a[0])

    def call(self, f, st, n):
        """States after the call."""
        nm = n.get("n")
        a = f.args(n)
        if nm in NORET:
            return []
        if nm is not None and re.match(r"^(lua|luaL)_", nm) and not self.main_state(f, n):
            return [st]
        if nm in NEED:
            self.need(st, f, n, a[1], nm)
        if nm in RAISING and f.usr in self.raising:
            self.need(st, f, n, a[1], nm)
        if nm == "luaL_checktype":
            if f.strip(a[2]).get("v") == 5:
                self.learn(st, f, a[1])
            return [st]
        if nm == "lua_gettop":
            return [st]
        if nm in ("lua_toboolean", "lua_tointegerx", "lua_tonumberx", "lua_tolstring") and len(a) > 1:
            e = self.slot(st, self.index(f, a[1]))
            self.reads += 1
            if type(e) is tuple and e[0] == "X":
                self.bad(f, n, "result", a[1])
        if nm in ("lua_tolstring", "luaL_checklstring", "luaL_optlstring") and len(a) > 1:
            if self.slot(st, self.index(f, a[1])) == ("K", 0):
                self.bad(f, n, "key", a[1])
            return [st]
        if nm in TABLES:
            if nm == "luaL_getsubtable":
                st.pop(0)
            st.push(True)
            return [st]
        if nm == "lua_getglobal":
            s = f.strip(a[1])
            st.push(s is not None and s["k"] == "Str" and s["s"] in LIBS)
            return [st]
        if nm == "lua_rawgeti":
            ix = self.index(f, a[1])
            st.push(ix == ("R",) and f.strip(a[2]).get("v") == 2)
            return [st]
        if nm == "lua_pushvalue":
            e = self.slot(st, self.index(f, a[1]))
            st.push(True if self.is_table(st, e) else e if (e is not False and e is not None and e[0] in "AE") else False)
            return [st]
        if nm in ("lua_insert", "lua_remove", "lua_replace", "lua_copy"):
            ix = self.index(f, a[1])
            if ix and ix[0] == "V":
                for v, c in st.saved:
                    if v == ix[1] and c - ix[2] >= 0:
                        ix = ("T", c - ix[2])
                        break
            if ix and ix[0] == "T" and nm != "lua_copy":
                k = ix[1]
                st.fill(k)
                l = list(st.lst)
                if nm == "lua_insert":
                    l.insert(k, l.pop(0)) if k else None
                    st.lst = tuple(l)
                elif nm == "lua_remove":
                    del l[k]
                    st.lst = tuple(l)
                    st.saved = frozenset((v, c - 1) for v, c in st.saved)
                else:
                    l[k] = l[0]
                    st.lst = tuple(l[1:])
                    st.saved = frozenset((v, c - 1) for v, c in st.saved)
            elif ix and ix[0] == "A" and nm == "lua_replace":
                e = st.at(0)
                st.pop()
                st.tabs = (st.tabs | {ix}) if self.is_table(st, e) else st.tabs - {ix}
            else:
                st.lose()
                st.tabs = frozenset()
            return [st]
        if nm == "lua_settop":
            self.settop(f, st, a[1])
            return [st]
        if nm in COND:
            z, nz = COND[nm]
            s2 = st.copy()
            self.delta(st, z)
            if nm in ("lua_getmetatable",):
                s2.push(True)
            elif nm == "lua_next":
                s2.pop()
                s2.push(("K", 0))
                s2.push()
                self.nexts += 1
            else:
                self.delta(s2, nz)
            return [y for x, v in ((st, False), (s2, True)) for y in self.fact(x, ("c", id(n)), v)]
        w = self.wrappers().get(n.get("f"))
        if nm in PCALLS or w:
            k = w if w else 1 if a and a[0] is not None and f.ntype(a[0])["k"] == "ptr" else 0
            na, nr = f.strip(a[k]).get("v"), f.strip(a[k + 1]).get("v")
            if na is None or nr is None or nr < 0:
                st.lose()
                return [st]
            st.pop(na + 1)
            if nm == "lua_callk":
                st.push(False, nr)
                return [st]
            s2 = st.copy()
            st.push(False, nr)
            s2.push(("X", id(n)))
            self.pcalls.add((f.usr, n.get("l")))
            return [y for x, v in ((st, False), (s2, True)) for y in self.fact(x, ("c", id(n)), v)]
        if nm == "lua_pushcclosure":
            k = f.strip(a[2]).get("v")
            if k is None:
                st.lose()
            else:
                st.pop(k)
                st.push()
            return [st]
        if nm == "lua_concat":
            k = f.strip(a[1]).get("v")
            if k is None:
                st.lose()
            else:
                st.pop(k)
                st.push()
            return [st]
        if nm == "luaL_setfuncs":
            self.delta(st, -(f.strip(a[2]).get("v") or 0))
            return [st]
        if nm == "lua_gettable" or nm == "lua_rawget":
            e = st.at(0)
            st.pop()
            st.push(e == ("S", "_internal"))
            return [st]
        if nm in ("lua_pushstring", "lua_pushlstring"):
            x = f.strip(a[1])
            st.push(("S", "_internal") if x is not None and x["k"] == "Str" and x["s"] == "_internal" else False)
            return [st]
        if nm in FIX and FIX[nm] is not None:
            self.delta(st, FIX[nm])
            return [st]
        if nm in ("lua_getinfo", "lua_xmove", "lua_resume", "lua_arith", "luaL_fileresult", "luaL_execresult"):
            st.lose()
            return [st]
        # a function of the product
        ts = self.prog.targets(n)
        for t in ts:
            for (r, cond), why in list(self.req.get(t.usr, {}).items()):
                if any(i < len(a) and a[i] is not None and self.constbool(f, f.strip(a[i])) == (not v) for i, v in cond):
                    continue
                if r[0] == "E":
                    if r[1] >= 0:
                        e = st.at(r[1])
                        if not self.is_table(st, e):
                            if e is not False and e[0] == "E" and not is_cfunction(f):
                                self.require(f, e, n, why, st)
                            else:
                                self.bad(f, n, why)
                elif r[0] == "P" and r[1] < len(a):
                    self.need(st, f, n, a[r[1]], why)
        ds = None
        if ts and all(t.usr in self.an.rel.set for t in ts):
            out = [self.an.summary(t) for t in ts]
            ds = out[0] if all(o == out[0] for o in out) else {"*": None}
        elif not ts or not any(t.usr in self.an.rel.set for t in ts):
            ds = {"*": 0} if not is_api_like(nm) else {"*": None}
        else:
            ds = {"*": None}
        outs = []
        if ds == {"*": None} and len(ts) == 1 and self.eff.get(ts[0].usr):
            for pf, ret, net in sorted(self.eff[ts[0].usr], key=str):
                s2 = st.copy()
                for i, v in pf:
                    x = f.strip(a[i]) if i < len(a) and a[i] is not None else None
                    if x is not None and self.constbool(f, x) not in (None, v):
                        break
                else:
                    self.delta(s2, net)
                    outs += self.fact(s2, ("c", id(n)), ret) if ret is not None else [s2]
            return outs
        for cls, d in ds.items():
            s2 = st.copy()
            if isinstance(d, tuple):
                v, bad = d[0], False
                for i, k in d[1]:
                    x = f.strip(a[i]).get("v") if i < len(a) and a[i] is not None else None
                    if x is None:
                        bad = True
                    else:
                        v += k * x
                d = None if bad else v
            if d is None:
                self.lost.append((f.name, nm))
                s2.lose()
            else:
                self.delta(s2, d)
            if cls is True or cls is False:
                if not self.fact(s2, ("c", id(n)), bool(cls)):
                    continue
            elif isinstance(cls, int):
                if not self.fact(s2, ("c", id(n)), cls != 0):
                    continue
            outs.append(s2)
        return outs

    def wrappers(self):
        """Functions that do nothing with the stack but make a protected call for their caller: usr -> first count parameter."""
        if not hasattr(self, "_wrap"):
            self._wrap = {}
            for f in self.prog.funcs.values():
                if not f.file.startswith("clink/") or not f.blocks or f.name in PCALLS:
                    continue
                lua = [n for n in f.calls() if re.match(r"^(lua|luaL)_", n.get("n") or "") or n.get("n") in PCALLS]
                if len(lua) != 1 or lua[0].get("n") not in PCALLS or lua[0]["n"] == "lua_callk":
                    continue
                a = f.args(lua[0])
                k = 1 if a and a[0] is not None and f.ntype(a[0])["k"] == "ptr" else 0
                x, y = f.strip(a[k]), f.strip(a[k + 1])
                ps = f.d["params"]
                if x["k"] == y["k"] == "Ref" and x.get("d") in ps and y.get("d") in ps and ps.index(y["d"]) == ps.index(x["d"]) + 1:
                    self._wrap[f.usr] = ps.index(x["d"])
        return self._wrap

    def tests(self):
        """Functions that only tell whether the slot named by one of their parameters holds a table: usr -> that parameter."""
        if not hasattr(self, "_tests"):
            self._tests = {}
            for f in self.prog.funcs.values():
                if "lua_type" not in f.callees or not f.file.startswith("clink/") or not f.blocks:
                    continue
                rs = [n for n in f.nodes if n and n["k"] == "Return" and n.get("c")]
                if len(rs) != 1:
                    continue
                e = f.strip(f.kid(rs[0], 0))
                if e is not None and e["k"] == "Bin" and e.get("op") == "==":
                    a, b = f.strip(f.kid(e, 0)), f.strip(f.kid(e, 1))
                    if a is not None and b is not None and a["k"] == "Call" and a.get("n") == "lua_type" and b.get("v") == 5:
                        x = f.strip(f.args(a)[1])
                        if x["k"] == "Ref" and x.get("d") in f.d["params"] and not self.assigned(f, x["d"]):
                            self._tests[f.usr] = f.d["params"].index(x["d"])
        return self._tests

    def constbool(self, f, x):
        if x["k"] == "Null":
            return False
        if x.get("v") is not None:
            return x["v"] != 0
        if x["k"] == "Un" and x.get("op") == "&" or x["k"] == "Str":
            return True
        return None

    def delta(self, st, d):
        if d > 0:
            st.push(False, d)
        elif d < 0:
            st.pop(-d)

    def settop(self, f, st, an):
        x = f.strip(an)
        v = x.get("v")
        if v is not None:
            if v < 0:
                st.pop(-v - 1)
            else:
                st.lose()
                st.lst = tuple(("A", i) for i in range(v, 0, -1))
            return
        c = 0
        if x["k"] == "Un" and x.get("op") == "-" or x["k"] == "Bin":
            ix = self.index(f, x)
        else:
            ix = self.index(f, x)
        if ix and ix[0] == "V":
            for v, c in st.saved:
                if v == ix[1]:
                    k = c - ix[2]
                    if k >= 0:
                        st.pop(k)
                    else:
                        st.push(False, -k)
                    return
        st.lose()

    def setvar(self, f, st, d, init):
        st.tabs = frozenset(k for k in st.tabs if not (k[0] == "V" and k[1] == d))
        st.saved = frozenset(x for x in st.saved if x[0] != d)
        st.facts = frozenset(x for x in st.facts if x[0] not in (("v", d), ("k", d), ("n", d)))
        n = f.strip(init) if init is not None else None
        if n is None:
            return
        if n["k"] == "Cond":
            o = f.strip(f.kid(n, 0))
            out = [v for k, v in st.facts if k in (("o", id(o)), ("c", id(o)))]
            if out:
                n = f.strip(f.kid(n, 1 if out[0] else 2))
        if n.get("v") is not None:
            st.facts = st.facts | {(("k", d), n["v"])}
            return
        ix = self.index(f, f.kid(n, 0)) if n["k"] == "Un" and n.get("op") in ("++", "--") else self.index(f, n)
        if ix and n["k"] == "Un" and ix[0] == "V" and n.get("post"):
            ix = (ix[0], ix[1], ix[2] + (-1 if n["op"] == "++" else 1))
        if ix and ix in st.tabs and ix[1] != d:
            st.tabs = st.tabs | {("V", d, 0)}
        if n["k"] == "Call" and n.get("n") == "lua_gettop":
            st.saved = st.saved | {(d, 0)}
        elif n["k"] == "Construct" and (n.get("n") or "").startswith("save_stack_top"):
            st.saved = st.saved | {(d, 0)}
        elif n["k"] == "Ref" and n.get("dk") == "v":
            for v, c in list(st.saved):
                if v == n["d"]:
                    st.saved = st.saved | {(d, c)}
        else:
            # remember which way a call went
            neg, m = False, n
            while m is not None and m["k"] == "Un" and m.get("op") == "!":
                neg, m = not neg, f.strip(f.kid(m, 0))
            if m is not None and m["k"] == "Bin" and m.get("op") in ("==", "!=") and f.strip(f.kid(m, 1)).get("v") == 0:
                neg, m = neg ^ (m["op"] == "=="), f.strip(f.kid(m, 0))
            if m is not None and m["k"] == "Call":
                for k, v in st.facts:
                    if k == ("c", id(m)):
                        st.facts = st.facts | {(("v", d), v ^ neg)}
                        break

    def step(self, st, d, by):
        """++ or --: slots named by the variable are now named by the variable and another offset.

        A variable that is known to be negative counts from the top: it is adjusted for a value that is about to be pushed."""
        neg = (("n", d), True) in st.facts
        if not neg:
            st.tabs = frozenset((k[0], k[1], k[2] - by) if k[0] == "V" and k[1] == d else k for k in st.tabs)
            st.saved = frozenset((v, c - by) if v == d else (v, c) for v, c in st.saved)
        st.facts = frozenset(x for x in st.facts if x[0] not in (("v", d), ("k", d)))

    def block(self, f, b, st):
        sts = [st]
        for e in b.get("e", ()):
            if isinstance(e, dict):
                if "dtorvar" in e and (e.get("n") or "").startswith("save_stack_top"):
                    for s in sts:
                        for v, c in s.saved:
                            if v == e["dtorvar"]:
                                s.pop(c) if c > 0 else None
                                break
                        else:
                            s.lose()
                continue
            n = f.nodes[e]
            if n is None:
                continue
            k = n["k"]
            if k == "Call":
                out = []
                for s in sts:
                    s.facts = frozenset(x for x in s.facts if x[0] != ("c", id(n)))
                    out += self.call(f, s, n)
                sts = out
            elif k == "Return" and n.get("c"):
                r = f.strip(f.kid(n, 0))
                if r is not None and r.get("v") is not None:
                    for s in sts:
                        s.facts = s.facts | {(("r",), r["v"] != 0)}
            elif k == "DeclStmt":
                for s in sts:
                    for d in n["ds"]:
                        self.setvar(f, s, d["v"], f.nodes[d["i"]] if d["i"] >= 0 else None)
            elif k == "Asg" or k == "Un" and n.get("op") in ("++", "--"):
                l = f.strip(f.kid(n, 0))
                if l is not None and l["k"] == "Ref" and l.get("dk") == "v":
                    for s in sts:
                        if k == "Un":
                            self.step(s, l["d"], 1 if n["op"] == "++" else -1)
                        else:
                            self.setvar(f, s, l["d"], f.kid(n, 1) if n.get("op") == "=" else None)
            if not sts:
                return []
        return sts

    def function(self, f):
        work = [(f.entry, S())]
        seen = {}
        effs = set()
        n = 0
        while work:
            bi, st = work.pop()
            k = st.key()
            v = seen.setdefault(bi, set())
            if k in v:
                continue
            v.add(k)
            n += 1
            if len(v) > 60:         # forget what is only known per path
                st.facts = frozenset()
                if len(v) > 400:
                    st.lose()
                    st.tabs = frozenset()
                    if len(v) > 500:
                        continue
                k = st.key()
                if k in v and n > 1 and st.key() != k:
                    continue
                v.add(k)
            b = f.blocks.get(bi)
            if b is None:
                continue
            if bi == f.exit:
                pf = frozenset((f.d["params"].index(x[1]), v) for x, v in st.facts if x[0] == "v" and x[1] in f.d["params"])
                ret = [v for x, v in st.facts if x == ("r",)]
                effs.add((pf, ret[0] if ret else None, len(st.lst) - st.base if st.base is not None else None))
                continue
            for s in self.block(f, b, st.copy()):
                succ = b.get("s", ())
                tc = b.get("tc")
                if tc is not None and tc >= 0 and len(succ) == 2 and b.get("tk") != "SwitchStmt":
                    c = f.nodes[tc]
                    for i, val in ((0, True), (1, False)):
                        if succ[i] < 0:
                            continue
                        s2 = s.copy()
                        for s3 in self.branch(s2, f, b, c, val):
                            work.append((succ[i], s3))
                else:
                    for x in succ:
                        if x < 0:
                            continue
                        s2 = s.copy()
                        t = f.blocks.get(x, {})
                        if b.get("tk") == "SwitchStmt" and tc is not None and tc >= 0 and any(f.nodes[y].get("v") == 5 for y in t.get("case", ())) and self.typecall(f, f.nodes[tc]) is not None:
                            self.learn(s2, f, self.typecall(f, f.nodes[tc]))
                        work.append((x, s2))
        e = None if len(effs) > 12 or any(x[2] is None for x in effs) else effs
        if self.eff.get(f.usr, 0) != e:
            self.eff[f.usr] = e
            if e and len({x[2] for x in e}) > 1:
                self.changed.add(f.usr)
        return n

    def branch(self, st, f, b, c, val):
        c = f.strip(c)
        # the block that ends "a && b" decides one operand only: the last one evaluated here
        while c is not None and c["k"] == "Bin" and c.get("op") in ("&&", "||"):
            c = f.strip(f.kid(c, 1)) if b.get("tk") != "BinaryOperator" else f.strip(f.kid(c, 0))
        if c is not None and c["k"] == "Bin" and b.get("tk") == "ConditionalOperator":
            st.facts = frozenset(x for x in st.facts if x[0] != ("o", id(c))) | {(("o", id(c)), val)}
        return self.assume(st, f, c, val)

    def run(self):
        todo = [f for f in self.prog.funcs.values() if f.file.startswith("clink/") and not f.file.startswith("clink/test") and f.blocks
                and f.usr in self.an.rel.set]
        work = list(todo)
        rounds = 0
        self.analysed = {f.usr for f in todo}
        callers = self.prog.callers()
        while work and rounds < 8:
            rounds += 1
            self.changed = set()
            for f in work:
                self.viol = {k: v for k, v in self.viol.items() if k[0] != f.usr}
                self.function(f)
            again = set()
            for u in self.changed:
                again |= {x for x in callers.get(u, ()) if x in self.prog.funcs}
            work = [self.prog.funcs[u] for u in again if u in self.analysed]
        self.callers = callers
        return todo


def is_api_like(nm):
    return nm is None or bool(re.match(r"^(lua|luaL)_", nm))
