"""Where a value of Clink's own Lua scripts may be nil, along every path of every function.

State: access path -> group.  A path is a local variable, or a local variable with constant field names.  Present means "may be nil
here"; values obtained by the same call share a group, because the call fails as a whole.
"""
import re
from luafront import kids, walk

STDNIL = {"io.open": 1, "io.popen": 1, "io.popenrw": 9, "io.popenyield": 9, "io.sopen": 1, "io.tmpfile": 1, "io.read": 1, "os.getenv": 1, "os.tmpname": 0,
          "os.createtmpfile": 9, "string.match": 9, "string.find": 9, "tonumber": 1, "next": 1, "loadfile": 1, "loadstring": 1, "load": 1, 
          "clink.parseline": 0, "debug.getinfo": 1, "package.searchpath": 1, "os.rename": 0, "os.remove": 0}
METHNIL = {"match": 9, "find": 9, "read": 1}
ALL = range(0, 9)
ARGS = {"ipairs": (0,), "pairs": (0,), "table.insert": (0,), "table.concat": (0,), "table.sort": (0,), "table.unpack": (0,), "unpack": (0,), "setmetatable": (0,),
        "next": (0,), "io.open": (0,), "io.lines": (0,), "io.popen": (0,), "os.rename": (0, 1), "os.remove": (0,), "string.find": (0, 1), "string.match": (0, 1),
        "string.gmatch": (0, 1), "string.gsub": (0, 1, 2), "string.rep": (0, 1), "string.sub": (0, 1), "string.lower": (0,), "string.upper": (0,), "string.len": (0,),
        "string.byte": (0,), "string.format": (0,), "string.reverse": (0,), "math.max": ALL, "math.min": ALL, "math.floor": (0,), "math.ceil": (0,), "math.abs": (0,),
        "coroutine.resume": (0,), "coroutine.wrap": (0,), "coroutine.create": (0,), "load": (0,), "loadfile": (), "require": (0,), "io.write": ALL, "pcall": (0,),
        "xpcall": (0,), "coroutine.status": (0,), "string.char": ALL, "math.fmod": (0, 1), "tostring": ()}
METHARGS = {"find": (0,), "match": (0,), "gmatch": (0,), "gsub": (0, 1), "rep": (0,), "sub": (0,), "write": ALL}
OPEN = {"io.open", "io.popen", "io.sopen", "io.popenyield", "io.popenrw", "io.tmpfile", "os.createtmpfile"}
FILE = {"read", "write", "lines", "close", "seek", "flush", "setvbuf"}
ARITH = {"+", "-", "*", "/", "%", "^", "..", "<", "<=", ">", ">="}


def writes_outside(v):
    return any(w is not v.func for w in getattr(v, "wfuncs", ()))


def miss(g):
    """The mark of a value that may be missing; parameters are marked with their position until they are tested or used."""
    return g is not None and g != "ok" and not (isinstance(g, tuple) and g[0] == "P")


def always(e):
    """A pattern every string matches: only items that may be empty, and an end anchor only after a rest-of-line item."""
    if e.k != "str":
        return False
    t = e.v.replace("(", "").replace(")", "")
    if "%" in t or not re.fullmatch(r"\^?((\[[^\]]*\]|.)[*?-])*\$?", t):
        return False
    return not t.endswith("$") or t.endswith(".*$")


class Nil:
    def __init__(self, sc, docnil, sure=(), native=None):
        self.sc, self.docnil = sc, docnil
        self.sure = {f for d in sure for c, f in sc.func(d)} | {f for c in sc.chunks for f in c.allfuncs if f.name in sure}
        self.native = native or {}
        self.req = {}           # func node -> positions of parameters it uses without a test
        self.rets = {}          # func node -> list of bools by position
        self.findings = {}
        self.uses = self.sources = 0
        self.gid = 0
        self.live = set()

    # --- names -----------------------------------------------------------
    def path(self, e):
        if e.k == "paren":
            return self.path(e.e)
        if e.k == "name" and e.var is not None:
            return (e.var,)
        if e.k == "index" and e.i.k == "str":
            b = self.path(e.o)
            return b + (e.i.v,) if b and len(b) < 3 else None
        if e.k == "call" and e.f.k == "name" and e.f.v == "tonumber" and len(e.args) == 1:
            b = self.path(e.args[0])
            return b + ("()",) if b and b[-1] != "()" else None
        return None

    def show(self, e):
        p = self.path(e)
        if e.k == "index" and p is None:
            return "%s[%s]" % (self.show(e.o), self.show(e.i))
        if p and e.k != "call":
            return ".".join([p[0].name] + list(p[1:]))
        if e.k == "call":
            return (self.sc.dot(e.f) or self.show(e.f)) + "()"
        if e.k == "method":
            return ":%s()" % e.m
        if e.k == "paren":
            return self.show(e.e)
        return self.sc.dot(e) or e.k

    def funcs(self, e):
        """The script functions a call may reach."""
        if e.k == "name" and e.var is not None:
            f = getattr(e.var, "func_node", None)
            if f is not None:
                return [f]
        d = self.sc.dot(e)
        if d:
            return [f for c, f in self.sc.func(d)]
        return []

    # --- values ----------------------------------------------------------
    def multi(self, e, n):
        """May the i-th value of e be nil, for i < n; True also for the values that fail together."""
        if e.k == "paren":
            return self.multi(e.e, 1) + [True] * (n - 1)
        if e.k == "call":
            d = self.sc.dot(e.f)
            fs = self.funcs(e.f)
            if fs:
                out = []
                for i in range(n):
                    out.append(any(self.ret(f, i) for f in fs))
                return out
            if d == "settings.get" and e.args and e.args[0].k == "str" or d == "settings.list" and not e.args:
                return [False] * n
            if d == "unicode.fromcodepage" and len(e.args) == 1:
                return [False] * n          # the active code page converts any bytes
            if d == "tonumber" and e.args and e.args[0].k == "num":
                return [False] * n
            if d in ("string.match", "string.find") and len(e.args) > 1 and always(e.args[1]):
                return [False] * n
            if d == "debug.getinfo" and (e.args and e.args[0].k != "num" or len(e.args) > 1 and e.args[0].k == "num" and e.args[0].v in ("0", "1")):
                return [False] * n          # of a function, or of a level that always exists
            c = STDNIL.get(d, self.docnil.get(d, 0)) if d else 0
            if d == "select" or d in ("pcall", "xpcall", "coroutine.resume") or d is None:
                return [False] * n
            return [i < c for i in range(n)]
        if e.k == "method":
            fs = [f for c, f in self.sc.methods.get(e.m, ()) if f is not None and f.k == "func"]
            if fs and len(fs) == len(self.sc.methods.get(e.m, ())) and e.m not in METHNIL:
                return [any(self.ret(f, i) for f in fs) for i in range(n)]
            if e.m == "read" and e.args and e.args[0].k == "str" and e.args[0].v in ("*a", "a"):
                return [False] * n
            if e.m in ("match", "find") and e.args and always(e.args[0]):
                return [False] * n
            c = METHNIL.get(e.m, self.docnil.get(":" + e.m, 0))
            return [i < c for i in range(n)]
        return [None] + [True] * (n - 1)

    def ret(self, f, i):
        r = self.rets.get(f)
        if r is None or f in self.sure:
            return False
        return r[i] if i < len(r) else False

    def maybe(self, e, st):
        k = e.k
        if k in ("nil", "false"):
            return True
        if k == "paren":
            return self.maybe(e.e, st)
        if k in ("name", "index"):
            p = self.path(e)
            if p is None and k == "index" and e.i.k == "name":
                return self.maybe(e.i, st)
            return p is not None and miss(st.get(p))
        if k in ("call", "method"):
            return st.get(self.path(e)) != "ok" and self.multi(e, 1)[0]
        if k == "bin" and e.op == "and":
            t = self.refine(e.a, True, dict(st))
            return self.maybe(e.a, st) or (t is not None and self.maybe(e.b, t))
        if k == "bin" and e.op == "or":
            t = self.refine(e.a, False, dict(st))
            return t is not None and self.maybe(e.b, t)
        return False

    # --- conditions ------------------------------------------------------
    def clear(self, st, p):
        g = st.pop(p, None)
        if miss(g):
            for q in [q for q, h in st.items() if h == g]:
                del st[q]

    def mark(self, st, p):
        """The value is present: only remembered for variables no other function changes."""
        if len(p) == 1 and not self.assigned_elsewhere(p[0]):
            st[p] = "ok"

    def known_nil(self, e, st):
        p = self.path(e)
        return p is not None and st.get(p) == "nil"

    def refine(self, c, val, st):
        if c.k == "name" and c.var is not None:
            e = st.get(("=", c.var))
            if e is not None:
                # a variable that holds the outcome of a condition: what that proves to be present
                t = self.refine(e, val, dict(st))
                if t is None:
                    return None
                for p in list(st):
                    if p[0] != "=" and t.get(p) != st[p] and not miss(t.get(p)):
                        if p in t:
                            st[p] = t[p]
                        else:
                            del st[p]
                for p, g in t.items():
                    if g == "ok":
                        st[p] = g
        return self.refined(c, val, st)

    def refined(self, c, val, st):
        k = c.k
        if k == "paren":
            return self.refine(c.e, val, st)
        if k == "true":
            return st if val else None
        if k in ("false", "nil"):
            return None if val else st
        if k in ("str", "num", "table", "func"):
            return st if val else None
        if k in ("name", "index", "call"):
            p = self.path(c)
            if p is None:
                return st
            if k == "call":
                if val:
                    st[p] = "ok"
                return st
            if val:
                if st.get(p) == "nil":
                    return None
                self.clear(st, p)
                self.mark(st, p)
                if k == "index" and len(p) == 2:
                    self.clear(st, p[:1])
                    self.mark(st, p[:1])
            else:
                if st.get(p) == "ok":
                    return None
                self.gid += 1
                if not miss(st.get(p)) and k == "name":
                    st[p] = self.gid
            return st
        if k == "un" and c.op == "not":
            return self.refine(c.a, not val, st)
        if k == "bin" and c.op in ("and", "or"):
            if (c.op == "and") == val:
                st = self.refine(c.a, val, st)
                return None if st is None else self.refine(c.b, val, st)
            x = self.refine(c.a, val, dict(st))
            y = self.refine(c.a, not val, dict(st))
            y = None if y is None else self.refine(c.b, val, y)
            return self.join(x, y)
        if k == "bin" and c.op in ("==", "~="):
            eq = (c.op == "==") == val
            for a, b in ((c.a, c.b), (c.b, c.a)):
                if b.k == "nil":
                    return self.refine(a, not eq, st) if not eq or a.k in ("name",) else st
                if b.k in ("str", "num", "true", "table") and eq:
                    p = self.path(a)
                    if p:
                        self.clear(st, p)
                        self.mark(st, p)
                    if a.k == "call" and a.f.k == "name" and a.f.v == "type" and a.args and b.v != "nil":
                        p = self.path(a.args[0])
                        if p:
                            self.clear(st, p)
                if b.k == "str" and b.v == "nil" and not eq and a.k == "call" and a.f.k == "name" and a.f.v == "type" and a.args:
                    p = self.path(a.args[0])
                    if p:
                        self.clear(st, p)
            return st
        return st

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for p in a.keys() | b.keys():
            g, h = a.get(p), b.get(p)
            if g == h:
                out[p] = g
            elif p[0] == "=":
                continue
            elif miss(g) and miss(h):
                out[p] = ("j", p[0].name, p[1:])
            elif miss(g) or miss(h):
                g = g if miss(g) else h
                out[p] = ("n", p[0].name, p[1:]) if g == "nil" else g
            elif g is not None and h is not None:
                out[p] = h if g == "ok" else g
        return out

    # --- uses ------------------------------------------------------------
    def need(self, e, st, what):
        if e is None:
            return
        self.uses += 1
        if e.k in ("call", "method"):
            m = st.get(self.path(e)) != "ok" and self.multi(e, 1)[0]
        else:
            m = self.maybe(e, st)
        if m and self.report:
            key = (self.chunk.path, self.fn, self.show(e), what)
            self.findings.setdefault(key, e.l)
        p = self.path(e)
        if p:
            g = st.get(p)
            if isinstance(g, tuple) and g[0] == "P":
                self.reqs.add(g[1])
            self.clear(st, p)
            self.mark(st, p)

    def passed(self, e, st):
        """What the called function requires of its arguments."""
        if e.k == "call":
            fs, off, d = self.funcs(e.f), 0, self.sc.dot(e.f)
            nat = self.native.get(d, ()) if not fs else ()
            if nat and d in ARGS:
                nat = ()
        else:
            fs = [f for c, f in self.sc.methods.get(e.m, ()) if f is not None and f.k == "func"]
            if len(fs) != len(self.sc.methods.get(e.m, ())):
                fs = []
            off = 1
            nat = self.native.get(":" + e.m, ()) if not fs and e.m not in METHARGS else ()
            d = ":" + e.m
        if fs:
            nat = set.intersection(*[{i - (off if self.selfish(f) else 0) for i in self.req.get(f, ())} for f in fs])
        for i in sorted(nat):
            if 0 <= i < len(e.args) and e.args[i].k != "vararg":
                self.need(e.args[i], st, "passed to %s" % (d or self.show(e.f)))

    def selfish(self, f):
        return bool(f.params) and f.params[0].name == "self"

    def expr(self, e, st):
        """Evaluates e for its uses; st is updated with what evaluation proves."""
        k = e.k
        if k == "index":
            self.expr(e.o, st)
            self.need(e.o, st, "indexed")
            self.expr(e.i, st)
        elif k == "call":
            self.expr(e.f, st)
            if e.f.k != "index" or self.path(e.f):
                self.need(e.f, st, "called")
            for a in e.args:
                self.expr(a, st)
            d = self.sc.dot(e.f)
            if e.f.k == "index" and e.f.i.k == "str" and e.f.i.v in FILE and e.f.o.k == "name" and e.f.o.var in self.files:
                self.uses += 1
                if not (e.args and e.args[0].k == "name" and e.args[0].var is e.f.o.var) and self.report:
                    self.findings.setdefault((self.chunk.path, self.fn, self.show(e.f.o), "not passed to its own %s" % e.f.i.v), e.l)
            for i in ARGS.get(d, ()):
                if i < len(e.args):
                    self.need(e.args[i], st, "passed to %s" % d)
            self.passed(e, st)
            if d == "assert" and e.args:
                t = self.refine(e.args[0], True, st)
        elif k == "method":
            self.expr(e.o, st)
            self.need(e.o, st, "indexed")
            for a in e.args:
                self.expr(a, st)
            for i in METHARGS.get(e.m, ()):
                if i < len(e.args):
                    self.need(e.args[i], st, "passed to :%s" % e.m)
            self.passed(e, st)
        elif k == "bin" and e.op in ("and", "or"):
            self.expr(e.a, st)
            t = self.refine(e.a, e.op == "and", dict(st))
            if t is not None:
                self.expr(e.b, t)
                u = self.refine(e.a, e.op != "and", dict(st))
                j = self.join(t, u)
                if j is not None:
                    st.clear()
                    st.update(j)
        elif k == "bin":
            self.expr(e.a, st)
            self.expr(e.b, st)
            if e.op in ARITH:
                w = "concatenated" if e.op == ".." else "used in arithmetic" if e.op in "+-*/%^" else "compared by order"
                self.need(e.a, st, w)
                self.need(e.b, st, w)
        elif k == "un":
            self.expr(e.a, st)
            if e.op in ("-", "#"):
                self.need(e.a, st, "used in arithmetic" if e.op == "-" else "measured")
        elif k == "func":
            self.pending.append(e)
        else:
            for c in kids(e):
                self.expr(c, st)

    def solid(self, e, st):
        """The value is certainly there."""
        k = e.k
        if k == "paren":
            return self.solid(e.e, st)
        if k == "name":
            p = self.path(e)
            return p is not None and st.get(p) == "ok"
        if k == "bin":
            return e.op in "+-*/%^" or e.op == ".." or e.op == "or" and self.solid(e.b, st)
        if k == "call":
            return self.sc.dot(e.f) in ("table.pack", "tostring", "string.format", "string.sub", "string.lower", "string.rep", "string.gsub", "type", "os.time", "os.clock")
        return k in ("str", "num", "table", "func") or k == "un" and e.op in "-#"

    # --- statements ------------------------------------------------------
    def means(self, v, e, st):
        while e.k == "paren":
            e = e.e
        if e.k in ("name", "index") or e.k == "call" and self.path(e) or e.k == "un" and e.op == "not" or e.k == "bin" and e.op in ("and", "or", "==", "~="):
            if not any(n.k == "func" or n.k == "name" and n.var == v for n in walk(e)):
                st[("=", v)] = e

    def kill(self, st, p):
        if len(p) == 1:
            for q in [q for q, e in st.items() if q[0] == "=" and (q[1] == p[0] or any(n.k == "name" and n.var == p[0] for n in walk(e)))]:
                del st[q]
        for q in [q for q in st if q[:len(p)] == p]:
            del st[q]

    def values(self, n, exps, st):
        """[(maybe nil, group)] for n targets."""
        out = []
        for i in range(n):
            if i < len(exps) - 1 or i == len(exps) - 1 and i == n - 1 and exps[i].k not in ("call", "method"):
                e = exps[i]
                self.gid += 1
                g = "nil" if e.k == "nil" else self.gid
                p = self.path(e)
                if p and miss(st.get(p)):
                    g = st[p]
                out.append((self.maybe(e, st), g))
            elif i == len(exps) - 1:
                e = exps[i]
                m = self.multi(e, n - i) if e.k in ("call", "method") else [self.maybe(e, st)] + [e.k != "vararg"] * (n - i - 1)
                if st.get(self.path(e)) == "ok":
                    m = [False] + list(m[1:])
                self.gid += 1
                if any(m):
                    self.sources += 1
                out += [(x, self.gid) for x in m]
                return out
            else:
                out.append((True, "nil"))
        return out

    def block(self, body, st):
        for s in body:
            if st is None:
                if s.k != "label":
                    # unreachable, except through a label
                    if s.k in ("localfunc", "function"):
                        self.pending.append(s.f)
                    continue
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        k = s.k
        if k == "local":
            for e in s.exps:
                self.expr(e, st)
            vals = self.values(len(s.vars), s.exps, st)
            for v, (m, g) in zip(s.vars, vals):
                self.kill(st, (v,))
                if m and not (not s.exps and self.assigned_elsewhere(v)):
                    st[(v,)] = g
            for v, e in zip(s.vars, s.exps):
                if e.k == "call" and self.sc.dot(e.f) in OPEN:
                    self.files.add(v)
                if self.solid(e, st):
                    self.mark(st, (v,))
                self.means(v, e, st)
            return st
        if k == "assign":
            for e in s.exps:
                self.expr(e, st)
            for t in s.targets:
                if t.k == "index":
                    self.expr(t.o, st)
                    self.need(t.o, st, "indexed")
                    self.expr(t.i, st)
                    self.need(t.i, st, "stored under")
            vals = self.values(len(s.targets), s.exps, st)
            for t, (m, g) in zip(s.targets, vals):
                p = self.path(t)
                if p:
                    self.kill(st, p)
                    if m and not (t.k == "index" and self.exp_nil(s, t)):
                        st[p] = g
            for t, e in zip(s.targets, s.exps):
                if e.k == "call" and self.sc.dot(e.f) in OPEN and t.k == "name":
                    self.files.add(t.var)
                if t.k == "name" and t.var is not None and self.solid(e, st):
                    self.mark(st, (t.var,))
                if t.k == "name" and t.var is not None:
                    self.means(t.var, e, st)
            return st
        if k == "callst":
            self.expr(s.e, st)
            if s.e.k == "call" and self.sc.dot(s.e.f) in ("error", "os.exit"):
                return None
            return st
        if k == "do":
            return self.block(s.body, st)
        if k == "if":
            out = None
            for c, b in s.arms:
                if st is None:
                    break
                self.expr(c, st)
                t = self.refine(c, True, dict(st))
                st = self.refine(c, False, st)
                if t is not None:
                    out = self.join(out, self.block(b, t))
            if s.orelse is not None and st is not None:
                st = self.block(s.orelse, st)
            return self.join(out, st)
        if k in ("while", "repeat", "fornum", "forin"):
            return self.loop(s, st)
        if k == "function":
            self.pending.append(s.f)
            if s.target.k == "index":
                self.expr(s.target.o, st)
            else:
                p = self.path(s.target)
                if p:
                    self.kill(st, p)
            return st
        if k == "localfunc":
            self.pending.append(s.f)
            self.kill(st, (s.var,))
            return st
        if k == "return":
            for e in s.exps:
                self.expr(e, st)
            self.ret_seen(s, st)
            return None
        if k == "break":
            self.breaks[-1] = self.join(self.breaks[-1], dict(st))
            return None
        if k == "goto":
            self.gotos[s.v] = self.join(self.gotos.get(s.v), dict(st))
            return None
        if k == "label":
            return self.join(st, self.gotos.get(s.v))
        return st

    def exp_nil(self, s, t):
        """Fields are set to nil to remove them: only results of calls are followed."""
        i = s.targets.index(t)
        return i < len(s.exps) and s.exps[i].k == "nil"

    def assigned_elsewhere(self, v):
        return any(getattr(n, "func", None) is not v.func for n in v.writes)

    def loop(self, s, st):
        k = s.k
        if k == "fornum":
            for e in (s.a, s.b, s.c):
                if e is not None:
                    self.expr(e, st)
                    self.need(e, st, "used as a loop bound")
        if k == "forin":
            for e in s.exps:
                self.expr(e, st)
            self.need(s.exps[0], st, "iterated")
        vs = [s.var] if k == "fornum" else s.vars if k == "forin" else []
        for rnd in range(4):
            self.breaks.append(None)
            top = dict(st)
            if k == "while":
                self.expr(s.c, top)
                exit_ = self.refine(s.c, False, dict(top))
                top = self.refine(s.c, True, top)
            else:
                exit_ = dict(top) if k != "repeat" else None
            for v in vs:
                if top is not None:
                    self.kill(top, (v,))
            end = self.block(s.body, top) if top is not None else None
            if k == "repeat" and end is not None:
                self.expr(s.c, end)
                exit_ = self.refine(s.c, True, dict(end))
                end = self.refine(s.c, False, end)
            br = self.breaks.pop()
            new = self.join(dict(st), end)
            if new is None or {p: g == "ok" for p, g in new.items()} == {p: g == "ok" for p, g in st.items()}:
                break
            st = new
        return self.join(exit_, br)

    def ret_seen(self, s, st):
        r = []
        n = len(s.exps)
        for i in range(max(n, 4)):
            if i < n - 1 or i == n - 1 and s.exps[i].k not in ("call", "method", "vararg"):
                r.append(self.maybe(s.exps[i], st))
            elif n and i >= n - 1 and s.exps[n - 1].k in ("call", "method"):
                m = self.multi(s.exps[n - 1], 4)
                r.append(m[i - n + 1] if i - n + 1 < 4 else False)
            elif n and s.exps[n - 1].k == "vararg":
                r.append(False)
            else:
                r.append(True)
        self.returns.append((n, r))

    def function(self, c, f, report):
        self.report, self.chunk, self.fn = report, c, None
        g = f
        while g is not None and not g.name:
            g = g.parent
        self.fn = g.name if g is not None else "main chunk"
        self.breaks, self.gotos, self.returns, self.pending = [], {}, [], []
        self.reqs, self.files = set(), set()
        entry = {(v,): ("P", i) for i, v in enumerate(f.params) if not self.assigned_elsewhere(v)}
        st = self.block(f.body, dict(entry))
        if self.gotos:
            self.returns, self.pending = [], []
            st = self.block(f.body, dict(entry))
        if st is not None:
            self.returns.append((0, [True] * 4))
        vals = [n for n, r in self.returns]
        out = []
        if any(vals):
            for i in range(4):
                if i < max(vals):
                    out.append(any(r[i] for n, r in self.returns))
        return out

    def run(self):
        fs = []
        for c in self.sc.chunks:
            for f in c.allfuncs:
                fs.append((c, f))
            if c.main not in [x for _, x in fs]:
                fs.append((c, c.main))
        for rnd in range(6):
            new, req = {}, {}
            for c, f in fs:
                new[f] = self.function(c, f, False)
                req[f] = self.reqs
            if new == self.rets and req == self.req:
                break
            self.rets, self.req = new, req
        self.findings, self.uses, self.sources = {}, 0, 0
        for c, f in fs:
            self.function(c, f, True)
        return len(fs)
