"""Nothing reads a local variable before it has a value.

cl = frozenset of (variable, why): variables that hold no value yet on this path.  why is None or the call that failed to provide one.
"""
import re
from engine import Client, Interp, C, INF

# Win32 and C calls that leave their output alone when they return zero: name -> output argument positions
OUTS = {
    "GetConsoleMode": (1,), "GetConsoleScreenBufferInfo": (1,), "GetConsoleScreenBufferInfoEx": (1,), "GetConsoleCursorInfo": (1,), "GetExitCodeProcess": (1,), "GetExitCodeThread": (1,),
    "ReadConsoleOutputCharacterW": (4,), "ReadConsoleOutputAttribute": (4,), "FillConsoleOutputCharacterW": (4,), "FillConsoleOutputAttribute": (4,), "WriteConsoleOutputAttribute": (4,),
    "GetNumberOfConsoleInputEvents": (1,), "PeekConsoleInputW": (3,), "ReadConsoleInputW": (3,), "CreatePipe": (0, 1), "DuplicateHandle": (3,), "GetFileInformationByHandle": (1,),
    "GetFileSizeEx": (1,), "VirtualProtect": (3,), "VirtualProtectEx": (4,), "VirtualQuery": (1,), "VirtualQueryEx": (2,), "GetFileTime": (1, 2, 3), "FileTimeToSystemTime": (1,), "SystemTimeToFileTime": (1,),
    "FileTimeToLocalFileTime": (1,), "GetSystemPowerStatus": (0,), "GetThreadContext": (1,), "OpenProcessToken": (2,), "GetTokenInformation": (4,), "GetDiskFreeSpaceExW": (1, 2, 3),
    "GetFileAttributesExW": (2,), "Process32First": (1,), "Process32FirstW": (1,), "Module32First": (1,), "Module32FirstW": (1,), "Thread32First": (1,), "GetCursorPos": (0,),
    "WinHttpQueryDataAvailable": (1,), "WinHttpReadData": (3,), "CreateProcessW": (9,), "CreateProcessA": (9,), "QueryPerformanceCounter": (), "CryptAcquireContextW": (0,), "AllocateAndInitializeSid": (10,),
    "IsWow64Process": (1,), "CheckTokenMembership": (2,), "ReadProcessMemory": (2, 4), "ReadFile": (3,), "GetVersionExW": (), "GetConsoleSelectionInfo": (0,), "GetCurrentConsoleFontEx": (2,), "GetCurrentConsoleFont": (2,),
}


def scalar(t):
    return t["k"] in ("int", "ptr", "enum", "bool", "float")


def outs(call):
    if call.get("n") in ("sscanf", "swscanf"):
        return tuple(range(2, len(call.get("c", ()))))
    return OUTS.get(call.get("n"))


class Scan:
    """How each reference to a local is used."""

    def __init__(self, f, summ):
        self.f, self.summ = f, summ
        self.conds = {b["tc"] for b in f.blocks.values() if b.get("tc", -1) >= 0}
        self.conds.update(e["e"] for b in f.blocks.values() for e in b.get("e", ()) if isinstance(e, dict) and e.get("e", -1) >= 0)
        self.parent = {}
        for i, n in enumerate(f.nodes):
            if n:
                for c in n.get("c", ()):
                    self.parent.setdefault(c, i)
                if n.get("o", -1) >= 0:
                    self.parent.setdefault(n["o"], i)
                for d in n.get("ds", ()):
                    self.parent.setdefault(d["i"], i)
        self.index = {id(n): i for i, n in enumerate(f.nodes) if n}
        self.memo = {}

    def kind(self, n):
        i = self.index[id(n)]
        if i not in self.memo:
            self.memo[i] = self.kind_(n, i)
        return self.memo[i]

    def kind_(self, n, i):
        """'read', 'write' (assigned later, by the parent), 'escape' (something else may assign it), 'out' (handled at the call)"""
        f = self.f
        p = self.parent.get(i)
        x = f.nodes[p] if p is not None else None
        hop = 0
        while x is not None and x["k"] in ("Paren", "Cast", "ImplicitCast", "Member", "Index") and hop < 10:
            if x["k"] == "Index" and x["c"][0] != i:
                return "read"
            if x["k"] == "Member" and x.get("arrow"):
                return "read"
            if x["k"] == "Index" and f.ntype(f.nodes[i])["k"] == "ptr":
                return "read"
            i, p = p, self.parent.get(p)
            x = f.nodes[p] if p is not None else None
            hop += 1
        if x is None:
            return "read" if i in self.conds else "none"
        k = x["k"]
        first = bool(x.get("c")) and x["c"][0] == i
        if k == "Asg" and first:
            return "write" if x["op"] == "=" else "read"
        if k == "Un":
            if x["op"] == "&":
                g = self.parent.get(p)
                y = f.nodes[g] if g is not None else None
                while y is not None and y["k"] in ("Cast", "ImplicitCast", "Paren"):
                    p, g = g, self.parent.get(g)
                    y = f.nodes[g] if g is not None else None
                if y is not None and y["k"] == "Call":
                    return "out" if self.argpos(y, p) in self.outs(y) else "escape"
                return "escape"
            return "read"
        if k in ("Call", "Construct"):
            a = self.argpos(x, i)
            if a is None:               # the object of a member call
                return "write" if x.get("opc") and x["n"].endswith("operator=") else "escape"
            if a in self.outs(x):
                return "out"
            return "escape" if x["c"].index(i) in x.get("rb", ()) else "read"
        if k in ("Lambda", "InitList"):
            return "read" if k == "InitList" else "escape"
        if k == "DeclStmt":
            return "decl"
        return "read"

    def top(self, n):
        """The outermost field of a local record that this reference selects."""
        i = self.index[id(n)]
        x = self.f.nodes[self.parent[i]] if i in self.parent else None
        while x is not None and x["k"] in ("Paren", "Cast", "ImplicitCast"):
            i = self.parent[i]
            x = self.f.nodes[self.parent[i]] if i in self.parent else None
        return x if x is not None and x["k"] == "Member" and not x.get("arrow") else None

    def outs(self, call):
        o = outs(call)
        return o if o is not None else self.summ(self.f, call)

    def argpos(self, call, i):
        for a, x in enumerate(self.f.args(call)):
            if x is not None and self.index.get(id(x)) == i:
                return a
        return None


class Uninit(Client):
    max_depth = 0
    budget = 400000
    max_states = 40

    def __init__(self, prog, report, summaries=None):
        self.prog, self.report = prog, report
        self.summaries = summaries if summaries is not None else Summaries(prog)
        self.vars, self.fails, self.inner = 0, 0, 0

    def initial(self, it, f):
        self.scan = Scan(f, self.summaries.outs)
        return frozenset()

    def gc(self, it, st):
        return False

    def pre(self, fr, st, n):
        f, k = fr.f, n["k"]
        if k == "DeclStmt":
            for d in n["ds"]:
                if f.vars[d["v"]].get("st") or f.vars[d["v"]].get("ext"):
                    continue
                t = f.vtype(d["v"])
                if "va_list" in t["s"]:
                    continue
                st.cl = frozenset(x for x in st.cl if x[0] != d["v"])
                if d["i"] < 0 and scalar(t):
                    self.vars += 1
                    st.cl = st.cl | {(d["v"], None)}
                elif t["k"] == "rec" and (d["i"] < 0 or f.nodes[d["i"]]["k"] == "Construct" and not f.nodes[d["i"]].get("c")) and not self.summaries.hasctor(t):
                    st.cl = st.cl | {(d["v"], ("rec", frozenset()))}
            return
        if k == "Asg" or k == "Call" and n.get("opc") and n.get("n", "").endswith("operator=") and n.get("o", -1) >= 0:
            l = f.kid(n, 0) if k == "Asg" else f.nodes[n["o"]]
            b = self.base(f, l)
            if b is not None and n.get("op", "=") == "=":
                m = self.field(f, l)
                old = [x for x in st.cl if x[0] == b]
                st.cl = frozenset(x for x in st.cl if x[0] != b)
                if m and old and isinstance(old[0][1], tuple):
                    st.cl = st.cl | {(b, ("rec", old[0][1][1] | {m}))}
            return
        if k == "Ref" and n.get("dk") == "v" and st.cl:
            for x in st.cl:
                if x[0] == n["d"]:
                    u = self.scan.kind(n)
                    if u == "escape":
                        st.cl = st.cl - {x}
                    elif u in ("read", "decl"):
                        if u == "decl" and self.refinit(f, n):
                            st.cl = st.cl - {x}
                        elif not isinstance(x[1], tuple):
                            self.report(f, n, f.vars[n["d"]]["n"], x[1])
                            st.cl = st.cl - {x}
                        else:
                            m = self.scan.top(n)
                            if m is None:
                                st.cl = st.cl - {x}
                            elif m["m"] not in x[1][1]:
                                if self.summaries.plain(f, f.vtype(n["d"]), m):
                                    self.report(f, n, f.vars[n["d"]]["n"] + "." + m["m"], None)
                                st.cl = st.cl - {x} | {(n["d"], ("rec", x[1][1] | {m["m"]}))}
                    break

    def refinit(self, f, n):
        i = self.scan.index[id(n)]
        for x in f.nodes:
            if x and x["k"] == "DeclStmt":
                for d in x["ds"]:
                    if d["i"] == i and f.vtype(d["v"])["k"] == "ref":
                        return True
        return False

    def field(self, f, l):
        """The field of a plain record that an assignment gives a value."""
        m, l = None, f.strip(l)
        while l is not None and (l["k"] == "Member" and not l.get("arrow") or l["k"] == "Index"):
            m = l["m"] if l["k"] == "Member" else m
            l = f.strip(f.kid(l, 0))
        return m

    def base(self, f, l):
        l = f.strip(l)
        while l is not None and (l["k"] == "Member" and not l.get("arrow") or l["k"] == "Index"):
            l = f.strip(f.kid(l, 0))
        return l["d"] if l is not None and l["k"] == "Ref" and l.get("dk") == "v" else None

    def call(self, fr, st, n, args):
        if fr.depth:
            return None
        f, it = fr.f, fr.it
        o = outs(n)
        kind = {i: "true" for i in o} if o is not None else self.summaries.outs(f, n)
        if not kind:
            return None
        a = f.args(n)
        must, vs = set(), set()
        for i, k in kind.items():
            x = f.strip(a[i]) if i < len(a) and a[i] is not None else None
            while x is not None and x["k"] in ("Cast", "Paren"):
                x = f.strip(f.kid(x, 0))
            if x is not None and x["k"] == "Un" and x["op"] == "&":
                x = f.strip(f.kid(x, 0))
            m = None
            if x is not None and x["k"] == "Member" and not x.get("arrow"):
                m, x = x["m"], f.strip(f.kid(x, 0))
            if x is not None and x["k"] == "Ref" and x.get("dk") == "v":
                for y in st.cl:
                    if y[0] == x["d"] and (m is None or isinstance(y[1], tuple)):
                        (must if k == "must" else vs).add((x["d"], m))
        vs -= must
        if not vs and not must:
            return None
        self.fails += 1
        self.inner += o is None
        def fill(cl, ws, why=None):
            """What holds no value once the call has set ws, or failed to, for the reason why."""
            for v, m in ws:
                old = [x for x in cl if x[0] == v]
                cl = frozenset(x for x in cl if x[0] != v)
                if m is None:
                    cl |= {(v, why)} if why else set()
                elif old and isinstance(old[0][1], tuple):
                    cl |= {(v, ("rec", old[0][1][1] | {m} if not why else old[0][1][1]))}
            return cl
        if not vs:
            st.cl = fill(st.cl, must)
            return None
        it.havoc(fr, st, n, args)
        t = it.fresh(fr, st, n)
        bad = st.copy()
        bad.cl = fill(fill(bad.cl, must), vs, short(n))
        st.cl = fill(st.cl, vs | must)
        st.cons[t] = (-INF, INF, frozenset((0,)))
        return [(st, t), (bad, C(0))]


def short(n):
    return re.sub(r"<.*?>(?=::|$)", "", n.get("n") or "a call")


class Params(Uninit):
    """Runs one function with the targets of its output parameters unset, and sees on which returns they still are."""
    max_states = 32
    budget = 20000

    def __init__(self, prog, summaries, params):
        super().__init__(prog, lambda *a: None, summaries)
        self.params = params            # variable -> position
        self.result = {}

    def initial(self, it, f):
        super().initial(it, f)
        self.f = f
        return frozenset((v, "param") for v in self.params)

    def pre(self, fr, st, n):
        f = fr.f
        if fr.depth == 0:
            if n["k"] == "Asg" and n["op"] == "=":
                l = f.strip(f.kid(n, 0))
                v = self.through(f, l)
                if v is not None:
                    st.cl = frozenset(x for x in st.cl if x[0] != v)
                    return
            if n["k"] == "Ref" and n.get("dk") == "v" and n["d"] in self.params and (n["d"], "param") in st.cl:
                u = self.use(f, n)
                if u == "set":
                    st.cl = st.cl - {(n["d"], "param")}
                elif u == "read":
                    self.result[self.params[n["d"]]] = "in"
                return
        super().pre(fr, st, n)

    def through(self, f, l):
        """The parameter whose target this assignment fills."""
        while l is not None and l["k"] in ("Paren", "Cast"):
            l = f.strip(f.kid(l, 0))
        if l is None:
            return None
        if l["k"] == "Ref" and l.get("dk") == "v" and l["d"] in self.params and f.vtype(l["d"])["k"] == "ref":
            return l["d"]
        if l["k"] == "Un" and l["op"] == "*":
            x = f.strip(f.kid(l, 0))
            if x is not None and x["k"] == "Ref" and x.get("dk") == "v" and x["d"] in self.params:
                return x["d"]
        return None

    def use(self, f, n):
        ptr = f.vtype(n["d"])["k"] == "ptr"
        i = self.scan.index[id(n)]
        p = self.scan.parent.get(i)
        x = f.nodes[p] if p is not None else None
        while x is not None and x["k"] in ("Paren", "Cast", "ImplicitCast"):
            i, p = p, self.scan.parent.get(p)
            x = f.nodes[p] if p is not None else None
        if x is None:
            return "none"
        if ptr:
            if x["k"] == "Un" and x["op"] == "*":
                g = self.scan.parent.get(p)
                y = f.nodes[g] if g is not None else None
                if y is not None and y["k"] == "Asg" and y["op"] == "=" and y["c"][0] == p:
                    return "none"
                return "read"
            if x["k"] in ("Un", "Bin"):
                return "none"           # a null test
            return "set"
        k = self.scan.kind(n)
        return {"write": "none", "out": "none", "read": "read"}.get(k, "set")

    def ret(self, fr, st, n, term):
        it = fr.it
        t = it.truth(st, term) if term is not None else None
        for v, i in self.params.items():
            r = self.result.get(i)
            unset = (v, "param") in st.cl or any(x[0] == v for x in st.cl)
            if r == "in" or not unset:
                self.result.setdefault(i, "must")
                continue
            if fr.f.vtype(v)["k"] == "ptr":
                q = it.read(st, it.var_loc(fr, v))
                if q is not None and it.truth(st, q) is False:
                    continue            # no output was asked for
            if t is False and r in (None, "must", "true"):
                self.result[i] = "true"
            else:
                self.result[i] = "may"

    def exit(self, fr, st, term):
        if term is None:
            self.ret(fr, st, None, None)


class Summaries:
    """Which output parameters a function always fills ("must"), or fills whenever it returns something true ("true")."""

    def __init__(self, prog):
        self.prog, self.memo, self.busy = prog, {}, set()
        self.ctors = {f.cls for f in prog.funcs.values() if f.d.get("ctor")}

    def hasctor(self, t):
        return t.get("r") in self.ctors or t.get("s", "") in self.ctors

    def plain(self, f, t, m):
        r = self.prog.records.get(t.get("r") or t.get("s"))
        if r is None:                   # a Win32 structure
            return "::" not in t.get("c", "::") and scalar(f.ntype(m))
        x = r.fields.get(m["m"])
        return x is not None and not x.get("i") and scalar(r.ftype(m["m"]))

    def outs(self, f, call):
        ts = self.prog.targets(call)
        if not ts or call.get("virt") and len(ts) < 1:
            return {}
        out = None
        for t in ts:
            s = self.of(t)
            out = dict(s) if out is None else {i: k if k == s[i] else "true" for i, k in out.items() if i in s}
        return out

    def of(self, g):
        if g.usr in self.memo:
            return self.memo[g.usr]
        if g.usr in self.busy or not g.blocks or g.has("lambda"):
            return {}
        ps = {}
        for i, v in enumerate(g.d["params"]):
            t = g.vtype(v)
            if t["k"] not in ("ref", "ptr"):
                continue
            e = g.type(t["e"]) if t.get("e", -1) >= 0 else None
            if e is None or e.get("q") or not scalar(e):
                continue
            if t["k"] == "ptr" and not any(n and n["k"] == "Un" and n["op"] == "*" and (x := g.strip(g.kid(n, 0))) is not None and x["k"] == "Ref" and x.get("dk") == "v" and x["d"] == v for n in g.nodes):
                continue
            ps[v] = i
        if not ps:
            self.memo[g.usr] = {}
            return {}
        self.busy.add(g.usr)
        c = Params(self.prog, self, ps)
        ok = Interp(self.prog, c).analyze(g)
        self.busy.discard(g.usr)
        r = {i: k for i, k in c.result.items() if k in ("must", "true")} if ok else {}
        self.memo[g.usr] = r
        return r
