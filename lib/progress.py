"""Loops: does every way around a loop change something the decisions on that way depend on?

A way around a loop (a simple cycle of the control flow graph) that changes nothing its own branch conditions read will
be taken forever once it is taken.  Locations are locals, fields by name, globals and "memory"; calls change what their
summaries say, unknown external calls change everything but unescaped locals.
"""
import re

PUREC = set("""strlen strcmp stricmp _stricmp strncmp strnicmp _strnicmp strchr strrchr strstr strpbrk strspn strcspn wcslen wcscmp wcsicmp _wcsicmp wcsncmp _wcsnicmp wcschr wcsrchr wcsstr wcspbrk memcmp memchr
isspace isalpha isdigit isalnum isupper islower isxdigit ispunct iswspace iswalpha iswdigit iswalnum tolower toupper towlower towupper _tolower _toupper atoi atol abs labs iswprint isprint iscntrl
CharNextA CharPrevA lstrlenW min max assert __assert_fail IsDBCSLeadByte lua_type lua_gettop lua_isnil lua_isstring lua_isnumber lua_isboolean lua_istable lua_isfunction lua_toboolean lua_typename
strcasecmp strncasecmp""".split())
ARGC = set("""strcpy strncpy strcat strncat memcpy memmove memset wcscpy wcsncpy wcscat wmemcpy wmemset sprintf snprintf _snprintf vsnprintf _vsnprintf vsnwprintf _vsnwprintf wsprintfW sscanf
free malloc realloc calloc qsort operator\\ new operator\\ delete CharLowerW CharUpperW va_start va_end __builtin_va_start __builtin_va_end strtol strtoul wcstol wcstoul
MultiByteToWideChar WideCharToMultiByte __stdio_common_vsprintf printf fprintf fputs fputc puts fwrite OutputDebugStringA OutputDebugStringW""".replace("\\ ", "~").split())
ARGC = {x.replace("~", " ") for x in ARGC}
PUREM = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "back", "front", "operator[]", "at", "find", "data", "lower_bound", "upper_bound", "operator*", "operator->", "get", "count", "empty", "size", "length", "c_str", "base",
         "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator-", "operator+", "operator bool", "equal_range"}
ALL = ("all",)
MEM = ("m",)
WORLD = ("w",)


class Loops:
    """Locations: ("v", i) local object, ("f", name) a field of any object, ("t", name) a field of *this (summaries only),
    ("g", name) global, MEM memory behind a writable pointer, WORLD everything outside the program, ALL anything that is
    not an unescaped local."""

    def __init__(self, prog, funcs, impossible=()):
        self.prog, self.impossible = prog, impossible
        self.funcs = funcs
        self.summ = {}      # what a function may change
        self.rsum = {}      # what its result may depend on, besides its arguments
        self._summaries()

    # --- summaries -------------------------------------------------------------
    def _summaries(self):
        for f in self.funcs:
            self.summ[f.usr] = frozenset()
            self.rsum[f.usr] = frozenset()
        for _ in range(12):
            again = False
            for f in self.funcs:
                s, r = self.outside(f)
                if s != self.summ[f.usr] or r != self.rsum[f.usr]:
                    self.summ[f.usr], self.rsum[f.usr] = s, r
                    again = True
            if not again:
                break

    def outside(self, f):
        s, r = set(), set()
        par = {v: j for j, v in enumerate(f.d.get("params", ()))}

        keep = self.put_back(f)

        def out(w):
            if w[0] == "v":
                if w[1] in par and f.vtype(w[1])["k"] == "ref":
                    return ("p", par[w[1]])
                if f.vtype(w[1])["k"] == "ref" or f.vars[w[1]].get("st"):
                    return MEM
                return None
            return MEM if w[0] == "o" else w
        for n in f.nodes:
            if not n:
                continue
            if n["k"] in ("Asg", "Un", "Call", "Construct"):
                for w, deps in self.writes(f, n, True):
                    if w in keep:
                        continue
                    if w == ALL:
                        s.add(ALL)
                        r.add(ALL)
                        continue
                    if w == ALL:
                        return frozenset([ALL]), frozenset([ALL])
                    x = out(w)
                    if x:
                        s.add(x)
            if n["k"] in ("Member", "Ref", "Index", "Un"):
                l = self.loc(f, n, True) if n["k"] != "Un" or n["op"] == "*" else None
                x = out(l) if l else None
                if x and x[0] != "p":
                    r.add(x)
                if "volatile" in f.ntype(n)["s"] or "atomic" in f.ntype(n)["s"]:
                    r.add(WORLD)
            if n["k"] == "Call":
                for w in self.callreads(f, n, True):
                    x = out(w)
                    if x and x[0] != "p":
                        r.add(x)
        return frozenset(s), frozenset(r)

    def put_back(self, f):
        """Fields that a straight function sets back to the value it found."""
        live = [b for b in f.blocks.values() if b.get("e")]
        if len(live) != 1:
            return ()
        saved, last = {}, {}
        for e in live[0]["e"]:
            n = f.n(e) if isinstance(e, int) else None
            if n is None:
                continue
            if n["k"] == "DeclStmt":
                for d in n["ds"]:
                    x = f.strip(f.n(d["i"])) if d["i"] is not None and d["i"] >= 0 else None
                    if x is not None and x["k"] == "Member" and self.loc(f, x, True)[0] == "t" and not last.get(self.loc(f, x, True)):
                        saved[d["v"]] = self.loc(f, x, True)
            for w, deps in self.writes(f, n, True):
                last[w] = False
                if w[0] == "v":
                    saved.pop(w[1], None) if n["k"] != "DeclStmt" else None
            if n["k"] == "Asg" and n["op"] == "=":
                r = f.strip(f.kid(n, 1))
                w = self.loc(f, f.kid(n, 0), True)
                if r is not None and r["k"] == "Ref" and saved.get(r.get("d")) == w:
                    last[w] = True
        return {w for w, ok in last.items() if ok}

    def targets(self, n):
        return self.prog.targets(n) if n.get("n") or n.get("u") else []

    def relate(self, f, n, w, this):
        """A location of a called function's summary, for its caller (None: nothing the caller can see)."""
        if w[0] == "t":
            o = f.obj(n) if n["k"] == "Call" else None
            o = f.strip(o)
            if o is None:
                return None if n["k"] == "Construct" else ("t", w[1]) if this else ("f", w[1])
            if o["k"] == "This":
                return ("t", w[1]) if this else ("f", w[1])
            l = self.loc(f, o, this)
            if l is not None and (l[0] in ("v", "o") and f.ntype(o)["k"] in ("rec", "ref") or l[0] in ("f", "t", "g") and f.ntype(o)["k"] == "rec"):
                return l
            return ("f", w[1])
        if w[0] == "p":
            args = f.args(n)
            j = w[1] + (1 if n.get("opc") and n.get("o", -1) < 0 and self.targets(n)[0].cls else 0)
            return self.target(f, args[j], this) if j < len(args) and args[j] is not None else None
        return w

    def target(self, f, x, this=False):
        x = f.strip(x)
        if x is not None and x["k"] == "Un" and x["op"] == "&":
            x = f.kid(x, 0)
        elif x is not None and f.ntype(x)["k"] == "ptr" and x["k"] not in ("Call", "Construct"):
            return MEM
        return self.loc(f, x, this)

    def callreads(self, f, n, this=False):
        nm = n.get("n", "")
        s = nm.rsplit("::", 1)[-1]
        if nm in PUREC or nm.startswith("std::") or n["k"] == "Construct":
            return set()
        ts = self.targets(n)
        if ts and all(t.usr in self.rsum for t in ts):
            r = set()
            for t in ts:
                for w in self.rsum[t.usr]:
                    x = self.relate(f, n, w, this)
                    if x:
                        r.add(x)
            return r
        if not nm or self.callback(nm, ts):
            return {ALL}
        if "::" in nm and n.get("cm") or nm in ARGC:
            return set()
        return {WORLD}

    def callback(self, nm, ts):
        """External functions that may call back into the program."""
        return bool(ts) or re.match(r"(lua_(p?call|load|resume|gc|getfield|setfield|gettable|settable|concat|error|next|close)|luaL_(error|check|opt|load|do)|rl_|_rl_|readline|history_|add_history|EnumW|EnumR|CallWindowProc|DispatchMessage|SendMessage)", nm) is not None

    # --- locations ------------------------------------------------------------
    def loc(self, f, n, this=False):
        """Location an lvalue expression stands for."""
        n = f.strip(n)
        while n is not None and (n["k"] == "Index" and self.local_array(f, n) or n["k"] == "Member" and self.dot(f, n)):
            n = f.strip(f.kid(n, 0))
        if n is None:
            return MEM
        k = n["k"]
        if k == "Ref":
            if n.get("dk") == "v":
                return ("v", n["d"])
            if n.get("dk") == "g":
                return ("g", n["n"])
            if n.get("dk") == "o":
                return ("o", n["n"])
            return None
        if k == "Member":
            if n.get("dk") == "g":
                return ("g", n["n"])
            if n.get("dk") == "fn":
                return None
            b = f.strip(f.kid(n, 0))
            return ("t", n["m"]) if this and b is not None and b["k"] == "This" else ("f", n["m"])
        if k == "This":
            return None
        if k == "Call" and n.get("n", "").rsplit("::", 1)[-1] in ("operator[]", "back", "front", "at") and f.obj(n) is not None:
            return self.loc(f, f.obj(n), this)
        if k in ("Lit", "Str", "Null"):
            return None
        if k in ("Un", "Index"):
            b = f.ntype(f.strip(f.kid(n, 0))) if f.kid(n, 0) is not None else {}
            e = b.get("s", "")
            if b.get("k") == "ptr" and (e.startswith("const ") and e.count("*") == 1):
                return None         # text that is only read here
        if k in ("Call", "Construct", "Cond", "Bin", "Asg", "Lambda"):
            return None if f.ntype(n)["k"] != "ref" and k != "Call" else MEM
        return MEM

    def local_array(self, f, n):
        b = f.strip(f.kid(n, 0))
        return b is not None and f.ntype(b)["k"] == "arr"

    def dot(self, f, n):
        b = f.strip(f.kid(n, 0))
        return b is not None and b["k"] != "This" and f.ntype(b)["k"] == "rec" and n.get("dk") not in ("g", "fn") and b["k"] in ("Ref", "Member", "Index")

    def reads(self, f, n, out=None, depth=0):
        """Locations an expression's value depends on; WORLD when it depends on the outside world."""
        if out is None:
            out = set()
        n = f.strip(n)
        if n is None or depth > 40:
            return out
        k = n["k"]
        if isinstance(n.get("v"), int):
            return out
        if k in ("Ref", "Member", "Index") or k == "Un" and n["op"] == "*":
            l = self.loc(f, n)
            if l is not None:
                out.add(l)
            if "volatile" in f.ntype(n)["s"] or "atomic" in f.ntype(n)["s"]:
                out.add(WORLD)
        if k == "Call":
            out |= self.callreads(f, n)
            if f.obj(n) is not None:
                x = self.loc(f, f.obj(n))
                if x and x != MEM:
                    out.add(x)
                self.reads(f, f.obj(n), out, depth + 1)
            elif not n.get("n"):
                out.add(ALL)
            for a in f.args(n):
                a = f.strip(a)
                if a is not None and f.ntype(a)["k"] == "ptr" and not f.ntype(a)["s"].startswith("const "):
                    out.add(MEM)
        if k == "Lambda":
            out.add(ALL)
        for c in f.kids(n):
            self.reads(f, c, out, depth + 1)
        return out

    def writes(self, f, n, this=False):
        """[(location, locations the new value depends on)] of one node."""
        k = n["k"]
        out = []
        if k == "Asg":
            l = f.strip(f.kid(n, 0))
            w = self.loc(f, l, this)
            d = self.reads(f, f.kid(n, 1))
            if n["op"] != "=":
                d = d | {w}
            elif l["k"] == "Index":
                d = d | self.reads(f, f.kid(l, 1))
            if w is not None:
                out.append((w, d))
            return out
        if k == "Un" and n["op"] in ("++", "--"):
            w = self.loc(f, f.kid(n, 0), this)
            return [(w, {w})] if w else []
        if k == "DeclStmt":
            for d in n["ds"]:
                if d["i"] is not None and d["i"] >= 0:
                    out.append((("v", d["v"]), self.reads(f, f.n(d["i"]))))
            return out
        if k in ("Call", "Construct"):
            return self.callwrites(f, n, this)
        return out

    def callwrites(self, f, n, this=False):
        nm = n.get("n", "")
        s = nm.rsplit("::", 1)[-1]
        out = []
        args = f.args(n)
        o = f.obj(n) if n["k"] == "Call" else None

        def hit(l):
            if l is not None:
                out.append((l, {l}))
        ts = self.targets(n)

        def everything():
            hit(ALL)
            for a in ([o] if o is not None else []) + args:
                a = f.strip(a)
                if a is not None and a["k"] in ("Ref", "Member", "Un"):
                    l = self.target(f, a, this)
                    if l is not None:
                        out.append((l, {l, ALL}))
            return out
        if not nm and not ts:
            return everything()                         # through a pointer
        if nm in PUREC or n["k"] == "Call" and nm.startswith("std::") and (s in PUREM or n.get("cm")):
            return out
        if s == "operator=" and o is not None and len(args) == 1:
            d = self.reads(f, args[0])
            l = self.loc(f, o, this)
            return [(l, d)] if l else []
        if ts and all(t.usr in self.summ for t in ts):
            for t in ts:
                for w in self.summ[t.usr]:
                    if w == ALL:
                        return everything()
                    hit(self.relate(f, n, w, this))
            return out
        if nm.startswith("std::") or n["k"] == "Construct":
            if o is not None and not n.get("cm"):
                hit(self.target(f, o, this) if f.ntype(f.strip(o))["k"] != "ptr" else self.loc(f, o, this))
            for a in args:
                x = f.strip(a)
                if x is not None and x["k"] == "Un" and x["op"] == "&":
                    hit(self.target(f, x, this))
            if n["k"] == "Call" and o is None:
                for a in args[:1]:
                    hit(self.target(f, a, this))
            return out
        if n.get("cm") and not ts:
            return out
        if self.callback(nm, ts):
            return everything()
        if nm not in ARGC:
            hit(WORLD)
        if o is not None:
            hit(self.loc(f, o, this))
        for a in args:
            x = f.strip(a)
            if x is not None and (f.ntype(x)["k"] in ("ptr", "arr") and not f.ntype(x)["s"].startswith("const ") or x["k"] == "Ref" and f.ntype(x)["k"] == "rec"):
                hit(self.target(f, x, this) if f.ntype(x)["k"] != "arr" else self.loc(f, x, this))
        return out

    # --- escaped locals ---------------------------------------------------------
    def escaped(self, f):
        e = f.cachebag.get("escaped")
        if e is None:
            e = Escaped()
            e.addr = set()
            lam = False
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] == "Un" and n["op"] == "&":
                    x = f.strip(f.kid(n, 0))
                    while x is not None and x["k"] in ("Member", "Index") and f.ntype(f.strip(f.kid(x, 0)))["k"] != "ptr":
                        x = f.strip(f.kid(x, 0))
                    if x is not None and x["k"] == "Ref" and x.get("dk") == "v":
                        e.add(x["d"])
                        e.addr.add(x["d"])
                elif n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        if f.vtype(d["v"])["k"] == "ref":
                            e.add(d["v"])
                            x = f.strip(f.n(d["i"])) if d["i"] is not None and d["i"] >= 0 else None
                            while x is not None and x["k"] in ("Member", "Index") and f.ntype(f.strip(f.kid(x, 0)))["k"] != "ptr":
                                x = f.strip(f.kid(x, 0))
                            if x is not None and x["k"] == "Ref" and x.get("dk") == "v":
                                e.add(x["d"])
                elif n["k"] == "Lambda":
                    lam = True
            for v in range(len(f.vars)):
                if f.vtype(v)["k"] == "ref" or f.vars[v].get("st") or lam and True:
                    e.add(v)
            f.cachebag["escaped"] = e
        return e

    # --- one function ---------------------------------------------------------------
    def analyse(self, f, report, cap=3000):
        """Calls report(f, header, path) for each stuck way around a loop; returns (loops, ways, capped)."""
        stats = [0, 0, 0]
        succ = {b: [s for s in f.blocks[b]["s"] if s is not None and s >= 0 and s in f.blocks] for b in f.blocks}
        work = [set(f.blocks)]
        wr, rd = {}, {}

        def W(b):
            if b not in wr:
                wr[b] = [x for e in f.blocks[b].get("e", ()) if isinstance(e, int) and f.n(e) is not None for x in self.writes(f, f.n(e))]
            return wr[b]

        def R(b):
            if b not in rd:
                t = f.blocks[b].get("tc")
                two = len(set(succ[b])) > 1 or len([s for s in f.blocks[b]["s"]]) > 1
                rd[b] = self.reads(f, self.last(f, f.n(t))) if t is not None and two else set()
            return rd[b]
        esc = self.escaped(f)
        while work:
            part = work.pop()
            for comp in sccs(part, succ):
                if len(comp) == 1:
                    b = next(iter(comp))
                    if b not in succ[b]:
                        continue
                h = self.header(f, comp, succ)
                stats[0] += 1
                self.frozen(f, h, comp, succ, W, R, esc, report)
                # quick answer: what the header reads is stepped on every way
                V = R(h)
                left = set(comp)
                if V and ALL not in V and WORLD not in V:
                    left = {b for b in comp if b == h or not any(self.steps(x, V, esc) for x in W(b))}
                    if any(self.steps(x, V, esc) for x in W(h)):
                        left = set()
                elif ALL in V or WORLD in V:
                    left = set()
                if h in left:
                    left = set().union(*[x for x in sccs(left, succ) if h in x])
                if h in left and (len(left) > 1 or h in succ[h]):
                    self.ways(f, h, left, succ, W, R, esc, cap, stats, report)
                work.append(comp - {h})
        return stats

    def header(self, f, comp, succ):
        pr = f.preds()
        ent = [b for b in comp if b == f.entry or any(p not in comp for p in pr.get(b, ()))]
        return max(ent or comp)

    def frozen(self, f, h, comp, succ, W, R, esc, report):
        """The condition the loop is entered under is never affected by the loop."""
        own = [b for b in comp if f.blocks[b].get("tk") in ("ForStmt", "WhileStmt", "DoStmt") and f.blocks[b].get("tc") is not None and any(s not in comp for s in succ[b])]
        V = set()
        for b in own:
            t = f.strip(f.n(f.blocks[b]["tc"]))
            if t is None or not (t["k"] == "Bin" and t["op"] in ("<", "<=", ">", ">=", "!=", "&&", "||") or f.blocks[b]["tk"] == "ForStmt"):
                return      # a plain flag: the loop may rely on leaving another way
            V |= self.reads(f, t)
        if not V or ALL in V or WORLD in V:
            return
        if not any(self.touch(l, V, esc) for b in comp for l, d in W(b)):
            report(f, h, [h])

    def steps(self, w, V, esc):
        l, deps = w
        if l == ALL:
            return any(x[0] != "v" or x[1] in esc for x in V)
        if not self.touch(l, V, esc):
            return False
        return l in deps or ALL in deps or WORLD in deps

    def touch(self, l, V, esc):
        if l in V or ALL in V:
            return True
        if l == ALL:
            return any(x[0] != "v" or x[1] in esc for x in V)
        if l == MEM:
            return any(x[0] == "v" and x[1] in esc.addr for x in V)
        if l[0] == "v":
            return l[1] in esc.addr and MEM in V
        return False

    def ways(self, f, h, left, succ, W, R, esc, cap, stats, report):
        stack = [(h, [h])]
        n = steps = 0
        while stack:
            b, path = stack.pop()
            steps += 1
            for s in succ[b]:
                if s == h:
                    n += 1
                    if not self.progress(path, W, R, esc) and self.feasible(f, path, succ, esc):
                        report(f, h, path)
                        return
                elif s in left and s not in path:
                    stack.append((s, path + [s]))
            if n + len(stack) + steps // 4 > cap:
                stats[2] += 1
                break
        stats[1] += n

    # --- can the way be taken at all? ---------------------------------------------
    def values(self, f, v):
        """The constants a local is ever set to, or None."""
        out = set()

        def consts(n):
            n = f.strip(n)
            if n is not None and n["k"] == "Cond" and "v" not in n:
                return consts(f.kid(n, 1)) | consts(f.kid(n, 2))
            return {(n or {}).get("v")}
        for n in f.nodes:
            if not n:
                continue
            if n["k"] == "DeclStmt":
                for d in n["ds"]:
                    if d["v"] == v and d["i"] is not None and d["i"] >= 0:
                        out |= consts(f.n(d["i"]))
            elif n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--"):
                x = f.strip(f.kid(n, 0))
                if x is not None and x["k"] == "Ref" and x.get("dk") == "v" and x["d"] == v:
                    out |= consts(f.kid(n, 1)) if n["k"] == "Asg" and n["op"] == "=" else {None}
        return None if None in out or v in f.d.get("params", ()) else out

    def feasible(self, f, path, succ, esc, env0={}, depth=0):
        """Decisions on the way, taken twice in a row, must agree with each other and with constants assigned on it."""
        path = path + path
        env, facts, taken = dict(env0), {}, set()
        for i, b in enumerate(path):
            bl = f.blocks[b]
            for e in bl.get("e", ()):
                n = f.n(e) if isinstance(e, int) else None
                if n is None:
                    continue
                for l, d in self.writes(f, n):
                    for k in [k for k, (t, r) in facts.items() if self.touch(l, r, esc) or l == ALL and self.steps((ALL, {ALL}), r, esc)]:
                        del facts[k]
                    for v in [v for v, (x, r) in env.items() if l == ALL and self.steps((ALL, {ALL}), r, esc) or self.touch(l, r, esc)]:
                        del env[v]
                if n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        if d["i"] is not None and d["i"] >= 0 and d["v"] not in esc:
                            self.bindvar(f, env, facts, d["v"], f.n(d["i"]))
                elif n["k"] == "Asg" and n["op"] == "=":
                    l = f.strip(f.kid(n, 0))
                    if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and l["d"] not in esc:
                        self.bindvar(f, env, facts, l["d"], f.kid(n, 1))
                    elif l is not None and l["k"] == "Member":
                        r = f.strip(f.kid(n, 1))
                        v = r["v"] if r is not None and isinstance(r.get("v"), int) else 0 if r is not None and r["k"] == "Null" else 1 if r is not None and r["k"] == "Str" else None
                        rd = self.reads(f, l)
                        if v is not None and ALL not in rd and WORLD not in rd:
                            env[self.key(f, l, {})] = (v, rd)
            nx = path[i + 1] if i + 1 < len(path) else path[0]
            ss = [s for s in bl["s"]]
            t = bl.get("tc")
            if t is None or len(ss) < 2:
                continue
            if bl.get("tk") == "SwitchStmt":
                n = f.n(t)
                ty = f.ntype(f.strip(n)) if n is not None else {}
                if ty.get("k") == "enum" and "case" not in f.blocks[nx] and not f.blocks[nx].get("default") and not any("default" in f.blocks[s] for s in ss if s is not None and s >= 0):
                    return False
                x = f.strip(n)
                k = self.key(f, x, env)
                lab = [f.strip(f.n(j)).get("v") for j in f.blocks[nx].get("case", ()) if f.strip(f.n(j)) is not None]
                if lab and None not in lab and not f.blocks[nx].get("default"):
                    if isinstance(k, int):
                        if not lab[0] <= k <= lab[-1]:
                            return False
                    elif len(lab) == 1 and x["k"] == "Ref" and x.get("dk") == "v" and x["d"] not in esc and x["d"] not in env:
                        env[x["d"]] = (lab[0], {("v", x["d"])})
                elif not lab and isinstance(k, int):
                    for s2 in ss:
                        l2 = [f.strip(f.n(j)).get("v") for j in f.blocks[s2].get("case", ())] if s2 is not None and s2 >= 0 else []
                        if l2 and None not in l2 and l2[0] <= k <= l2[-1]:
                            return False
                elif not lab and depth == 0 and x["k"] == "Ref" and x.get("dk") == "v" and x["d"] not in esc and x["d"] not in env:
                    vals = self.values(f, x["d"])
                    if vals and all(not self.feasible(f, path[:len(path) // 2], succ, esc, {x["d"]: (v, {("v", x["d"])})}, 1) for v in vals):
                        return False
                continue
            if len(ss) != 2 or ss[0] == ss[1] or nx not in ss:
                continue
            n, sense = self.last(f, f.n(t)), ss.index(nx) == 0
            taken.add((f.text(f.strip(f.n(t))), sense))
            while n is not None and n["k"] == "Un" and n["op"] == "!":
                n, sense = f.strip(f.kid(n, 0)), not sense
            if n is None:
                continue
            k = self.key(f, n, env)
            if isinstance(k, str) and n["k"] == "Bin" and n["op"] in ("!=", "<=", ">="):
                k, sense = self.key(f, dict(n, op={"!=": "==", "<=": ">", ">=": "<"}[n["op"]]), env), not sense
            if isinstance(k, (int, bool)):
                if bool(k) != sense:
                    return False
                continue
            r = self.reads(f, n)
            if ALL in r or WORLD in r:
                continue
            r = r | set().union(*[env[v][1] for v in env])
            if k in facts and facts[k][0] != sense:
                return False
            facts[k] = (sense, r)
        return not any(set(x) <= taken for x in self.impossible)

    def last(self, f, n):
        """The operand a block decides on: earlier operands of && and || have blocks of their own."""
        n = f.strip(n)
        while n is not None and n["k"] == "Bin" and n["op"] in ("&&", "||"):
            n = f.strip(f.kid(n, 1))
        return n

    def bindvar(self, f, env, facts, v, n):
        n = f.strip(n)
        if n is not None and n["k"] == "Cond":
            x, flip = f.strip(f.kid(n, 0)), False
            while x is not None and x["k"] == "Un" and x["op"] == "!":
                x, flip = f.strip(f.kid(x, 0)), not flip
            h = facts.get(self.key(f, x, env))
            if h is None:
                return
            n = f.kid(n, 1 if h[0] != flip else 2)
        r = self.reads(f, n)
        if ALL in r or WORLD in r or len(r) > 4:
            return
        k = self.key(f, n, env)
        if isinstance(k, int) or f.strip(n)["k"] in ("Ref", "Member", "Un", "Index", "Call"):
            env[v] = (k, r | {("v", v)})

    def key(self, f, n, env, depth=0):
        n = f.strip(n)
        if n is None or depth > 12:
            return "?%d" % id(n)
        if isinstance(n.get("v"), int):
            return n["v"]
        k = n["k"]
        if k == "Member" and env:
            w = self.key(f, n, {})
            if w in env:
                return env[w][0]
        if k == "Ref" and n.get("dk") == "v":
            return env[n["d"]][0] if n["d"] in env else "v%d" % n["d"]
        if k == "Bin":
            a, b = self.key(f, f.kid(n, 0), env, depth + 1), self.key(f, f.kid(n, 1), env, depth + 1)
            op = n["op"]
            if isinstance(a, int) and isinstance(b, int):
                try:
                    return int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b, "+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b}[op])
                except KeyError:
                    pass
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            if a == b and op in ("<", "!="):
                return 0
            if a == b and op in ("<=", "=="):
                return 1
            return "(%s%s%s)" % (a, op, b)
        if k == "Null":
            return 0
        return k + n.get("n", "") + n.get("m", "") + n.get("op", "") + "(" + ",".join(str(self.key(f, x, env, depth + 1)) for x in ([f.obj(n)] if k == "Call" and f.obj(n) is not None else []) + f.kids(n)) + ")"

    def progress(self, path, W, R, esc):
        V = set()
        for b in path:
            V |= R(b)
        if ALL in V or WORLD in V:
            return True
        ws = [w for b in path for w in W(b)]
        for l, d in ws:
            if l == ALL and self.steps((l, d), V, esc):
                return True
        # locations that change from one round to the next
        chg = set()
        for l, d in ws:
            if l in d or ALL in d or WORLD in d:
                chg.add(l)
        # loop-carried chains: x depends on y written in this round and y on x
        dep = {}
        for l, d in ws:
            dep.setdefault(l, set()).update(d)
        wl = set(dep)
        for l in wl:
            seen, st = set(), [l]
            while st:
                x = st.pop()
                for y in dep.get(x, ()):
                    if y == l:
                        chg.add(l)
                        st = []
                        break
                    if y in wl and y not in seen:
                        seen.add(y)
                        st.append(y)
        while True:
            more = {l for l in wl - chg if any(self.touch(c, dep[l], esc) for c in chg)}
            if not more:
                break
            chg |= more
        # a location set to different values on one way (a flag raised, then tested) is not told apart: two writes count
        cnt = {}
        for l, d in ws:
            cnt[l] = cnt.get(l, 0) + 1
        return any(self.touch(c, V, esc) for c in chg)


class Escaped(set):
    """Locals that code outside the function may reach; addr: those whose address was taken."""


def sccs(nodes, succ):
    """Strongly connected components of a part of the graph (iterative Tarjan)."""
    idx, low, on, st, out = {}, {}, set(), [], []
    c = 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter([s for s in succ[r] if s in nodes]))]
        idx[r] = low[r] = c
        c += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c
                    c += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter([s for s in succ[w] if s in nodes])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.add(w)
                        if w == v:
                            break
                    out.append(comp)
    return out
