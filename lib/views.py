"""Pointers, references, iterators and views into growable objects: flow-sensitive validity.

A view variable remembers the access path of the object it points into.  An operation that may move or destroy the
storage of that object turns the view stale on every path that follows; a later use of the stale view is reported.
Functions are summarised by which parameters, own fields and globals they may change in that way, and by which
parameters their returned pointer is derived from.
"""
import re

VEC = ("std::vector", "std::basic_string", "std::string", "std::__cxx11::basic_string")
DEQ = ("std::deque",)
NODE = ("std::map", "std::set", "std::unordered_map", "std::unordered_set", "std::list", "std::multimap")
STR = re.compile(r"^(str|wstr)(_impl|_base|_moveable)?(<|$)")
MOVE = {"push_back", "emplace_back", "insert", "emplace", "resize", "reserve", "assign", "operator=", "shrink_to_fit", "swap", "append", "operator+=", "clear", "erase", "pop_back"}
DEQMOVE = {"clear", "erase", "pop_back", "pop_front", "resize", "operator=", "swap", "assign"}
STRMOVE = {"concat", "concat_no_truncate", "copy", "format", "vformat", "format_append", "vformat_append", "operator<<", "operator=", "reserve", "attach", "free_data"}
ALLOCMOVE = {"clear", "reset", "free", "operator="}
INTO = {"c_str", "data", "begin", "end", "rbegin", "rend", "back", "front", "operator[]", "at", "find", "lower_bound", "upper_bound", "get_pointer"}
DERIV = {"strchr", "strrchr", "strstr", "strpbrk", "wcschr", "wcsrchr", "wcsstr", "memchr"}
VIEWCLS = re.compile(r"^(str_iter|wstr_iter|str_iter_impl|wcwidth_iter|ecma48_iter|str_tokeniser|wstr_tokeniser|str_tokeniser_impl)(<|$)")
DESTROY = {"clear", "erase", "pop_back", "pop_front", "resize", "free_data", "reset", "free", "operator=", "assign"}


def kind_of(cls):
    if not cls:
        return None
    if cls.startswith(VEC):
        return "vec"
    if cls.startswith(DEQ):
        return "deq"
    if cls.startswith(NODE):
        return "node"
    if STR.match(cls):
        return "str"
    if cls == "linear_allocator":
        return "alloc"
    return None


def mutates(n):
    """Kind of storage change a method call makes to its object, or None."""
    k = kind_of(n.get("cls", ""))
    m = n.get("n", "").rsplit("::", 1)[-1]
    if k == "vec" and m in MOVE or k == "deq" and m in DEQMOVE or k == "str" and m in STRMOVE or k == "alloc" and m in ALLOCMOVE:
        return k
    if k == "node" and m in ("clear", "operator=", "swap", "pop_back", "pop_front"):
        return k
    return None


class Fn:
    """Access paths of one function, with reference variables resolved."""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.refs = {}
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for d in n.get("ds", ()):
                    if d.get("i") is not None and d["i"] >= 0 and f.vtype(d["v"])["k"] == "ref":
                        p = self.path(f.n(d["i"]))
                        if p is not None:
                            self.refs[d["v"]] = p

    def path(self, n, depth=0):
        f = self.f
        n = f.strip(n)
        if n is None or depth > 12:
            return None
        k = n["k"]
        if k == "Ref":
            if n.get("dk") == "v":
                return self.refs.get(n["d"], ("v", n["d"]))
            return ("g", n["n"]) if n.get("dk") == "g" else None
        if k == "This":
            return ("this",)
        if k == "Member":
            if n.get("dk") == "g":
                return ("g", n["n"])
            if n.get("dk") == "fn":
                return None
            b = self.path(f.kid(n, 0), depth + 1)
            return None if b is None else b + ("." + n["m"],)
        if k == "Un" and n["op"] in ("*", "&"):
            b = self.path(f.kid(n, 0), depth + 1)
            return b
        if k == "Index":
            b = self.path(f.kid(n, 0), depth + 1)
            return None if b is None else b + ("[]",)
        if k == "Call":
            s = n.get("n", "").rsplit("::", 1)[-1]
            if s in ("operator->", "operator*", "get") and f.obj(n) is not None and not n.get("c"):
                return self.path(f.obj(n), depth + 1)
            if s in ("operator[]", "at", "back", "front") and f.obj(n) is not None and kind_of(n.get("cls", "")) not in (None, "str"):
                b = self.path(f.obj(n), depth + 1)
                return None if b is None else b + ("[]",)
        return None


class Views:
    def __init__(self, prog, funcs):
        self.prog, self.funcs = prog, funcs
        self.fn = {}
        self.summ = {}        # usr -> set of ("p", j) + suffix / ("this", ...) / ("g", name)
        self.latememo = {}
        self.cond = {}        # (usr, effect) -> parameters the effect is guarded against ("only when it differs")
        self.deriv = {}       # usr -> set of param indices
        self._summaries()

    def F(self, f):
        x = self.fn.get(f.usr)
        if x is None:
            x = self.fn[f.usr] = Fn(self.prog, f)
        return x

    def _summaries(self):
        todo = self.funcs
        for f in todo:
            F = self.F(f)
            par = {v: j for j, v in enumerate(f.d.get("params", ()))}
            s = set()
            for n in f.nodes:
                if n and n["k"] == "Call" and n.get("o", -1) >= 0 and mutates(n):
                    p = F.path(f.obj(n))
                    q = self.outer(f, par, p)
                    if q:
                        s.add(q)
                        j = self.unless_equal(f, F, par, n, p)
                        self.cond.setdefault((f.usr, q), set()).add(j)
            self.summ[f.usr] = s
            self.deriv[f.usr] = self._deriv(f, par)
        for _ in range(3):
            add = {}
            for f in todo:
                F = self.F(f)
                par = {v: j for j, v in enumerate(f.d.get("params", ()))}
                new = set()
                for n in f.nodes:
                    if n and n["k"] in ("Call", "Construct"):
                        for p in self.effects(f, F, n):
                            q = self.outer(f, par, p)
                            if q and q not in self.summ[f.usr]:
                                new.add(q)
                if new:
                    add[f.usr] = new
            for u, new in add.items():
                self.summ[u] = self.summ[u] | {x for x in new if len(x) <= 4}
            if not add:
                break

    def unless_equal(self, f, F, par, n, p):
        """The parameter which a call stores into p only after finding that p's text differs from it, or None."""
        a = f.strip(f.args(n)[0]) if n.get("c") else None
        if a is None or a["k"] != "Ref" or a.get("d") not in par:
            return None
        at = [b for b in f.blocks if any(isinstance(e, int) and f.n(e) is n for e in f.blocks[b].get("e", ()))]
        if not at:
            return None
        known = {f.entry: False}
        work = [f.entry]
        while work:
            b = work.pop()
            for i, s in enumerate(f.blocks[b]["s"]):
                if s is None or s < 0:
                    continue
                v = known[b] or self.differs(f, F, b, i, p, a["d"])
                if s not in known or known[s] and not v:
                    known[s] = v
                    work.append(s)
        return par[a["d"]] if known.get(at[0]) else None

    def condition(self, f, b, i):
        """The condition that holds (or fails) on edge i out of block b, through negations, comparisons with true or
        false and single-assignment flags: (node, sense) or (None, None)."""
        t = f.blocks[b].get("tc")
        if t is None or len(f.blocks[b]["s"]) != 2:
            return None, None
        n, sense = f.strip(f.n(t)), i == 0
        for _ in range(8):
            if n is None:
                break
            if n["k"] == "Un" and n["op"] == "!":
                n, sense = f.strip(f.kid(n, 0)), not sense
            elif n["k"] == "Bin" and n["op"] in ("&&", "||"):
                n = f.strip(f.kid(n, 1))        # earlier operands have blocks of their own
            elif n["k"] == "Bin" and n["op"] in ("==", "!=") and any(x is not None and x["k"] == "Lit" and x.get("v") in (0, 1) for x in (f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1)))):
                l, r = f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1))
                lit, oth = (r, l) if r["k"] == "Lit" else (l, r)
                if not f.ntype(oth)["s"].endswith("bool"):
                    break
                sense ^= (lit["v"] == 0) == (n["op"] == "==")
                n = oth
            elif n["k"] == "Ref" and n.get("dk") == "v":
                inits = [d["i"] for x in f.nodes if x and x["k"] == "DeclStmt" for d in x["ds"] if d["v"] == n["d"] and d["i"] is not None and d["i"] >= 0]
                if len(inits) != 1 or any(x and (x["k"] == "Asg" or x["k"] == "Un" and x["op"] in ("++", "--", "&")) and f.strip(f.kid(x, 0)) is not None and f.strip(f.kid(x, 0)).get("d") == n["d"] and f.strip(f.kid(x, 0))["k"] == "Ref" for x in f.nodes):
                    break
                n = f.strip(f.n(inits[0]))
            else:
                break
        return n, sense

    def differs(self, f, F, b, i, p, v):
        n, sense = self.condition(f, b, i)
        if n is None or n["k"] != "Call" or not n.get("n", "").endswith("::equals") or sense or f.obj(n) is None:
            return False
        x = f.strip(f.args(n)[0])
        return F.path(f.obj(n)) == p and x is not None and x["k"] == "Ref" and x.get("d") == v

    def outer(self, f, par, p):
        """Path as seen by a caller, or None for something private to the function."""
        if p is None:
            return None
        if p[0] == "v":
            if p[1] in par and f.vtype(p[1])["k"] in ("ref", "ptr"):
                return ("p", par[p[1]]) + p[2:]
            return None
        return p if p[0] in ("this", "g") else None

    def _deriv(self, f, par):
        if f.type(f.d.get("ret", -1))["k"] != "ptr":
            return set()
        src = {v: {j} for v, j in par.items() if f.vtype(v)["k"] == "ptr"}
        for _ in range(3):
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        if d["i"] is not None and d["i"] >= 0 and f.vtype(d["v"])["k"] == "ptr":
                            src.setdefault(d["v"], set()).update(self._from(f, f.n(d["i"]), src))
                elif n["k"] == "Asg" and n["op"] == "=":
                    l = f.strip(f.kid(n, 0))
                    if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and f.vtype(l["d"])["k"] == "ptr":
                        src.setdefault(l["d"], set()).update(self._from(f, f.kid(n, 1), src))
        out = set()
        for n in f.nodes:
            if n and n["k"] == "Return" and n.get("c"):
                out |= self._from(f, f.kid(n, 0), src)
        return out

    def _from(self, f, n, src):
        n = f.strip(n)
        if n is None:
            return set()
        if n["k"] == "Ref" and n.get("dk") == "v":
            return src.get(n["d"], set())
        if n["k"] == "Bin" and n["op"] in "+-" or n["k"] == "Cond":
            ks = f.kids(n)[-2:]
            return set().union(*[self._from(f, k, src) for k in ks])
        if n["k"] == "Un" and n["op"] in ("++", "--"):
            return self._from(f, f.kid(n, 0), src)
        if n["k"] == "Un" and n["op"] == "&":
            k = f.strip(f.kid(n, 0))
            if k is not None and k["k"] == "Index":
                return self._from(f, f.kid(k, 0), src)
        if n["k"] == "Call" and n.get("n", "").rsplit("::", 1)[-1] in DERIV and n.get("c"):
            return self._from(f, f.args(n)[0], src)
        return set()

    # --- effects of one call -------------------------------------------------
    def effects(self, f, F, n):
        """Paths (in the caller's terms) whose storage the call may move."""
        out = []
        if n["k"] == "Call" and n.get("o", -1) >= 0 and mutates(n):
            p = F.path(f.obj(n))
            if p:
                out.append(p)
            return out
        ts = self.prog.targets(n)
        if len(ts) != 1:
            return out
        g = ts[0]
        s = self.summ.get(g.usr)
        if not s:
            return out
        args = f.args(n)
        for q in s:
            if q[0] == "p":
                j = q[1]
                if n.get("opc") and g.cls and "o" not in n:
                    j += 1
                if j < len(args) and args[j] is not None:
                    p = F.path(args[j])
                    if p:
                        out.append(p + q[2:])
            elif q[0] == "this":
                if n["k"] == "Call" and n.get("o", -1) >= 0:
                    p = F.path(f.obj(n))
                    if p:
                        out.append(p + q[1:])
                elif n["k"] == "Call" and f.cls and g.cls == f.cls:
                    out.append(q)
            else:
                out.append(q)
        return out

    # --- what an expression points into ---------------------------------------
    def into(self, f, F, n, st, depth=0):
        """Set of (owner path, sort) an expression's value points into; sort is 'mem' or 'elem'."""
        n = f.strip(n)
        if n is None or depth > 10:
            return set()
        k = n["k"]
        if k == "Ref" and n.get("dk") == "v":
            return {(o, so) for v, o, so, inv in st if v == n["d"]}
        if k == "Bin" and n["op"] in ("+", "-"):
            if f.ntype(n)["k"] in ("ptr", "rec"):
                return self.into(f, F, f.kid(n, 0), st, depth + 1) | (self.into(f, F, f.kid(n, 1), st, depth + 1) if n["op"] == "+" else set())
            return set()
        if k == "Un" and n["op"] in ("++", "--"):
            return self.into(f, F, f.kid(n, 0), st, depth + 1)
        if k == "Un" and n["op"] == "&":
            x = f.strip(f.kid(n, 0))
            while x is not None and x["k"] in ("Member",):
                x = f.strip(f.kid(x, 0))
            if x is not None and x["k"] == "Call":
                return self.into(f, F, x, st, depth + 1)
            if x is not None and x["k"] == "Index":
                return self.into(f, F, f.kid(x, 0), st, depth + 1)
            if x is not None and x["k"] == "Ref" and x.get("dk") == "v" and f.vtype(x["d"])["k"] == "ref":
                return {(o, so) for v, o, so, inv in st if v == x["d"]}
            return set()
        if k == "Cond":
            return set().union(*[self.into(f, F, x, st, depth + 1) for x in f.kids(n)[1:]])
        if k == "Asg":
            return self.into(f, F, f.kid(n, 1), st, depth + 1)
        if k in ("Call", "Construct"):
            s = n.get("n", "").rsplit("::", 1)[-1]
            if k == "Call" and f.obj(n) is not None:
                kd = kind_of(n.get("cls", ""))
                if kd and s in INTO and not (kd == "str" and s == "operator[]") or kd == "alloc" and s in ("alloc", "store"):
                    p = F.path(f.obj(n))
                    if p is not None:
                        return {(p, "mem" if s in ("c_str", "data", "alloc", "store") else s if s in ("back", "front") else "begin" if s == "begin" else "elem")}
                if s.startswith("operator ") or s in ("operator->", "operator*", "get_pointer", "base"):
                    return self.into(f, F, f.obj(n), st, depth + 1)
            if k == "Call" and f.ntype(n)["k"] == "ptr" and n.get("c"):
                a = f.args(n)
                if s in DERIV:
                    return self.into(f, F, a[0], st, depth + 1)
                ts = self.prog.targets(n)
                if len(ts) == 1:
                    return set().union(*[self.into(f, F, a[j], st, depth + 1) for j in self.deriv.get(ts[0].usr, ()) if j < len(a)])
            if k == "Construct" and len(n.get("c", ())) >= 1:
                c = n.get("cls", "")
                a = f.args(n)
                if VIEWCLS.match(c):
                    r = self.into(f, F, a[0], st, depth + 1)
                    if not r and a[0] is not None and kind_of(f.ntype(f.strip(a[0])).get("r", "")) == "str":
                        p = F.path(a[0])
                        r = {(p, "mem")} if p else set()
                    return r
                if len(a) == 1 and ("iterator" in c or "Iter" in c):
                    return self.into(f, F, a[0], st, depth + 1)
        return set()

    # --- the analysis of one function -------------------------------------------
    def analyse(self, f, report):
        F = self.F(f)
        vs = f.vars
        viewvar = {v for v in range(len(vs)) if f.vtype(v)["k"] in ("ptr", "ref") or f.vtype(v)["k"] == "rec" and (VIEWCLS.match(f.vtype(v).get("r", "")) or "iterator" in f.vtype(v).get("r", "").lower() or "iterator" in f.vtype(v).get("c", f.vtype(v)["s"]).lower())}
        cand = any(n and n["k"] in ("Call", "Construct") and n.get("n", "").rsplit("::", 1)[-1] in INTO | {"alloc", "store"} for n in f.nodes)
        if not viewvar or not cand:
            return 0
        par = {}
        for i, n in enumerate(f.nodes):
            if n:
                for key in ("o", "fn"):
                    if isinstance(n.get(key), int) and n[key] >= 0:
                        par.setdefault(n[key], i)
                for ch in n.get("c", ()):
                    if ch >= 0:
                        par.setdefault(ch, i)
        instate = {f.entry: frozenset()}
        work = [f.entry]
        made = set()
        rounds = {}
        while work:
            b = work.pop()
            rounds[b] = rounds.get(b, 0) + 1
            if rounds[b] > 60:
                continue
            st = instate[b]
            for e in f.blocks[b].get("e", ()):
                if not isinstance(e, int):
                    continue
                n = f.n(e)
                if n is None:
                    continue
                st = self.step(f, F, e, n, st, viewvar, par, report, made)
            for i, s in enumerate(f.blocks[b]["s"]):
                if s is None or s < 0:
                    continue
                old = instate.get(s)
                new = self.edge(f, F, b, i, st)
                new = new if old is None else old | new
                if new != old:
                    instate[s] = new
                    if s not in work:
                        work.append(s)
        return len(made)

    def edge(self, f, F, b, i, st):
        """p != x.c_str(): on that side p does not point at the start of x."""
        n, sense = self.condition(f, b, i)
        if n is None or n["k"] != "Bin" or n["op"] not in ("!=", "==") or (n["op"] == "!=") != sense:
            return st
        l, r = f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1))
        for x, y in ((l, r), (r, l)):
            if x is not None and y is not None and x["k"] == "Ref" and x.get("dk") == "v" and y["k"] == "Call":
                gone = self.into(f, F, y, st)
                st = frozenset(z for z in st if not (z[0] == x["d"] and (z[1], z[2]) in gone))
        return st

    def step(self, f, F, e, n, st, viewvar, par, report, made):
        k = n["k"]
        if k == "Ref" and n.get("dk") == "v" and n["d"] in viewvar:
            bad = [x for x in st if x[0] == n["d"] and x[3]]
            if bad and not self.harmless(f, e, par):
                # stale on one path is enough, unless the same view is also held afresh (joined states keep both)
                report(f, n, bad[0], e)
        if k == "DeclStmt":
            for d in n["ds"]:
                v = d["v"]
                st = frozenset(x for x in st if x[0] != v)
                if d["i"] is not None and d["i"] >= 0 and v in viewvar:
                    src = f.n(d["i"])
                    if f.vtype(v)["k"] == "ref":
                        tgt = self.refinto(f, F, src, st)
                    else:
                        tgt = self.into(f, F, src, st)
                    for o, so in tgt:
                        made.add((v, o))
                        st = st | {(v, o, so, 0)}
            return st
        if k == "Asg":
            l = f.strip(f.kid(n, 0))
            if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and l["d"] in viewvar and f.vtype(l["d"])["k"] != "ref":
                if n["op"] == "=":
                    tgt = self.into(f, F, f.kid(n, 1), st)
                    st = frozenset(x for x in st if x[0] != l["d"])
                    for o, so in tgt:
                        made.add((l["d"], o))
                        st = st | {(l["d"], o, so, 0)}
                return st
            return st
        if k in ("Call", "Construct"):
            s = n.get("n", "").rsplit("::", 1)[-1]
            if k == "Call" and s == "operator=" and f.obj(n) is not None:
                l = f.strip(f.obj(n))
                if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and l["d"] in viewvar and f.vtype(l["d"])["k"] == "rec" and not kind_of(n.get("cls", "")):
                    tgt = self.into(f, F, f.args(n)[0], st) if n.get("c") else set()
                    st = frozenset(x for x in st if x[0] != l["d"])
                    return st | {(l["d"], o, so, 0) for o, so in tgt}
            if k == "Call" and s in ("reset_pointer",) and f.obj(n) is not None:
                pass
            # erasing through an iterator of a node container
            if k == "Call" and s == "erase" and kind_of(n.get("cls", "")) in ("node", "deq") and n.get("c"):
                a = f.strip(f.args(n)[0])
                while a is not None and a["k"] == "Construct" and len(a.get("c", ())) == 1:
                    a = f.strip(f.args(a)[0])
                if a is not None and a["k"] == "Ref" and a.get("dk") == "v" and a["d"] in viewvar:
                    st = frozenset((x[0], x[1], x[2], e) if x[0] == a["d"] else x for x in st)
                if kind_of(n.get("cls", "")) == "node":
                    return st
            eff = self.effects(f, F, n)
            if eff:
                eff = [p for p in eff if not self.guarded(f, F, n, p, st)]
                self.selfarg(f, F, e, n, st, eff, report)
                own = set()
                if k == "Call" and mutates(n):
                    m = s
                else:
                    m = None
                for p in eff:
                    st = frozenset(self.stale(x, p, n, m, e) for x in st)
        return st

    def selfarg(self, f, F, e, n, st, eff, report):
        """The operation is handed a pointer into the very object it may move."""
        k = mutates(n) if n["k"] == "Call" else None
        if k and k != "str":
            return
        for a in f.args(n):
            if a is None:
                continue
            if not k and f.ntype(f.strip(a))["k"] != "ptr":
                continue
            for o, so in self.into(f, F, a, st):
                if o in eff and so == "mem" and (k or self.reads_late(f, F, n, a, o)):
                    report(f, n, (None, o, so, e), e)

    def guarded(self, f, F, n, p, st):
        ts = self.prog.targets(n)
        js = self.cond.get((ts[0].usr, p)) if len(ts) == 1 else None
        if not js or None in js:
            return False
        a = f.args(n)
        return all(j < len(a) and a[j] is not None and any(o == p and so == "mem" for o, so in self.into(f, F, a[j], st)) for j in js)

    def reads_late(self, f, F, n, a, o):
        """Does the called function still use the pointer after changing what it points into?"""
        ts = self.prog.targets(n)
        if len(ts) != 1 or not ts[0].blocks:
            return True
        args = f.args(n)
        if len(args) != len(ts[0].d.get("params", ())):
            return True
        j = [i for i, x in enumerate(args) if x is a]
        q = set()
        for i, x in enumerate(args):
            if x is not None and F.path(x) is not None and o[:len(F.path(x))] == F.path(x) and x is not a:
                q.add(i)
        return not j or not q or self.late(ts[0], j[0], frozenset(q), 0)

    def late(self, g, p, q, depth):
        key = (g.usr, p, q)
        r = self.latememo.get(key)
        if r is not None:
            return r
        self.latememo[key] = False
        G = self.F(g)
        ps = g.d.get("params", ())
        src = {ps[p]}
        for _ in range(3):
            for n in g.nodes:
                if n and n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        if d["i"] is not None and d["i"] >= 0 and self.mentions(g, g.n(d["i"]), src) and g.vtype(d["v"])["k"] in ("ptr", "rec"):
                            if g.vtype(d["v"])["k"] == "ptr" or VIEWCLS.match(g.vtype(d["v"]).get("r", "")):
                                src.add(d["v"])
        qv = {ps[i] for i in q}
        seen = {}
        work = [(g.entry, False)]
        res = False
        while work and not res:
            b, hot = work.pop()
            if seen.get(b, -1) >= hot:
                continue
            seen[b] = hot
            for e in g.blocks[b].get("e", ()):
                n = g.n(e) if isinstance(e, int) else None
                if n is None:
                    continue
                if hot and n["k"] == "Ref" and n.get("dk") == "v" and n["d"] in src:
                    res = True
                    break
                if n["k"] in ("Call", "Construct"):
                    ef = self.effects(g, G, n)
                    if n["k"] == "Call" and n["n"].endswith("::clear") and kind_of(n.get("cls", "")) == "str":
                        ef = ef + [G.path(g.obj(n)) or ("?",)]
                    for x in ef:
                        if x[0] == "v" and x[1] in qv:
                            hot = True
                            ts = self.prog.targets(n)
                            if mutates(n) if n["k"] == "Call" else False:
                                if any(a is not None and self.mentions(g, a, src) and g.ntype(g.strip(a))["k"] == "ptr" for a in g.args(n)):
                                    res = True
                            elif len(ts) == 1 and ts[0].blocks and depth < 4:
                                args = g.args(n)
                                pj = [i for i, a in enumerate(args) if a is not None and self.mentions(g, a, src)]
                                qj = frozenset(i for i, a in enumerate(args) if a is not None and self.mentions(g, a, qv))
                                if qj and len(args) == len(ts[0].d.get("params", ())) and any(self.late(ts[0], i, qj, depth + 1) for i in pj if i not in qj):
                                    res = True
            work += [(s, hot) for s in g.blocks[b]["s"] if s is not None and s >= 0]
        self.latememo[key] = res
        return res

    def mentions(self, f, n, vs):
        n = f.strip(n)
        if n is None:
            return False
        if n["k"] == "Ref" and n.get("dk") == "v":
            return n["d"] in vs
        ks = list(f.kids(n))
        if n["k"] == "Call" and f.obj(n) is not None:
            ks.append(f.obj(n))
        return any(self.mentions(f, k, vs) for k in ks if k is not None)

    def stale(self, x, p, n, m, e):
        v, o, so, inv = x
        if inv:
            return x
        if o == p:
            if m == "pop_back" and so != "back" or m == "pop_front" and so not in ("front", "begin"):
                return x
            return (v, o, so, e)
        if len(o) > len(p) and o[:len(p)] == p and (m is None or m in DESTROY):
            return (v, o, so, e) if m in ("clear", "erase", "pop_back", "operator=") and m is not None else x
        return x

    def refinto(self, f, F, n, st):
        """Reference variables: bound to an element of a container."""
        n = f.strip(n)
        out = set()
        x = n
        while x is not None and x["k"] in ("Member", "Index"):
            if f.ntype(x)["k"] == "ptr" and x is not n:
                return out
            x = f.strip(f.kid(x, 0))
        if x is not None and x["k"] == "Call" and f.obj(x) is not None:
            s = x.get("n", "").rsplit("::", 1)[-1]
            kd = kind_of(x.get("cls", ""))
            if kd in ("vec", "deq", "node") and s in ("operator[]", "at", "back", "front"):
                p = F.path(f.obj(x))
                if p:
                    out.add((p, s if s in ("back", "front") else "elem"))
            elif s in ("operator*", "operator->"):
                out |= self.into(f, F, f.obj(x), st)
        if x is not None and x["k"] == "Un" and x["op"] == "*":
            out |= self.into(f, F, f.kid(x, 0), st)
        return out

    def harmless(self, f, e, par):
        """Compared with null, or about to be assigned."""
        p = par.get(e)
        n = f.n(p) if p is not None else None
        while n is not None and n["k"] == "Cast":
            p = par.get(p)
            n = f.n(p) if p is not None else None
        if n is None:
            return False
        if n["k"] == "Asg" and n["op"] == "=" and f.strip(f.kid(n, 0)) is f.n(e):
            return True
        if n["k"] == "Call" and n.get("n", "").endswith("operator=") and f.strip(f.obj(n)) is f.n(e):
            return True
        if n["k"] == "Un" and n["op"] == "!":
            return True
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            for x in f.kids(n):
                x = f.strip(x)
                if x is not None and (x["k"] == "Null" or x.get("v") == 0):
                    return True
        if n["k"] == "Bin" and n["op"] in ("&&", "||") or n["k"] == "Cond" and f.strip(f.kid(n, 0)) is f.n(e):
            return True
        return False
