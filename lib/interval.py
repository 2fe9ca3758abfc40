"""Whole-program interval analysis, driven by demand.

Only the variables that an obligation depends on are followed.  Inside a function the analysis is flow-sensitive (branch
conditions refine, loops are widened to the constants of the program and narrowed again); between functions it keeps one
interval per parameter, return value, field and global ("cell"), the join over every write in the program.
"""
from collections import defaultdict
import re
import ir

SENTINEL = re.compile(r"(?i)(max|count|_end|last)$")
INT_KINDS = ("int", "enum", "bool")


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def meet(a, b):
    if a is None or b is None:
        return None
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


class FnInfo:
    """Per function indexes used to slice."""
    def __init__(self, an, f):
        self.f = f
        self.asg = defaultdict(list)      # path -> [rhs node idx or ("inc", node) or None]
        self.cmp = defaultdict(list)      # path -> [other node idx]
        self.sub = defaultdict(list)
        self.heads = set()
        self.rpo = []
        self.untracked = set()
        self.addr_args = defaultdict(list)   # call node idx -> [(argpos, path, node)]
        nodes = f.nodes
        callargs = {}
        for i, n in enumerate(nodes):
            if n and n["k"] in ("Call", "Construct"):
                for j, c in enumerate(n.get("c", ())):
                    if c >= 0:
                        callargs.setdefault(c, (i, j))
        self.callargs = callargs
        addr_ok = set()
        for i, n in enumerate(nodes):
            if not n:
                continue
            k = n["k"]
            if k == "Asg":
                l = f.kid(n, 0)
                p = an.fpath(f, l)
                if p:
                    self.asg[p].append(n["c"][1] if n["op"] == "=" else i)
            elif k == "Un" and n["op"] in ("++", "--"):
                p = an.fpath(f, f.kid(n, 0))
                if p:
                    self.asg[p].append(i)
            elif k == "DeclStmt":
                for d in n["ds"]:
                    if d["i"] >= 0:
                        self.asg[("v", d["v"])].append(d["i"])
            elif k == "Bin" and n["op"] in ("<", "<=", ">", ">=", "==", "!="):
                for a, b in ((0, 1), (1, 0)):
                    p = an.fpath(f, an.under(f, f.kid(n, a)))
                    if p:
                        self.cmp[p].append(n["c"][b])
            elif k == "Lambda":
                for c in n.get("caps", ()):
                    if c.get("ref") and "v" in c:
                        self.untracked.add(c["v"])
        # address taken / passed by reference
        for i, n in enumerate(nodes):
            if not n:
                continue
            if n["k"] == "Un" and n["op"] == "&":
                p = an.fpath(f, f.kid(n, 0))
                if p is None:
                    continue
                top = i
                while True:
                    ps = self.parent(top)
                    if ps is not None and nodes[ps]["k"] == "Cast":
                        top = ps
                    else:
                        break
                if top in callargs:
                    self.addr_args[callargs[top][0]].append((callargs[top][1], p, n["c"][0]))
                elif self.parent(top) is not None and nodes[self.parent(top)]["k"] in ("SizeOf",):
                    pass
                elif p[0] == "v":
                    self.untracked.add(p[1])
            if n["k"] in ("Call", "Construct"):
                fn = an.prog.funcs.get(n.get("f"))
                rp = n.get("refs")
                for j, c in enumerate(n.get("c", ())):
                    if c < 0:
                        continue
                    p = an.fpath(f, nodes[c])
                    if p is None:
                        continue
                    if an.is_mut_ref(fn, n, j):
                        self.addr_args[i].append((j, p, c))
            if n["k"] == "DeclStmt":
                for d in n["ds"]:
                    vt = f.vtype(d["v"])
                    if d["i"] >= 0 and vt["k"] == "ref":
                        p = an.fpath(f, nodes[d["i"]])
                        if p and p[0] == "v" and len(p) == 2:
                            self.untracked.add(p[1])
        self._order()
        # values of subexpressions that are consumed in another block (operands of ?: && ||, loop conditions)
        blk = {}
        for b in f.blocks.values():
            for e in b.get("e", ()):
                if not isinstance(e, dict):
                    blk[e] = b["i"]
        self.keep = set()
        for e, b in blk.items():
            p = self.parent(e)
            while p is not None and p not in blk:
                p = self.parent(p)
            if p is not None and blk[p] != b:
                self.keep.add(e)

    def parent(self, i):
        pm = self.f.cachebag.get("pm")
        if pm is None:
            pm = {}
            for j, n in enumerate(self.f.nodes):
                if n:
                    for c in n.get("c", ()):
                        if c >= 0:
                            pm.setdefault(c, j)
            self.f.cachebag["pm"] = pm
        return pm.get(i)

    def _order(self):
        f = self.f
        if f.entry is None:
            return
        seen, on, post = set(), set(), []
        st = [(f.entry, iter(f.blocks[f.entry]["s"]))]
        seen.add(f.entry)
        on.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s < 0:
                    continue
                if s in on:
                    self.heads.add(s)
                elif s not in seen:
                    seen.add(s)
                    on.add(s)
                    st.append((s, iter(f.blocks[s]["s"])))
                    break
            else:
                on.discard(b)
                post.append(b)
                st.pop()
        self.rpo = list(reversed(post))
        self.num = {b: i for i, b in enumerate(self.rpo)}


class Ranges:
    def __init__(self, prog, ret_models=None, out_models=None, field_models=None):
        self.prog = prog
        self.ret_models = dict(RET_MODELS)
        self.ret_models.update(ret_models or {})
        self.out_models = dict(OUT_MODELS)
        self.out_models.update(out_models or {})
        self.field_models = dict(FIELD_MODELS)
        self.field_models.update(field_models or {})
        self.fi = {}
        self.cells = {}
        self.grow = defaultdict(int)
        self.cell_readers = defaultdict(set)      # cell -> function usrs
        self.need = defaultdict(set)              # usr -> tracked paths
        self.need_expr = defaultdict(set)         # usr -> evaluated node ids
        self.demanded = set()
        self.dirty = set()
        self.obl = defaultdict(dict)              # usr -> node idx -> interval at that node
        self.watch = defaultdict(set)             # usr -> node idx
        self.contrib = defaultdict(dict)          # cell -> {usr: interval}
        self.entry_cells = defaultdict(list)
        self._index()

    # -- indexes ------------------------------------------------------------
    def _index(self):
        prog = self.prog
        self.fw = defaultdict(set)     # (cls, m) -> writers
        self.gw = defaultdict(set)     # global name -> writers
        self.ftop = {}                 # field whose address is taken / bound to references
        self.addr_taken = set()
        self.lambda_ops = set()
        self.callsites = defaultdict(list)
        self.initlists = defaultdict(list)  # record -> [(usr or global, node idx)]
        self.gvars = {}
        self.gall = defaultdict(list)
        for g in ir.globals_of(prog):
            self.gvars.setdefault(g.name, g)
            self.gall[g.name].append(g)
            for n in g.nodes:
                if n and n["k"] in ("Ref", "Member") and n.get("dk") == "fn" and n.get("f"):
                    self.addr_taken.add(n["f"])
                elif n and n["k"] == "InitList" and g.ntype(n)["k"] == "rec":
                    self.initlists[g.ntype(n)["r"]].append((g, n))
        for f in prog.funcs.values():
            used = set()
            for n in f.nodes:
                if not n:
                    continue
                for c in n.get("c", ()):
                    if c >= 0:
                        used.add(c)
            for i, n in enumerate(f.nodes):
                if not n:
                    continue
                k = n["k"]
                if k == "Asg" or (k == "Un" and n["op"] in ("++", "--", "&")):
                    l = f.strip(f.kid(n, 0))
                    amp = k == "Un" and n["op"] == "&"
                    if l is not None and l["k"] == "Member" and "cls" in l and l.get("dk") not in ("fn", "g"):
                        self.fw[(l["cls"], l["m"])].add(f.usr)
                    elif l is not None and l.get("dk") == "g":
                        self.gw[l["n"]].add(f.usr)
                    if amp and l is not None and l.get("dk") == "fn" and l.get("f"):
                        self.addr_taken.add(l["f"])
                elif k in ("Call", "Construct"):
                    if n.get("f"):
                        self.callsites[n["f"]].append((f.usr, i))
                    fn = prog.funcs.get(n.get("f"))
                    for j, c in enumerate(n.get("c", ())):
                        if c < 0:
                            continue
                        l = f.strip(f.nodes[c])
                        if l is None:
                            continue
                        if l["k"] == "Member" and "cls" in l and l.get("dk") not in ("fn", "g") and self.is_mut_ref(fn, n, j):
                            self.fw[(l["cls"], l["m"])].add(f.usr)
                        elif l.get("dk") == "g" and self.is_mut_ref(fn, n, j):
                            self.gw[l["n"]].add(f.usr)
                elif k == "InitList" and f.ntype(n)["k"] == "rec":
                    self.initlists[f.ntype(n)["r"]].append((f, n))
                elif k == "Lambda" and n.get("f"):
                    self.lambda_ops.add(n["f"])
                if k in ("Ref", "Member") and n.get("dk") == "fn" and n.get("f") and i in used:
                    self.addr_taken.add(n["f"])
            for b in f.blocks.values():
                for e in b.get("e", ()):
                    if isinstance(e, dict) and "init" in e and f.cls:
                        self.fw[(f.cls, e["init"])].add(f.usr)
        # transitive modification sets are computed on demand
        self._mod = {}

    def is_mut_ref(self, fn, call, j):
        """Argument j is bound to a non-const reference."""
        if fn is None:
            r = call.get("rp")
            return bool(r and j in r)
        ps = fn.d["params"]
        if call.get("opc") and fn.cls and "o" not in call:
            j -= 1
        if j < 0 or j >= len(ps):
            return False
        t = fn.vtype(ps[j])
        return t["k"] == "ref" and not fn.type(t.get("e", -1)).get("q")

    def info(self, f):
        x = self.fi.get(f.usr)
        if x is None:
            x = self.fi[f.usr] = FnInfo(self, f)
        return x

    def under(self, f, n):
        """The lvalue below ++/--/assignment (comparisons on it refine it)."""
        n = f.strip(n)
        while n is not None and (n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--") or
                                 n["k"] == "Bin" and n["op"] in ("+", "-") and "v" in (f.kid(n, 1) or {})):
            n = f.strip(f.kid(n, 0))
        return n

    def fpath(self, f, n):
        """Trackable path of an integer lvalue: variable, global, or field path ending in a field."""
        n = f.strip(n)
        if n is None or n["k"] not in ("Ref", "Member") or n.get("dk") in ("fn", "ec"):
            return None
        if f.ntype(n)["k"] not in INT_KINDS and f.ntype(n)["k"] != "ref":
            return None
        return f.path(n)

    def field_of(self, f, n):
        n = f.strip(n)
        if n is not None and n["k"] == "Member" and "cls" in n and n.get("dk") not in ("fn", "g"):
            return (n["cls"], n["m"])
        return None

    # -- types ---------------------------------------------------------------
    def trange(self, f, t):
        if t is None:
            return (-2**63, 2**64 - 1)
        if t["k"] == "ref":
            t = f.type(t.get("e", -1))
        if t["k"] == "bool":
            return (0, 1)
        if t["k"] == "enum":
            e = self.prog.enums.get(t["s"].replace("enum ", "").replace("const ", "")) or self.prog.enums.get(t.get("r", ""))
            z = t.get("z", 4)
            if e:
                # a trailing "max"/"count" enumerator is a bound, not a value
                top = [k for k, v in e.items() if v == max(e.values())]
                vs = [v for k, v in e.items() if not (len(top) == 1 and k == top[0] and len(e) > 2 and SENTINEL.search(k))]
                if vs:
                    return (min(vs), max(vs))
            return (-2**(8 * z - 1), 2**(8 * z) - 1)
        if t["k"] == "int":
            z = t.get("z", 8)
            return (0, 2**(8 * z) - 1) if t.get("u") else (-2**(8 * z - 1), 2**(8 * z - 1) - 1)
        return (-2**63, 2**64 - 1)

    def fit(self, iv, rng, unsigned):
        if iv is None:
            return None
        if iv[0] >= rng[0] and iv[1] <= rng[1]:
            return iv
        if unsigned:
            w = rng[1] + 1
            if iv[0] // w == iv[1] // w:
                return (iv[0] % w, iv[1] % w)
            return rng
        m = meet(iv, rng)
        return m if m is not None else rng

    # -- demand --------------------------------------------------------------
    def want(self, f, idx):
        """Asks for the interval of expression node idx of f wherever it is evaluated."""
        self.watch[f.usr].add(idx)
        self._need(f, idx)
        self.dirty.add(f.usr)

    def _need(self, f, idx):
        if idx is None or idx < 0 or idx in self.need_expr[f.usr]:
            return
        n = f.nodes[idx]
        if n is None:
            return
        self.need_expr[f.usr].add(idx)
        self.dirty.add(f.usr)
        if "v" in n and n["k"] not in ("DeclStmt",):
            return
        k = n["k"]
        if k == "SizeOf" or k == "Lit":
            return
        p = self.fpath(f, n)
        if p is not None:
            self._need_path(f, p, n)
            return
        if k == "Call":
            nm = n.get("n", "").rsplit("::", 1)[-1]
            mdl = self.ret_models.get(n.get("n")) or self.ret_models.get(nm)
            if mdl:
                for c in n.get("c", ()):
                    self._need(f, c)
                return
            for t in self.prog.targets(n):
                self.demand(("r", t.usr))
            return
        if k == "Construct":
            for c in n.get("c", ()):
                self._need(f, c)
            return
        if k == "Index":
            return
        for c in n.get("c", ()):
            self._need(f, c)

    def _need_path(self, f, p, n):
        if p in self.need[f.usr]:
            return
        self.need[f.usr].add(p)
        self.dirty.add(f.usr)
        inf = self.info(f)
        for r in list(inf.asg.get(p, ())):
            self._need(f, r)
            if f.nodes[r]["k"] in ("Asg",):
                self._need(f, f.nodes[r]["c"][1])
        for r in inf.cmp.get(p, ()):
            self._need(f, r)
        for ci, lst in inf.addr_args.items():
            if any(x[1] == p for x in lst) and (f.nodes[ci].get("n") or "").rsplit("::", 1)[-1] in self.out_models:
                for c in f.nodes[ci].get("c", ()):
                    self._need(f, c)
        fo = self.field_of(f, n)
        if fo is not None:
            self.demand(("f",) + fo)
            if self.entry_tracked(f, p):
                self.demand(("ef", f.usr, p, ("f",) + fo))
        elif p[0] == "g":
            self.demand(("g", p[1]))
            if self.entry_tracked(f, p):
                self.demand(("ef", f.usr, p, ("g", p[1])))
        elif p[0] == "v" and len(p) == 2:
            v = f.vars[p[1]]
            if v.get("st"):
                self.demand(("s", f.usr, p[1]))
            elif p[1] in f.d["params"]:
                self.demand(("p", f.usr, f.d["params"].index(p[1])))

    def demand(self, cell):
        if cell in self.demanded:
            return
        self.demanded.add(cell)
        prog = self.prog
        k = cell[0]
        if k == "r":
            f = prog.funcs[cell[1]]
            for i, n in enumerate(f.nodes):
                if n and n["k"] == "Return" and n.get("c"):
                    self._need(f, n["c"][0])
            self.dirty.add(f.usr)
        elif k == "p":
            f = prog.funcs[cell[1]]
            if self.open_params(f):
                return
            for usr, i in self.sites(f):
                g = prog.funcs[usr]
                c = self.arg(g.nodes[i], f, cell[2])
                if c is not None and c >= 0:
                    self._need(g, c)
                self.dirty.add(usr)
        elif k == "f":
            for usr in self.fw.get(cell[1:], ()):
                g = prog.funcs[usr]
                for i, n in enumerate(g.nodes):
                    if n and (n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--")) and self.field_of(g, g.kid(n, 0)) == cell[1:]:
                        p = self.fpath(g, g.kid(n, 0))
                        if p:
                            self._need_path(g, p, g.strip(g.kid(n, 0)))
                        self._need(g, n["c"][-1])
                for b in g.blocks.values():
                    for e in b.get("e", ()):
                        if isinstance(e, dict) and e.get("init") == cell[2] and g.cls == cell[1] and e.get("e", -1) >= 0:
                            self._need(g, e["e"])
                self.dirty.add(usr)
            for g, n in self.initlists.get(cell[1], ()):
                if isinstance(g, ir.Func):
                    c = self.init_kid(g, n, cell[2])
                    if c is not None:
                        self._need(g, c)
                    self.dirty.add(g.usr)
        elif k == "g":
            for usr in self.gw.get(cell[1], ()):
                g = prog.funcs[usr]
                for i, n in enumerate(g.nodes):
                    if n and (n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--")) and g.path(g.kid(n, 0)) == ("g", cell[1]):
                        self._need_path(g, ("g", cell[1]), g.strip(g.kid(n, 0)))
                        self._need(g, n["c"][-1])
                self.dirty.add(usr)
        elif k == "s":
            f = prog.funcs[cell[1]]
            self.dirty.add(f.usr)
        elif k == "ef":
            f = prog.funcs[cell[1]]
            self.entry_cells[f.usr].append(cell)
            for usr, i in self.sites(f):
                g = prog.funcs[usr]
                p = self.caller_path(g, g.nodes[i], cell[2])
                if p is not None and g.blocks:
                    q = self.find_path_node(g, p)
                    if q is not None:
                        self._need_path(g, p, q)
                self.dirty.add(usr)

    def entry_tracked(self, f, p):
        """The value of p when f is entered is the join over its call sites (only private, directly called functions)."""
        if p[0] == "this" and len(p) != 2 or p[0] not in ("this", "g"):
            return False
        return not self.open_params(f) and len(self.sites(f)) <= 12 and not f.d.get("virtual") and f.usr not in self.lambda_ops

    def caller_path(self, g, call, p):
        if p[0] == "g":
            return p
        o = g.obj(call)
        if o is None:
            return None
        b = g.path(o)
        if b is None:
            return None
        if b[0] == "&":
            b = b[1:]
        return b + p[1:]

    def find_path_node(self, g, p):
        """A node of g spelling path p; helpers that only pass the object on have none."""
        m = g.cachebag.get("pathnodes")
        if m is None:
            m = {}
            for n in g.nodes:
                if n and n["k"] in ("Ref", "Member"):
                    q = self.fpath(g, n)
                    if q is not None:
                        m.setdefault(q, n)
            g.cachebag["pathnodes"] = m
        return m.get(p)

    def init_kid(self, g, n, m):
        r = self.prog.records.get(g.ntype(n)["r"])
        if r is None:
            return None
        names = list(r.fields)
        if m in names and names.index(m) < len(n.get("c", ())):
            return n["c"][names.index(m)]
        return -1   # value-initialised

    def open_params(self, f):
        return f.usr in self.addr_taken or not self.sites(f) or f.has("export") or f.short in ("main", "DllMain", "wmain")

    def sites(self, f):
        out = list(self.callsites.get(f.usr, ()))
        for b in self.base_usrs(f):
            out += self.callsites.get(b, ())
        return out

    def base_usrs(self, f):
        out, st = set(), list(f.d.get("overrides", ()))
        while st:
            b = st.pop()
            if b in out:
                continue
            out.add(b)
            g = self.prog.funcs.get(b)
            if g:
                st += list(g.d.get("overrides", ()))
        return out

    def arg(self, call, f, j):
        c = call.get("c", ())
        if call.get("opc") and f.cls and "o" not in call:
            j += 1
        return c[j] if j < len(c) else None

    # -- cells -----------------------------------------------------------------
    def cell(self, f, key, rng):
        """Current interval of a cell, None while nothing is known to write it."""
        if f is not None:
            self.cell_readers[key].add(f.usr)
        if key[0] == "p" and self.open_params(self.prog.funcs[key[1]]):
            return rng
        if key[0] == "f" and (key[1], key[2]) in self.field_models:
            return self.field_models[(key[1], key[2])]
        if key[0] == "f" and key[1] not in self.prog.records:
            return rng
        if key[0] == "f" and not self.fw.get(key[1:]) and not self.initlists.get(key[1]):
            return rng
        v = self.cells.get(key)
        if v is None:
            return None
        return v if v is None or not rng or v[0] >= rng[0] and v[1] <= rng[1] + 1 else self.fit(v, rng, rng[0] >= 0)

    def put(self, key, usr, iv):
        old = self.contrib[key].get(usr)
        self.contrib[key][usr] = iv
        new = None
        for x in self.contrib[key].values():
            new = join(new, x)
        cur = self.cells.get(key)
        if self.narrowing:
            if new != cur:
                self.cells[key] = new
                self.changed.add(key)
            return
        new = join(cur, new)
        if new != cur:
            self.grow[key] += 1
            if self.grow[key] > 6 and cur is not None:
                new = self.widen(cur, new)
            self.cells[key] = new
            self.changed.add(key)

    def widen(self, old, new):
        lo, hi = new
        if old is None:
            return new
        th = self.thresholds
        import bisect
        if lo < old[0]:
            i = bisect.bisect_right(th, lo) - 1
            lo = th[i] if i >= 0 else -2**63
        if hi > old[1]:
            i = bisect.bisect_left(th, hi)
            hi = th[i] if i < len(th) else 2**64 - 1
        return (lo, hi)

    thresholds = sorted({-2**63, -2**31, -32768, -128, -1, 0, 1, 255, 127, 65535, 32767, 2**31 - 1, 2**32 - 1, 2**63 - 1, 2**64 - 1})

    # -- solving -----------------------------------------------------------------
    def solve(self, limit=200000):
        th = set(Ranges.thresholds)
        for u, xs in self.watch.items():
            for n in self.prog.funcs[u].nodes:
                if n and n["k"] == "Index":
                    t = self.prog.funcs[u].ntype(self.prog.funcs[u].strip(self.prog.funcs[u].kid(n, 0)))
                    if t["k"] == "arr" and t.get("n"):
                        th |= {t["n"] - 1, t["n"], t["n"] + 1}
        self.thresholds = sorted(th)
        self.changed = set()
        self.narrowing = False
        for key in list(self.demanded):
            self.seed(key)
        rounds = 0
        while self.dirty and rounds < limit:
            rounds += 1
            usr = self.dirty.pop()
            self.analyse(self.prog.funcs[usr])
            for key in self.changed:
                self.dirty |= self.cell_readers[key]
            self.changed = set()
        # two descending sweeps over every analysed function
        self.narrowing = True
        for _ in range(2):
            for usr in list(self.need_expr):
                self.analyse(self.prog.funcs[usr])
        self.narrowing = False
        return rounds

    def seed(self, key):
        if key[0] == "g":
            for g in self.gall.get(key[1], ()):
                i = g.d.get("i", -1)
                v = (0, 0)
                if i >= 0 and g.nodes[i] is not None:
                    x = g.strip(g.nodes[i])
                    if "v" in x:
                        v = (x["v"], x["v"])
                    elif g.nodes[i].get("v") is not None:
                        v = (g.nodes[i]["v"],) * 2
                    elif x["k"] not in ("InitList",):
                        v = self.trange(g, g.ntype(x))
                self.contrib[key]["init"] = join(self.contrib[key].get("init"), v)
                self.cells[key] = join(self.cells.get(key), v)
            if not self.gall.get(key[1]):
                self.contrib[key]["init"] = (-2**63, 2**64 - 1)
                self.cells[key] = (-2**63, 2**64 - 1)
        elif key[0] == "f":
            for g, n in self.initlists.get(key[1], ()):
                if not isinstance(g, ir.Func):
                    c = self.init_kid(g, n, key[2])
                    v = (0, 0)
                    if c is not None and c >= 0:
                        x = g.strip(g.nodes[c])
                        v = (x["v"],) * 2 if "v" in x else self.trange(g, g.ntype(x))
                    self.contrib[key]["init"] = join(self.contrib[key].get("init"), v)
            if self.contrib[key].get("init"):
                self.cells[key] = join(self.cells.get(key), self.contrib[key]["init"])
        elif key[0] == "s":
            f = self.prog.funcs[key[1]]
            self.cells[key] = join(self.cells.get(key), (0, 0))
            self.contrib[key]["init"] = (0, 0)

    def may_modify(self, f, call, fo):
        """Could this call change field/global fo (a cell key)?"""
        ts = self.prog.targets(call)
        if call["k"] == "Call" and not ts:
            # external or through a pointer: assume it can call back only through pointers
            return call.get("n") is None
        mod = self._mod.get(fo)
        if mod is None:
            w = self.fw.get(fo[1:], set()) if fo[0] == "f" else self.gw.get(fo[1], set())
            cal = self.prog.callers()
            mod, st = set(w), list(w)
            while st:
                for c in cal.get(st.pop(), ()):
                    if c not in mod:
                        mod.add(c)
                        st.append(c)
            self._mod[fo] = mod
        return any(t.usr in mod for t in ts)

    def analyse(self, f):
        usr = f.usr
        if not f.blocks or f.entry is None:
            return
        inf = self.info(f)
        need = self.need[usr]
        A = _Flow(self, f, inf, need)
        A.run()

    # -- result --------------------------------------------------------------------
    def at(self, f, idx):
        return self.obl[f.usr].get(idx)


class _Flow:
    def __init__(self, an, f, inf, need):
        self.an, self.f, self.inf, self.need = an, f, inf, need
        self.ne = an.need_expr[f.usr]
        self.fields = {}
        for p in need:
            self.fields[p] = self.cellkey(p)
        self.final = False
        self.consts = None

    def cellkey(self, p):
        c = self.f.cachebag.setdefault("pathcell", None)
        if c is None:
            c = {}
            for n in self.f.nodes:
                if n and n["k"] in ("Ref", "Member"):
                    q = self.an.fpath(self.f, n)
                    if q is None or q in c:
                        continue
                    fo = self.an.field_of(self.f, n)
                    t = self.f.ntype(n)
                    if fo:
                        c[q] = (("f",) + fo, t)
                    elif q[0] == "g":
                        c[q] = (("g", q[1]), t)
                    elif q[0] == "v":
                        v = self.f.vars[q[1]]
                        if v.get("st"):
                            c[q] = (("s", self.f.usr, q[1]), t)
                        elif q[1] in self.f.d["params"]:
                            c[q] = (("p", self.f.usr, self.f.d["params"].index(q[1])), t)
                        else:
                            c[q] = (None, t)
            self.f.cachebag["pathcell"] = c
        return c.get(p, (None, None))

    # state: dict path/("n",idx) -> interval;  a missing path means its default
    def default(self, p):
        ck, t = self.fields.get(p) or self.cellkey(p)
        rng = self.an.trange(self.f, t)
        if ck is None:
            if p[0] == "v" and len(p) == 2 and not self.f.vars[p[1]].get("cap"):
                return rng
            return rng
        if ck[0] == "p" and self.f.type(self.f.vars[p[1]]["t"])["k"] == "ref":
            return rng
        return self.an.cell(self.f, ck, rng)

    def get(self, s, p):
        if p in s:
            return s[p]
        if p[0] == "v" and p[1] in self.inf.untracked:
            ck, t = self.cellkey(p)
            return self.an.trange(self.f, t)
        return self.default(p)

    def entry(self):
        s = {}
        for cell in self.an.entry_cells.get(self.f.usr, ()):
            self.an.cell_readers[cell].add(self.f.usr)
            v = self.an.cells.get(cell)
            d = self.default(cell[2])
            s[cell[2]] = meet(v, d) if v is not None and d is not None else (v if d is None else None)
        return s

    def joins(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            if k[0] == "n":
                out[k] = join(a.get(k), b.get(k))
            elif k in a and k in b:
                out[k] = join(a[k], b[k])
            # a path missing on one side has its default there, which is what a missing entry means
            else:
                d = self.default(k)
                v = join(a.get(k, d), b.get(k, d))
                if v != d:
                    out[k] = v
        return out

    def widens(self, old, new):
        if old is None:
            return new
        out = {}
        for k, v in new.items():
            o = old.get(k)
            if o is not None and v is not None and v != o:
                w = self.an.widen(o, join(o, v))
                if k[0] != "n":
                    ck, t = self.cellkey(k)
                    r = self.an.trange(self.f, t)
                    w = (max(w[0], min(r[0], v[0])), min(w[1], max(r[1], v[1])))
                out[k] = w
            else:
                out[k] = v
        return out

    def run(self):
        f, an = self.f, self.an
        th = set(an.thresholds)
        for n in f.nodes:
            if n and isinstance(n.get("v"), int):
                v = n["v"]
                th |= {v - 1, v, v + 1}
        save, an.thresholds = an.thresholds, sorted(th)
        try:
            self._run()
        finally:
            an.thresholds = save

    def _run(self):
        f = self.f
        ins = {f.entry: self.entry()}
        outs = {}
        count = defaultdict(int)
        work = {f.entry}
        order = self.inf.num
        self.outs_c = {}
        while work:
            b = min(work, key=lambda x: order[x])
            work.discard(b)
            s = dict(ins[b])
            edges = self.block(b, s)
            for x, st in edges:
                if st is None:
                    continue
                old = ins.get(x)
                new = self.joins(old, st) if old is not None else st
                if old is not None and new == old:
                    continue
                if x in self.inf.heads:
                    count[x] += 1
                    if count[x] > 3:
                        new = self.widens(old, new)
                ins[x] = new
                work.add(x)
        # narrowing
        for _ in range(2):
            got = defaultdict(lambda: None)
            got[f.entry] = self.entry()
            acc = {}
            prev = ins
            outedges = {}
            for b in self.inf.rpo:
                if b not in prev:
                    continue
                for x, st in self.block(b, dict(prev[b])):
                    if st is not None:
                        acc[x] = self.joins(acc[x], st) if x in acc else st
            acc[f.entry] = self.joins(acc[f.entry], self.entry()) if f.entry in acc else self.entry()
            ins = acc
        self.final = True
        self.puts = {}
        obl = {}
        self.obl = obl
        for b in self.inf.rpo:
            if b in ins:
                self.block(b, dict(ins[b]))
        an = self.an
        an.obl[f.usr] = obl
        for key in an.demanded & self.written_cells():
            if key[0] in ("p", "ef"):
                continue
            an.put(key, f.usr, self.puts.get(key))
        # parameters of callees: several functions may be written
        for key, v in self.puts.items():
            if key[0] in ("p", "ef") and key in an.demanded:
                an.put(key, f.usr, v)

    def written_cells(self):
        return set(self.puts)

    def contribute(self, key, iv):
        if not self.final or iv is None:
            return
        self.puts[key] = join(self.puts.get(key), iv)

    # -- transfer -------------------------------------------------------------
    def block(self, b, s):
        f, an = self.f, self.an
        blk = f.blocks[b]
        for e in blk.get("e", ()):
            if isinstance(e, dict):
                if "init" in e and e.get("e", -1) >= 0 and f.cls:
                    key = ("f", f.cls, e["init"])
                    if key in an.demanded:
                        p = ("this", "." + e["init"])
                        x = f.nodes[e["e"]]
                        v = self.val(s, e["e"])
                        if x["k"] == "InitList" and not x.get("c"):
                            v = (0, 0)
                        if x["k"] in ("ImplicitValueInit", "ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
                            v = (0, 0)
                        self.contribute(key, v)
                        if p in self.need:
                            s[p] = v
                continue
            if self.step(s, e) is False:
                return []
        tc = blk.get("tc")
        succ = blk["s"]
        keep = self.inf.keep
        drop = [k for k in s if k[0] == "n" and k[1] not in keep]
        if tc is None:
            for k in drop:
                del s[k]
            drop = []
        if blk.get("noret"):
            return [(x, None) for x in succ if x >= 0]
        if blk.get("tk") == "SwitchStmt" and tc is not None:
            out = []
            cases = []
            for x in succ:
                if x >= 0:
                    c = f.blocks[x].get("case")
                    if c is not None and "v" in (f.nodes[c[0]] or {}):
                        cases.append(f.nodes[c[0]]["v"])
            p = an.fpath(f, an.under(f, f.nodes[tc]))
            tracked = p is not None and p in self.need
            cur = self.get(s, p) if tracked else None
            if tracked:
                t = f.ntype(f.strip(f.nodes[tc]))
            for x in succ:
                if x < 0:
                    continue
                c = f.blocks[x].get("case")
                s2 = dict(s)
                if tracked and c is not None and "v" in (f.nodes[c[0]] or {}):
                    lo = hi = f.nodes[c[0]]["v"]
                    if "caserhs" in f.blocks[x]:
                        hi = f.nodes[f.blocks[x]["caserhs"]].get("v", hi)
                    m = meet(cur, (lo, hi))
                    if m is None:
                        continue
                    s2[p] = m
                elif tracked and c is None and cur is not None:
                    lo, hi = cur
                    while lo in cases and lo <= hi:
                        lo += 1
                    while hi in cases and hi >= lo:
                        hi -= 1
                    if lo > hi:
                        continue
                    s2[p] = (lo, hi)
                for k in drop:
                    s2.pop(k, None)
                out.append((x, s2))
            return out
        if tc is not None and tc >= 0 and len(succ) == 2 and blk.get("tk") not in ("CXXTryStmt", "IndirectGotoStmt") and not blk.get("tdb"):
            out = []
            for x, truth in ((succ[0], True), (succ[1], False)):
                if x < 0:
                    continue
                s2 = self.refine(dict(s), tc, truth)
                if s2 is not None:
                    for k in drop:
                        s2.pop(k, None)
                    out.append((x, s2))
            return out
        for k in drop:
            s.pop(k, None)
        return [(x, dict(s)) for x in succ if x >= 0]

    def set(self, s, p, iv, node):
        """Assignment to a path."""
        an, f = self.an, self.f
        ck, t = self.cellkey(p)
        if ck is not None and ck[0] in ("f", "g", "s"):
            self.contribute(ck, iv)
            if ck[0] == "f":
                for q in self.need:
                    if q != p and self.fields[q][0] == ck:
                        s[q] = join(self.get(s, q), iv)
        if p in self.need:
            s[p] = iv
        self.kill_prefix(s, p)

    def kill_prefix(self, s, p):
        for q in [q for q in s if len(q) > len(p) and q[:len(p)] == p]:
            s.pop(q, None)

    def step(self, s, i):
        f, an = self.f, self.an
        n = f.nodes[i]
        if n is None:
            return
        k = n["k"]
        if k == "Asg":
            l = f.kid(n, 0)
            p = an.fpath(f, l)
            if n["op"] == "=":
                iv = self.val(s, n["c"][1]) if (p and (p in self.need or self.cellkey(p)[0] in an.demanded)) or i in self.ne else None
                t = f.ntype(f.strip(l)) if l else None
                if p:
                    if iv is not None:
                        iv = self.conv(iv, t)
                        self.set(s, p, iv, n)
                    elif p in self.need and iv is None:
                        return False   # the right side is unreachable so far (nothing known yet)
                    else:
                        self.kill_prefix(s, p)
                else:
                    q = f.path(l)
                    if q:
                        self.kill_all(s, q)
                if i in self.ne and iv is not None:
                    s[("n", i)] = iv
            elif p:
                if p in self.need or self.cellkey(p)[0] in an.demanded:
                    a, b2 = self.get(s, p), self.val(s, n["c"][1])
                    t = f.ntype(f.strip(l))
                    iv = self.arith(n["op"][:-1], a, b2, t)
                    if iv is None:
                        return False
                    self.set(s, p, iv, n)
                    if i in self.ne:
                        s[("n", i)] = iv
        elif k == "Un" and n["op"] in ("++", "--"):
            p = an.fpath(f, f.kid(n, 0))
            if p and (p in self.need or self.cellkey(p)[0] in an.demanded):
                a = self.get(s, p)
                if a is None:
                    return False
                t = f.ntype(f.strip(f.kid(n, 0)))
                d = 1 if n["op"] == "++" else -1
                iv = self.conv((a[0] + d, a[1] + d), t)
                self.set(s, p, iv, n)
                s[("n", i)] = a if n.get("post") else iv
        elif k == "DeclStmt":
            for d in n["ds"]:
                p = ("v", d["v"])
                if f.vars[d["v"]].get("st"):
                    if p in self.need:
                        self.contribute(("s", f.usr, d["v"]), self.val(s, d["i"]) if d["i"] >= 0 else (0, 0))
                    continue
                self.kill_prefix(s, p)
                if p in self.need:
                    if d["i"] >= 0:
                        iv = self.val(s, d["i"])
                        if iv is None:
                            return False
                        t = f.type(f.vars[d["v"]]["t"])
                        s[p] = self.conv(iv, t)
                    else:
                        s.pop(p, None)
        elif k in ("Call", "Construct"):
            self.call(s, i, n)
        elif k == "Return":
            if ("r", f.usr) in an.demanded and n.get("c"):
                self.contribute(("r", f.usr), self.val(s, n["c"][0]))
        elif k == "InitList" and f.ntype(n)["k"] == "rec":
            r = an.prog.records.get(f.ntype(n)["r"])
            if r is not None:
                for j, m in enumerate(r.fields):
                    key = ("f", r.name, m)
                    if key in an.demanded:
                        c = n.get("c", ())
                        self.contribute(key, self.val(s, c[j]) if j < len(c) and c[j] >= 0 else (0, 0))
        if i in self.ne:
            if k not in ("Asg",) and not (k == "Un" and n["op"] in ("++", "--")):
                v = self.raw(s, n, i)
                if v is not None:
                    s[("n", i)] = v
        if self.final and i in an.watch[f.usr]:
            self.obl[i] = join(self.obl.get(i), self.val(s, i))

    def kill_all(self, s, q):
        for x in [x for x in s if x[0] != "n" and len(x) > len(q) and x[:len(q)] == q]:
            s.pop(x, None)

    def call(self, s, i, n):
        f, an = self.f, self.an
        # arguments feed parameter cells
        for t in an.prog.targets(n):
            for j in range(len(t.d["params"])):
                key = ("p", t.usr, j)
                if key in an.demanded and not an.open_params(t):
                    c = an.arg(n, t, j)
                    if c is not None and c >= 0:
                        v = self.val(s, c)
                        if v is not None:
                            v = an.fit(v, an.trange(t, t.type(t.vars[t.d["params"][j]]["t"])), False)
                        self.contribute(key, v)
                    else:
                        self.contribute(key, an.trange(t, t.type(t.vars[t.d["params"][j]]["t"])))
            for cell in an.entry_cells.get(t.usr, ()):
                p = an.caller_path(f, n, cell[2])
                ck = cell[3]
                if p is not None and p in self.need:
                    v = self.get(s, p)
                elif ck in an.demanded:
                    rng = (-2**63, 2**64 - 1)
                    v = an.cell(f, ck, rng)
                else:
                    v = (-2**63, 2**64 - 1)
                self.contribute(cell, v)
        # outputs
        om = an.out_models.get(n.get("n", "").rsplit("::", 1)[-1])
        for j, p, c in self.inf.addr_args.get(i, ()):
            ck, t = self.cellkey(p)
            rng = an.trange(f, t)
            iv = rng
            if om and j in om:
                iv = meet(om[j](self, s, n), rng) or rng
            if p in self.need or ck in an.demanded:
                self.set(s, p, iv, n)
        # fields a callee may change
        if n["k"] == "Call" or an.prog.targets(n):
            for q in list(s):
                if q[0] == "n":
                    continue
                ck = self.fields.get(q, (None, None))[0]
                if ck is not None and ck[0] in ("f", "g") and an.may_modify(f, n, ck):
                    s.pop(q, None)

    # -- values -------------------------------------------------------------
    def conv(self, iv, t):
        if iv is None or t is None:
            return iv
        if t["k"] == "ref":
            t = self.f.type(t.get("e", -1))
        if t["k"] == "int":
            return self.an.fit(iv, self.an.trange(self.f, t), bool(t.get("u")))
        if t["k"] == "bool":
            return meet(iv, (0, 1)) or (0, 1)
        return iv

    def val(self, s, i):
        f = self.f
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        if n is None:
            return None
        if ("n", i) in s:
            v = s[("n", i)]
        else:
            v = self.raw(s, n, i)
        if "bw" in n and v is not None and f.ntype(n).get("u"):
            v = meet(v, (0, 2**n["bw"] - 1)) or (0, 2**n["bw"] - 1)
        ct = n.get("ct")
        if ct is not None and ct >= 0 and v is not None:
            v = self.conv(v, f.type(ct))
        return v

    def raw(self, s, n, i):
        f, an = self.f, self.an
        k = n["k"]
        t = f.ntype(n)
        if isinstance(n.get("v"), int) and k not in ("DeclStmt",):
            return (n["v"], n["v"])
        rng = an.trange(f, t)
        p = an.fpath(f, n) if k in ("Ref", "Member") else None
        if p is not None and p in self.need:
            return self.get(s, p)
        if k in ("Cast", "CXXFunctionalCastExpr") and n.get("c"):
            c = f.nodes[n["c"][0]]
            ct = f.ntype(c)
            if ct["k"] in INT_KINDS or ct["k"] == "ref":
                return self.conv(self.val(s, n["c"][0]), t)
            return rng
        if k == "InitList" and len(n.get("c", ())) == 1 and t["k"] in INT_KINDS:
            return self.conv(self.val(s, n["c"][0]), t)
        if k == "InitList" and not n.get("c") and t["k"] in INT_KINDS:
            return (0, 0)
        if k == "Paren" and n.get("c"):
            return self.val(s, n["c"][0])
        if k == "Bin":
            op = n["op"]
            if op == ",":
                return self.val(s, n["c"][1])
            if op in ("<", "<=", ">", ">=", "==", "!=", "&&", "||"):
                return (0, 1)
            if f.ntype(f.kid(n, 0))["k"] in INT_KINDS and f.ntype(f.kid(n, 1))["k"] in INT_KINDS:
                return self.arith(op, self.val(s, n["c"][0]), self.val(s, n["c"][1]), t)
            return rng
        if k == "Un":
            if n["op"] == "!":
                return (0, 1)
            if n["op"] == "-":
                v = self.val(s, n["c"][0])
                return None if v is None else self.conv((-v[1], -v[0]), t)
            if n["op"] == "+":
                return self.val(s, n["c"][0])
            return rng
        if k == "Cond":
            a, b = n["c"][1], n["c"][2]
            va = s.get(("n", a)) if a >= 0 else None
            vb = s.get(("n", b)) if b >= 0 else None
            if va is None and vb is None:
                va, vb = self.val(s, a), self.val(s, b)
            elif va is None and not self.has_elem(a):
                va = self.val(s, a)
            elif vb is None and not self.has_elem(b):
                vb = self.val(s, b)
            return self.conv(join(va, vb), t)
        if k == "Asg" and n["op"] == "=":
            return self.val(s, n["c"][1])
        if k == "Call":
            nm = n.get("n", "")
            mdl = an.ret_models.get(nm) or an.ret_models.get(nm.rsplit("::", 1)[-1])
            if mdl:
                v = mdl(self, s, n)
                return rng if v is None else self.conv(v, t)
            ts = an.prog.targets(n)
            if ts and n.get("f") in an.prog.funcs or ts:
                out = None
                for x in ts:
                    if x.has("nocfg") or not x.blocks:
                        return rng
                    out = join(out, an.cell(f, ("r", x.usr), rng))
                return out
            return rng
        if k == "Index":
            b = f.strip(f.kid(n, 0))
            if b is not None and b["k"] in ("Ref",) and b.get("dk") == "g":
                g = an.gvars.get(b["n"])
                if g is not None and g.d.get("i", -1) >= 0 and b["n"] not in an.gw:
                    il = g.nodes[g.d["i"]]
                    if il["k"] == "InitList":
                        vs = [g.strip(x).get("v") for x in g.kids(il)]
                        if vs and all(isinstance(x, int) for x in vs):
                            tn = f.ntype(b).get("n", len(vs))
                            if tn > len(vs):
                                vs.append(0)
                            return (min(vs), max(vs))
        return rng

    def has_elem(self, i):
        el = self.f.cachebag.get("elems")
        if el is None:
            el = set()
            for b in self.f.blocks.values():
                for e in b.get("e", ()):
                    if not isinstance(e, dict):
                        el.add(e)
            self.f.cachebag["elems"] = el
        return i in el

    def arith(self, op, a, b, t):
        if a is None or b is None:
            return None
        an = self.an
        rng = an.trange(self.f, t)
        if op == "+":
            r = (a[0] + b[0], a[1] + b[1])
        elif op == "-":
            r = (a[0] - b[1], a[1] - b[0])
        elif op == "*":
            x = [p * q for p in a for q in b]
            r = (min(x), max(x))
        elif op == "/":
            if b[0] <= 0 <= b[1]:
                m = max(abs(a[0]), abs(a[1]))
                r = (0 if a[0] >= 0 and b[0] >= 0 else -m, m)
            else:
                q = lambda p, d: abs(p) // abs(d) * (1 if (p >= 0) == (d > 0) else -1)
                x = [q(p, d) for p in a for d in b]
                r = (min(x), max(x))
        elif op == "%":
            m = max(abs(b[0]), abs(b[1]))
            if m == 0:
                return rng
            hi = min(m - 1, max(a[1], 0))
            lo = max(-(m - 1), min(a[0], 0))
            r = (lo, hi)
        elif op == "&":
            if a[0] >= 0 and b[0] >= 0:
                r = (0, min(a[1], b[1]))
            elif b[0] >= 0:
                r = (0, b[1])
            elif a[0] >= 0:
                r = (0, a[1])
            else:
                r = rng
        elif op in ("|", "^"):
            if a[0] >= 0 and b[0] >= 0:
                r = (max(a[0], b[0]) if op == "|" else 0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
            else:
                r = rng
        elif op == ">>":
            if a[0] >= 0 and 0 <= b[0] and b[1] < 64:
                r = (a[0] >> b[1], a[1] >> b[0])
            else:
                r = rng
        elif op == "<<":
            if a[0] >= 0 and 0 <= b[0] and b[1] < 64:
                r = (a[0] << b[0], a[1] << b[1])
            else:
                r = rng
        else:
            return rng
        return self.conv(r, t) if t["k"] in INT_KINDS else r

    # -- conditions -----------------------------------------------------------
    NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
    SW = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}

    def refine(self, s, i, truth):
        f = self.f
        n = f.nodes[i]
        while n["k"] in ("Cast", "Paren") and n.get("c"):
            i = n["c"][0]
            n = f.nodes[i]
        if isinstance(n.get("v"), int):
            return s if bool(n["v"]) == truth else None
        if n["k"] == "Un" and n["op"] == "!":
            return self.refine(s, n["c"][0], not truth)
        if n["k"] == "Bin" and n["op"] in self.NEG:
            op = n["op"] if truth else self.NEG[n["op"]]
            l, r = n["c"]
            tl, tr = f.ntype(f.nodes[l]), f.ntype(f.nodes[r])
            if tl["k"] not in INT_KINDS and tl["k"] != "ref" or tr["k"] not in INT_KINDS and tr["k"] != "ref":
                return s
            vl, vr = self.val(s, l), self.val(s, r)
            pl, pr = self.target(l), self.target(r)
            if pl is None and pr is None:
                return s
            if vl is None or vr is None:
                return None if (l in self.ne and r in self.ne) else s
            uns = self.unsigned_cmp(l, r)
            if pl is not None:
                if self.narrow(s, pl, vl, op, vr, uns) is None:
                    return None
            if pr is not None:
                if self.narrow(s, pr, vr, self.SW[op], vl, uns) is None:
                    return None
            return s
        if n["k"] == "Bin" and n["op"] == "&&" and truth or n["k"] == "Bin" and n["op"] == "||" and not truth:
            s = self.refine(s, n["c"][0], truth)
            return None if s is None else self.refine(s, n["c"][1], truth)
        if n["k"] == "Bin" and n["op"] == ",":
            return self.refine(s, n["c"][1], truth)
        p = self.target(i)
        if p is not None:
            v = self.val(s, i)
            if v is None:
                return None
            return s if self.narrow(s, p, v, "!=" if truth else "==", (0, 0), False) is not None else None
        return s

    def target(self, i):
        """(path, shift, node idx of the inc/assignment or None): value of node i = path value + shift."""
        f = self.f
        n = f.strip(f.nodes[i])
        if n is None:
            return None
        sh = 0
        if n["k"] == "Un" and n["op"] in ("++", "--"):
            if n.get("post"):
                sh = -1 if n["op"] == "++" else 1
            q = f.kid(n, 0)
        elif n["k"] == "Asg":
            q = f.kid(n, 0)
        elif n["k"] == "Bin" and n["op"] in ("+", "-") and isinstance(f.kid(n, 1).get("v"), int):
            sh = f.kid(n, 1)["v"] * (1 if n["op"] == "+" else -1)
            q = f.kid(n, 0)
        else:
            q = n
        p = self.an.fpath(f, q)
        if p is None or p not in self.need:
            return None
        if p[0] == "v" and p[1] in self.inf.untracked:
            return None
        return (p, sh)

    def unsigned_cmp(self, l, r):
        f = self.f
        def it(i):
            n = f.nodes[i]
            t = f.type(n["ct"]) if n.get("ct", -1) is not None and n.get("ct", -1) >= 0 else f.ntype(n)
            if t["k"] == "ref":
                t = f.type(t.get("e", -1))
            return t
        a, b = it(l), it(r)
        za, zb = max(a.get("z", 4), 4), max(b.get("z", 4), 4)
        ua = a.get("u") and a.get("z", 4) >= 4
        ub = b.get("u") and b.get("z", 4) >= 4
        z = max(za, zb)
        return bool((ua and za == z) or (ub and zb == z))

    def narrow(self, s, tgt, v, op, o, uns):
        p, sh = tgt
        if uns and sh < 0 and op in (">", ">=", "!="):
            cur = self.get(s, p)
            if cur is None or cur[0] + sh < 0:
                return s    # the subtraction may wrap
        if uns:
            if o[0] < 0:
                return s
            if v[0] < 0:
                if op in ("<", "<=", "==") and o[1] < 2**31:
                    v = meet(v, (0, v[1]))
                    if v is None:
                        return None
                else:
                    return s
        if op == "<":
            nv = meet(v, (-2**70, o[1] - 1))
        elif op == "<=":
            nv = meet(v, (-2**70, o[1]))
        elif op == ">":
            nv = meet(v, (o[0] + 1, 2**70))
        elif op == ">=":
            nv = meet(v, (o[0], 2**70))
        elif op == "==":
            nv = meet(v, o)
        else:
            nv = v
            if o[0] == o[1]:
                if nv[0] == o[0]:
                    nv = (nv[0] + 1, nv[1])
                if nv[0] <= nv[1] and nv[1] == o[0]:
                    nv = (nv[0], nv[1] - 1)
                if nv[0] > nv[1]:
                    nv = None
        if nv is None:
            return None
        new = (nv[0] - sh, nv[1] - sh)
        cur = self.get(s, p)
        if sh == 0 and cur is not None:
            new = meet(new, cur) or new
        s[p] = new
        return s


# -- models -----------------------------------------------------------------------
def _args(fl, s, n):
    return [fl.val(s, c) if c >= 0 else None for c in n.get("c", ())]


def m_min(fl, s, n):
    a = _args(fl, s, n)
    if len(a) == 2 and a[0] and a[1]:
        return (min(a[0][0], a[1][0]), min(a[0][1], a[1][1]))


def m_max(fl, s, n):
    a = _args(fl, s, n)
    if len(a) == 2 and a[0] and a[1]:
        return (max(a[0][0], a[1][0]), max(a[0][1], a[1][1]))


def m_clamp(fl, s, n):
    a = _args(fl, s, n)
    if len(a) == 3 and all(a):
        lo = (max(a[0][0], a[1][0]))
        return (a[1][0], a[2][1])


def upto(argi, off=0):
    def m(fl, s, n):
        a = _args(fl, s, n)
        if argi < len(a) and a[argi]:
            return (0, max(a[argi][1] + off, 0))
    return m


def inout(argi, off=0):
    """The size variable passed by address comes back no larger than it was (plus off)."""
    def m(fl, s, n):
        f = fl.f
        a = f.strip(f.nodes[n["c"][argi]])
        if a["k"] == "Un" and a["op"] == "&":
            p = fl.an.fpath(f, f.kid(a, 0))
            if p is not None:
                v = fl.get(s, p)
                if v is not None:
                    return (0, max(v[1] + off, 0))
        return (0, 2**32 - 1)
    return m


RET_MODELS = {"min": m_min, "max": m_max, "std::min": m_min, "std::max": m_max, "clamp": m_clamp,
              "GetModuleFileNameW": upto(2), "to_utf8": upto(1), "to_utf16": upto(1), "GetCurrentDirectoryW_": upto(0), "GetKeyNameTextW": upto(2)}
OUT_MODELS = {"RegEnumKeyExW": {3: inout(3, -1)}, "ReadConsoleOutputCharacterW": {4: upto(2)}, "ReadConsoleOutputAttribute": {4: upto(2)}, "ReadFile": {3: upto(2)}}
FIELD_MODELS = {("_SYSTEMTIME", "wDayOfWeek"): (0, 6), ("SYSTEMTIME", "wDayOfWeek"): (0, 6)}
