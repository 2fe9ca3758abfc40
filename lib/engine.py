"""Path-sensitive abstract interpretation of one function (with inlining of
relevant callees) over the clang CFG dumped by tool/facts.cpp.

Values are terms:
  ("c", int)                 constant (null pointers and booleans too)
  ("addr", loc)              address of a location
  ("str", fidx, node)        string literal
  ("s", fidx, node, depth[, tag])   opaque value created at a node
  ("in", loc, epoch)         the value a location had when it was last unknown
  ("cmp", op, a, b) ("not", a) ("op", op, a, b)
Locations are tuples: ("v", depth, idx, ...), ("g", name, ...), ("d", term, ...),
("this", ...), ("t", depth, node, ...) followed by ".field" / "[k]" components.
"""
import sys
from collections import defaultdict, deque

sys.setrecursionlimit(20000)

NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
CMP = set(NEG)
TEMPK = ("Call", "Construct", "New", "Asg", "Cond", "Lambda", "InitList")
INF = float("inf")
TOP = (-INF, INF, frozenset())


def C(v):
    return ("c", int(v))


def truthy(t):
    if t[0] == "c":
        return t[1] != 0
    if t[0] in ("addr", "str"):
        return True
    return None


class State:
    __slots__ = ("env", "cons", "temps", "cl", "kills")

    def __init__(self, env=None, cons=None, temps=None, cl=None, kills=None):
        self.env = env if env is not None else {}
        self.cons = cons if cons is not None else {}
        self.temps = temps if temps is not None else {}
        self.kills = kills if kills is not None else {}
        self.cl = cl

    def copy(self):
        return State(dict(self.env), dict(self.cons), dict(self.temps), self.cl, dict(self.kills))

    def key(self):
        return (self.cl, frozenset(self.env.items()), frozenset(self.cons.items()),
                frozenset(self.temps.items()), frozenset(self.kills.items()))


def term_syms(t, out):
    k = t[0]
    if k in ("s", "in", "str"):
        out.add(t)
        if k == "in":
            loc_syms(t[1], out)
    elif k == "addr":
        loc_syms(t[1], out)
    elif k == "cmp" or k == "op":
        term_syms(t[2], out)
        term_syms(t[3], out)
    elif k == "not":
        term_syms(t[1], out)


def loc_syms(l, out):
    if l[0] == "d":
        term_syms(l[1], out)


def rename_term(t, a, b):
    if t == a:
        return b
    k = t[0]
    if k == "in":
        l = rename_loc(t[1], a, b)
        return t if l is t[1] else (k, l) + t[2:]
    if k == "addr":
        l = rename_loc(t[1], a, b)
        return t if l is t[1] else (k, l)
    if k in ("cmp", "op"):
        return (k, t[1], rename_term(t[2], a, b), rename_term(t[3], a, b))
    if k == "not":
        return (k, rename_term(t[1], a, b))
    return t


def rename_loc(l, a, b):
    if l[0] == "d":
        n = rename_term(l[1], a, b)
        if n is not l[1] and n != l[1]:
            return ("d", n) + l[2:]
    return l


def depth_of(t):
    k = t[0]
    if k in ("cmp", "op"):
        return 1 + max(depth_of(t[2]), depth_of(t[3]))
    if k == "not":
        return 1 + depth_of(t[1])
    if k == "addr" or k == "in":
        l = t[1]
        return 1 + (depth_of(l[1]) if l[0] == "d" else 0)
    return 0


class Client:
    """Rule specific behaviour.  Override what is needed."""
    max_depth = 4
    max_states = 48
    budget = 60000
    inline_merge = 3
    deep_arith = False

    def initial(self, it, f):
        return ()

    def call(self, fr, st, n, args):
        """Return None for the default treatment or a list of (state, term)."""
        return None

    def after_call(self, fr, st, n, args, res):
        """Sees every non-inlined call after its default treatment; may modify and return states."""
        return None

    def inline(self, f):
        return False

    def store(self, fr, st, n, loc, term):
        pass

    def load(self, fr, st, n, loc, term):
        pass

    def deref(self, fr, st, n, term):
        pass

    def ret(self, fr, st, n, term):
        """Root function return."""

    def exit(self, fr, st, term):
        """Root function exit."""

    def enter(self, fr, st):
        pass

    def elem(self, fr, st, e):
        pass

    def weak(self, st, loc):
        """Some element of an array is about to be overwritten."""

    def pre(self, fr, st, n):
        """Sees every element before its effect."""

    def rename(self, cl, a, b):
        return cl

    def gc(self, it, st):
        """Drop unreachable client facts; return True when something changed."""
        return False

    def watched(self, st):
        """Terms the client wants to hear about when an opaque call makes their last holder unknown."""
        return None

    def lost(self, fr, st, n, terms):
        pass

    def live_terms(self, cl):
        """Terms mentioned by the client state."""
        return ()

    def group(self, st):
        """States are joined only within equal groups."""
        return st.cl

    def join_cl(self, a, b):
        return a

    def branch(self, fr, st, node, truth):
        """Called after a branch has been taken; may return False to prune."""
        return True


class Frame:
    __slots__ = ("it", "f", "depth", "this", "alias", "call", "parent", "cur", "bag", "ctx")

    def __init__(self, it, f, depth, this=None, alias=None, parent=None, call=None):
        self.it, self.f, self.depth, self.this = it, f, depth, this
        self.alias = alias or {}
        self.parent, self.call = parent, call
        self.cur = None
        self.bag = {}
        self.ctx = 0
        if parent is not None:
            ci = info(parent.f).idx.get(id(call))
            if ci is None:
                ci = ("x", call.get("f"), call.get("l"))
            self.ctx = it.ctxs.setdefault((parent.ctx, it.fid(parent.f), ci), len(it.ctxs) + 1)
        if f.d.get("ctor"):
            for b in f.blocks.values():
                for e in b.get("e", ()):
                    if isinstance(e, dict) and e.get("e", -1) >= 0 and ("init" in e or "initbase" in e):
                        x = f.strip(f.nodes[e["e"]])
                        if x is not None and x["k"] == "Construct":
                            base = this or ("this",)
                            self.bag[id(x)] = base + (f.prog.fcomp(f.cls, e["init"]),) if "init" in e else base

    def stack(self):
        out, x = [], self
        while x is not None:
            out.append(x.f.name)
            x = x.parent
        return list(reversed(out))


class Info:
    """Per-function precomputed facts."""

    def __init__(self, f):
        self.f = f
        nodes = f.nodes
        self.addr = set()        # address-taken / reference-bound / captured variables
        self.ctor_target = {}
        for i, n in enumerate(nodes):
            if not n:
                continue
            if n["k"] == "Un" and n["op"] == "&":
                self._taken(n["c"][0])
            elif n["k"] == "Lambda":
                for cp in n.get("caps", ()):
                    if "v" in cp and cp.get("ref"):
                        self.addr.add(cp["v"])
            elif n["k"] == "DeclStmt":
                for d in n["ds"]:
                    if d["i"] >= 0:
                        vt = f.vtype(d["v"])
                        if vt["k"] == "ref" or vt["s"].endswith("&"):
                            self._taken(d["i"])
                        x = f.nodes[d["i"]]
                        while x is not None and x["k"] in ("Cast", "CXXFunctionalCastExpr") and x.get("c"):
                            x = f.kid(x, 0)
                        if x is not None and x["k"] == "Construct":
                            self.ctor_target[id(x)] = ("v", d["v"])
            elif n["k"] in ("Call", "Construct"):
                for c in n.get("c", ()):
                    if c >= 0:
                        t = f.ntype(nodes[c])
                        if t["k"] in ("rec", "record") or nodes[c].get("k") == "Ref":
                            # may be bound to a reference parameter
                            self._taken(c, weak=True)
        self.idx = {id(n): i for i, n in enumerate(nodes) if n}
        self.deepcache = {}
        self._live()

    def _taken(self, i, weak=False):
        n = self.f.nodes[i]
        while n is not None:
            if n["k"] == "Ref":
                if n.get("dk") == "v" and not weak:
                    self.addr.add(n["d"])
                return
            if n["k"] == "Member" and not n.get("arrow") and n.get("c"):
                n = self.f.kid(n, 0)
            elif n["k"] in ("Cast", "Index") and n.get("c"):
                n = self.f.kid(n, 0)
            else:
                return

    def tdeep(self, i):
        """temp nodes and variables used when node i is evaluated"""
        r = self.deepcache.get(i)
        if r is None:
            f = self.f
            ts, vs = set(), set()
            for x in f.deep(f.nodes[i]):
                xi = self.idx[id(x)]
                if x["k"] in TEMPK or (x["k"] == "Un" and x["op"] in ("++", "--")):
                    ts.add(xi)
                if x["k"] == "Bin" and x["op"] in ("&&", "||"):
                    ts.add(xi)
                if x["k"] == "Ref" and x.get("dk") == "v":
                    vs.add(x["d"])
                if x["k"] == "Lambda":
                    for cp in x.get("caps", ()):
                        if "v" in cp:
                            vs.add(cp["v"])
            r = self.deepcache[i] = (ts, vs)
        return r

    def _live(self):
        f = self.f
        use, defs = {}, {}
        for b in f.blocks.values():
            u, d = set(), set()
            for e in b.get("e", ()):
                if isinstance(e, int):
                    if e < 0:
                        continue
                    ts, vs = self.tdeep(e)
                    for t in ts:
                        if t != e and ("t", t) not in d:
                            u.add(("t", t))
                    for v in vs:
                        if ("v", v) not in d:
                            u.add(("v", v))
                    d.add(("t", e))
                    n = f.nodes[e]
                    if n["k"] == "Asg" and n["op"] == "=":
                        l = f.kid(n, 0)
                else:
                    if "dtorvar" in e:
                        u.add(("v", e["dtorvar"]))
                    if e.get("e", -1) is not None and e.get("e", -1) >= 0:
                        ts, vs = self.tdeep(e["e"])
                        for t in ts:
                            if ("t", t) not in d:
                                u.add(("t", t))
                        for v in vs:
                            u.add(("v", v))
            if "tc" in b and b["tc"] >= 0:
                ts, vs = self.tdeep(b["tc"])
                for t in ts:
                    if ("t", t) not in d:
                        u.add(("t", t))
                for v in vs:
                    u.add(("v", v))
            use[b["i"]], defs[b["i"]] = u, {x for x in d if x[0] == "t"}
        live = {b: set(use[b]) for b in use}
        work = deque(sorted(use))
        preds = f.preds()
        while work:
            b = work.popleft()
            for p in preds.get(b, ()):
                new = (live[b] - defs[p]) - live[p]
                if new:
                    live[p] |= new
                    work.append(p)
        self.live = live

        # loop heads: targets of back edges in DFS
        heads, color, st = set(), {}, [(f.entry, iter([s for s in f.blocks[f.entry]["s"] if s >= 0]))] if f.entry is not None else []
        if st:
            color[f.entry] = 1
        while st:
            b, itr = st[-1]
            for s in itr:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter([x for x in f.blocks[s]["s"] if x >= 0])))
                    break
            else:
                color[b] = 2
                st.pop()
        self.heads = heads
        # reverse postorder for worklist priority
        order, seen = [], set()
        def dfs(b):
            stack = [(b, iter([s for s in f.blocks[b]["s"] if s >= 0]))]
            seen.add(b)
            while stack:
                x, itr = stack[-1]
                for s in itr:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter([y for y in f.blocks[s]["s"] if y >= 0])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        if f.entry is not None:
            dfs(f.entry)
        self.rpo = {b: i for i, b in enumerate(reversed(order))}


def info(f):
    r = f.cachebag.get("info")
    if r is None:
        r = f.cachebag["info"] = Info(f)
    return r


def cl_gc(it, st, used):
    """Lets the client forget facts about values nothing can reach any more."""
    r = it.client.gc(it, st)
    if r:
        return it.used(st)
    return None


def is_leaf(prog, f):
    r = f.cachebag.get("leaf")
    if r is None:
        f.cachebag["leaf"] = False
        r = len(f.blocks) <= 8 and f.file.startswith("clink/") and not (f.cls or "").startswith(("str_", "wstr", "str<")) and bool(f.blocks)
        if r:
            for n in f.nodes:
                if n and n["k"] in ("Call", "Construct", "New", "Delete", "Lambda"):
                    c = prog.funcs.get(n.get("f"))
                    if n["k"] != "Call" or c is None or n.get("virt") or not is_leaf(prog, c):
                        r = False
                        break
        f.cachebag["leaf"] = r
    return r


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, client):
        self.retired = None
        self.prog, self.client = prog, client
        self.fidx = {}
        self.ctxs = {}
        self.steps = 0
        self.joined = False
        self.overrun = []
        self._mods = None
        self.kill_done = set()
        self.trace_cur = None

    # ------------------------------------------------------------------
    def fid(self, f):
        i = self.fidx.get(f.usr)
        if i is None:
            i = self.fidx[f.usr] = len(self.fidx)
        return i

    # --- modification summaries -----------------------------------------
    def mods(self, f):
        """(field names, global names) that f may write, transitively."""
        if self._mods is None:
            self._mods = mod_summaries(self.prog)
        return self._mods.get(f.usr, (frozenset(), frozenset()))

    # --- state helpers -----------------------------------------------------
    def epoch(self, st, loc):
        if not st.kills:
            return ()
        e = []
        for k, v in st.kills.items():
            if k[0] == "#p":
                p = k[1]
                if loc[:len(p)] == p:
                    e.append(v)
            else:  # ("#f", ".name")
                if k[1] in loc:
                    e.append(v)
        return tuple(sorted(set(e), key=repr)) if len(e) > 1 else tuple(e)

    def read(self, st, loc):
        t = st.env.get(loc)
        if t is not None:
            return t
        return ("in", loc, self.epoch(st, loc))

    def age_in(self, st, why, pred):
        """Values forgotten by an earlier execution of the same node are not the ones forgotten now."""
        if why not in self.kill_done:
            self.kill_done.add(why)
            return
        u = self.used(st)
        u.update(st.cons)
        for s in list(u):
            if s[0] == "in" and pred(s[1]) and why in s[2] and "old" not in s[2]:
                b = ("in", s[1], ("old",) + s[2])
                st.env = {rename_loc(p, s, b): rename_term(t, s, b) for p, t in st.env.items()}
                st.temps = {k: rename_term(t, s, b) for k, t in st.temps.items()}
                st.cons = {rename_term(k, s, b): v for k, v in st.cons.items()}
                st.cl = self.client.rename(st.cl, s, b)

    def kill(self, st, loc, why):
        """Forgets everything stored at or below loc."""
        n = len(loc)
        self.age_in(st, why, lambda l: l[:n] == loc)
        for p in [p for p in st.env if p[:n] == loc]:
            del st.env[p]
        for k in [k for k in st.kills if k[0] == "#p" and k[1][:n] == loc]:
            del st.kills[k]
        st.kills[("#p", loc)] = why

    def frame_at(self, fr, depth):
        while fr is not None and fr.depth != depth:
            fr = fr.parent
        return fr

    def private(self, fr, p, passed):
        """Location of a local object that the callee cannot reach."""
        if p[0] not in ("v", "t"):
            return False
        if any(p[:len(q)] == q or q[:len(p)] == p for q in passed):
            return False
        if p[0] == "t":
            return True
        x = self.frame_at(fr, p[1])
        return x is not None and p[2] not in info(x.f).addr

    def kill_field(self, fr, st, fld, why, passed):
        self.age_in(st, why, lambda l: fld in l)
        for p in [p for p in st.env if fld in p]:
            if not self.private(fr, p, passed):
                del st.env[p]
        # constraints on private locations survive through an explicit entry
        for s in list(st.cons):
            if s[0] == "in" and fld in s[1] and s[1] not in st.env and self.private(fr, s[1], passed) and s[2] == self.epoch(st, s[1]):
                st.env[s[1]] = s
        st.kills[("#f", fld)] = why

    def write(self, st, loc, term, why):
        n = len(loc)
        if loc[-1] == "[]":
            self.client.weak(st, loc)
        if n > 1:
            for p in [p for p in st.env if p[:n] == loc and len(p) > n]:
                del st.env[p]
            for k in [k for k in st.kills if k[0] == "#p" and k[1][:n] == loc and len(k[1]) > n]:
                del st.kills[k]
            if any(True for p in ()):
                pass
        # possible aliases: the same field through other pointers
        if loc[0] == "d":
            last = loc[-1]
            if isinstance(last, str):
                al = [p for p in st.env if p != loc and p[-1] == last and p[0] in ("d", "this")]
                for p in al:
                    st.env[p] = ("in", p, ("alias", why))
        elif loc[0] == "this" and len(loc) >= 2:
            last = loc[-1]
            for p in [p for p in st.env if p != loc and p[-1] == last and p[0] == "d"]:
                st.env[p] = ("in", p, ("alias", why))
        if "[]" in loc:
            i = loc.index("[]")
            pre = loc[:i]
            self.kill(st, pre, why)
            return
        st.env[loc] = term

    def used(self, st):
        out = set()
        for p, t in st.env.items():
            term_syms(t, out)
            loc_syms(p, out)
        for t in st.temps.values():
            term_syms(t, out)
        for t in self.client.live_terms(st.cl):
            term_syms(t, out)
        return out

    def fresh(self, fr, st, n, tag=None):
        s = ("s", self.fid(fr.f), info(fr.f).idx[id(n)], fr.ctx) + ((tag,) if tag is not None else ())
        self.retired = None
        self.retire(st, s)
        return s

    def renamed(self, t):
        """The name a previously read value carries after the last fresh()."""
        return rename_term(t, *self.retired) if self.retired else t

    def retire(self, st, s):
        """The value s is about to be re-created: rename what is left of the old one."""
        u = self.used(st)
        u.update(st.cons)
        if s not in u:
            st.cons.pop(s, None)
            return
        old = ("s",) + s[1:4] + ((("old",) + ((s[4],) if len(s) > 4 else ())),)
        if old in u:
            st.cons.pop(old, None)
        st.env = {rename_loc(p, s, old): rename_term(t, s, old) for p, t in st.env.items()}
        st.temps = {k: rename_term(t, s, old) for k, t in st.temps.items()}
        st.cons = {rename_term(k, s, old): v for k, v in st.cons.items()}
        st.kills = {((k[0], rename_loc(k[1], s, old)) if k[0] == "#p" else k): v for k, v in st.kills.items()}
        st.cl = self.client.rename(st.cl, s, old)
        self.retired = (s, old)

    # --- constraints ---------------------------------------------------------
    def rng(self, st, t):
        k = t[0]
        if k == "c":
            return (t[1], t[1], frozenset())
        if k in ("addr", "str"):
            return (-INF, INF, frozenset((0,)))
        return st.cons.get(t, TOP)

    def const_of(self, st, t):
        lo, hi, ex = self.rng(st, t)
        return lo if lo == hi else None

    def truth(self, st, t):
        """True / False / None"""
        r = truthy(t)
        if r is not None:
            return r
        k = t[0]
        if k == "not":
            r = self.truth(st, t[1])
            return None if r is None else not r
        if k == "cmp":
            r = self.cmp(st, t[1], t[2], t[3])
            if r is not None:
                return r
        lo, hi, ex = self.rng(st, t)
        if lo == hi == 0:
            return False
        if lo > 0 or hi < 0 or 0 in ex:
            return True
        return None

    def cmp(self, st, op, a, b):
        if a == b and a[0] != "op":
            return {"==": True, "!=": False, "<": False, ">": False, "<=": True, ">=": True}[op]
        if a[0] == "c" and b[0] != "c":
            return self.cmp(st, SWAP[op], b, a)
        la, ha, ea = self.rng(st, a)
        lb, hb, eb = self.rng(st, b)
        if op in ("==", "!="):
            eq = None
            if ha < lb or la > hb:
                eq = False
            elif la == ha and lb == hb:
                eq = la == lb
            elif lb == hb and lb in ea:
                eq = False
            elif la == ha and la in eb:
                eq = False
            elif a[0] == "addr" and b[0] == "c" and b[1] in (0, -1):
                eq = False
            if eq is None:
                # recorded relation
                for k, want in ((("cmp", "==", a, b), True), (("cmp", "==", b, a), True)):
                    r = st.cons.get(k)
                    if r is not None:
                        if r[0] == r[1] == 0:
                            eq = False
                        elif r[0] > 0 or 0 in r[2]:
                            eq = True
            if eq is None:
                return None
            return eq if op == "==" else not eq
        if op == "<":
            if ha < lb: return True
            if la >= hb: return False
        elif op == ">":
            if la > hb: return True
            if ha <= lb: return False
        elif op == "<=":
            if ha <= lb: return True
            if la > hb: return False
        elif op == ">=":
            if la >= hb: return True
            if ha < lb: return False
        return None

    def norm(self, t):
        """comparison terms in a canonical form (== and < only, constant right)"""
        return t

    def assume(self, st, t, val):
        """Refines st in place; False when contradictory."""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        k = t[0]
        if k == "not":
            return self.assume(st, t[1], not val)
        if k == "op" and t[1] == "&&":
            if val:
                return self.assume(st, t[2], True) and self.assume(st, t[3], True)
            if self.truth(st, t[2]) is True:
                return self.assume(st, t[3], False)
            if self.truth(st, t[3]) is True:
                return self.assume(st, t[2], False)
            st.cons[t] = (0, 0, frozenset())
            return True
        if k == "op" and t[1] == "||":
            if not val:
                return self.assume(st, t[2], False) and self.assume(st, t[3], False)
            if self.truth(st, t[2]) is False:
                return self.assume(st, t[3], True)
            if self.truth(st, t[3]) is False:
                return self.assume(st, t[2], True)
            st.cons[t] = (-INF, INF, frozenset((0,)))
            return True
        if k == "cmp":
            op, a, b = t[1], t[2], t[3]
            if not val:
                op = NEG[op]
            return self.assume_cmp(st, op, a, b)
        lo, hi, ex = st.cons.get(t, TOP)
        if val:
            st.cons[t] = (lo, hi, ex | {0})
        else:
            if lo > 0 or hi < 0 or 0 in ex:
                return False
            st.cons[t] = (0, 0, frozenset())
        return True

    def assume_cmp(self, st, op, a, b):
        if a[0] == "c" and b[0] != "c":
            a, b, op = b, a, SWAP[op]
        r = self.cmp(st, op, a, b)
        if r is not None:
            return r
        cb = self.const_of(st, b)
        if cb is not None:
            # (x == c) compared with 0/1
            if a[0] in ("cmp", "not") and op in ("==", "!=") and cb in (0, 1):
                want = (cb == 1) == (op == "==")
                if cb == 0 or op == "==":
                    return self.assume(st, a, want)
            lo, hi, ex = self.rng(st, a)
            if op == "==":
                lo = hi = cb; ex = frozenset()
            elif op == "!=":
                ex = ex | {cb}
            elif op == "<":
                hi = min(hi, cb - 1)
            elif op == "<=":
                hi = min(hi, cb)
            elif op == ">":
                lo = max(lo, cb + 1)
            elif op == ">=":
                lo = max(lo, cb)
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                return False
            if a[0] in ("s", "in", "op"):
                st.cons[a] = (lo, hi, frozenset(x for x in ex if lo <= x <= hi))
            return True
        ca = self.const_of(st, a)
        if ca is not None:
            return self.assume_cmp(st, SWAP[op], b, a)
        # both symbolic: remember (in)equality
        if op == "==":
            st.cons[("cmp", "==", a, b)] = (1, 1, frozenset())
            ra, rb = self.rng(st, a), self.rng(st, b)
            m = (max(ra[0], rb[0]), min(ra[1], rb[1]), ra[2] | rb[2])
            if m[0] > m[1]:
                return False
            for x in (a, b):
                if x[0] in ("s", "in") and m != TOP:
                    st.cons[x] = m
        elif op == "!=":
            st.cons[("cmp", "==", a, b)] = (0, 0, frozenset())
        return True

    # --- expression evaluation -------------------------------------------------
    def var_loc(self, fr, v):
        a = fr.alias.get(v)
        if a is not None:
            return a
        if fr.f.vars[v].get("st"):
            return ("g", fr.f.name + "::" + fr.f.vars[v]["n"])
        if fr.f.vars[v].get("ext"):
            return ("g", fr.f.vars[v]["n"])
        if fr.f.vars[v].get("cap"):
            return ("cap", fr.depth, fr.f.vars[v]["n"])
        return ("v", fr.depth, v)

    def deref_loc(self, t):
        if t[0] == "addr":
            return t[1]
        return ("d", t)

    def loc(self, fr, st, n):
        f = fr.f
        if n is None:
            return None
        k = n["k"]
        if k == "Ref":
            if n.get("dk") == "v":
                v = n["d"]
                l = self.var_loc(fr, v)
                vt = f.vtype(v)
                if v not in fr.alias and vt["k"] == "ref":
                    t = self.read(st, l)
                    return self.deref_loc(t)
                return l
            if n.get("dk") == "g":
                return ("g", n["n"])
            return None
        if k == "Member":
            if n.get("dk") == "g":
                return ("g", n["n"])
            if n.get("dk") == "fn":
                return None
            b = f.kid(n, 0)
            if n.get("arrow"):
                t = self.value(fr, st, b)
                return self.deref_loc(t) + (self.prog.fcomp(n.get("cls"), n["m"]),)
            l = self.loc(fr, st, b)
            return None if l is None else l + (self.prog.fcomp(n.get("cls"), n["m"]),)
        if k == "Un" and n["op"] == "*":
            return self.deref_loc(self.value(fr, st, f.kid(n, 0)))
        if k == "Un" and n["op"] in ("++", "--") and not n.get("post"):
            return self.loc(fr, st, f.kid(n, 0))
        if k == "Index":
            b, i = f.kid(n, 0), f.kid(n, 1)
            if b is None:
                return None
            bt = f.ntype(b)
            it_ = self.value(fr, st, i) if i is not None else ("c", 0)
            comp = "[%d]" % it_[1] if it_[0] == "c" else "[]"
            if bt["k"] == "arr" or bt["k"] == "array":
                l = self.loc(fr, st, b)
                return None if l is None else l + (comp,)
            t = self.value(fr, st, b)
            l = self.deref_loc(t)
            if comp == "[0]" and l[0] == "d":
                return l
            return l + (comp,)
        if k in ("Cast", "CXXFunctionalCastExpr"):
            return self.loc(fr, st, f.kid(n, 0))
        if k == "Asg":
            return self.loc(fr, st, f.kid(n, 0))
        if k == "Bin" and n["op"] == ",":
            return self.loc(fr, st, f.kid(n, 1))
        if k == "Construct":
            return self.ctor_loc(fr, n)
        if k in ("Call", "Cond"):
            t = st.temps.get((fr.depth, info(f).idx[id(n)]))
            if t is None:
                return None
            tt = f.ntype(n)
            if t[0] == "addr":
                return t[1]
            return ("d", t)
        return None

    def ctor_loc(self, fr, n):
        tg = info(fr.f).ctor_target.get(id(n))
        if tg is not None:
            return self.var_loc(fr, tg[1])
        b = fr.bag.get(id(n))
        if b is not None:
            return b
        return ("t", fr.depth, info(fr.f).idx[id(n)])

    def value(self, fr, st, n):
        f = fr.f
        if n is None:
            return ("c", 0)
        if "v" in n and n["k"] not in ("Asg", "Call"):
            return ("c", n["v"])
        k = n["k"]
        if k == "Null":
            return ("c", 0)
        idx = info(f).idx[id(n)]
        if k == "Str":
            return ("str", self.fid(f), idx)
        if k == "This":
            return ("addr", fr.this or ("this",))
        t = st.temps.get((fr.depth, idx))
        if t is not None:
            return t
        if k in ("Cast", "CXXFunctionalCastExpr") and n.get("c"):
            x = self.value(fr, st, f.kid(n, 0))
            if n.get("ck") in ("IntegralToBoolean", "PointerToBoolean") or f.ntype(n)["k"] == "bool":
                if x[0] in ("s", "in", "op"):
                    return ("cmp", "!=", x, ("c", 0))
            return x
        if k == "InitList" and n.get("c") and len(n["c"]) == 1:
            return self.value(fr, st, f.kid(n, 0))
        if k in ("Ref", "Member", "Index") or (k == "Un" and n["op"] == "*"):
            if k == "Ref" and n.get("dk") == "fn":
                return ("str", "fn", n["n"])
            if k == "Member" and n.get("dk") == "fn":
                return ("str", "fn", n["n"])
            l = self.loc(fr, st, n)
            if l is None:
                return ("s", self.fid(f), idx, fr.ctx)
            tk = f.ntype(n)["k"]
            if tk in ("arr", "array"):
                return ("addr", l)
            if tk in ("rec", "record"):
                return ("in", l, ("rec",))
            return self.read(st, l)
        if k == "Un":
            op = n["op"]
            kid = f.kid(n, 0)
            if op == "&":
                l = self.loc(fr, st, kid)
                if l is None:
                    if kid is not None and kid["k"] == "Ref" and kid.get("dk") == "fn":
                        return ("str", "fn", kid["n"])
                    return ("s", self.fid(f), idx, fr.ctx)
                if l[0] == "d" and len(l) == 2:
                    return l[1]
                return ("addr", l)
            x = self.value(fr, st, kid)
            if op == "!":
                r = truthy(x)
                if r is not None:
                    return C(not r)
                if x[0] == "cmp":
                    return ("cmp", NEG[x[1]], x[2], x[3])
                return x[1] if x[0] == "not" and x[1][0] in ("cmp", "not") else ("not", x)
            if op in ("+",):
                return x
            if op in ("-", "~") and x[0] == "c":
                return C(-x[1] if op == "-" else ~x[1])
            if op == "-" and depth_of(x) < 3:
                return ("op", "-", C(0), x)
            if op in ("++", "--"):
                return self.read(st, self.loc(fr, st, kid) or ("x",))
            return ("s", self.fid(f), idx, fr.ctx)
        if k == "Bin":
            op = n["op"]
            if op == ",":
                return self.value(fr, st, f.kid(n, 1))
            a, b = self.value(fr, st, f.kid(n, 0)), self.value(fr, st, f.kid(n, 1))
            if op in CMP:
                if a[0] == "c" and b[0] != "c":
                    a, b, op = b, a, SWAP[op]
                r = self.cmp(st, op, a, b)
                if r is not None:
                    return C(r)
                if max(depth_of(a), depth_of(b)) < 4:
                    return ("cmp", op, a, b)
                return ("s", self.fid(f), idx, fr.ctx)
            if op in ("&&", "||"):
                ra, rb = self.truth(st, a), self.truth(st, b)
                if op == "&&":
                    if ra is False: return C(0)
                    if ra is True: return b if b[0] in ("c", "cmp", "not") else ("cmp", "!=", b, ("c", 0)) if rb is None else C(rb)
                    if rb is False: return C(0)
                else:
                    if ra is True: return C(1)
                    if ra is False: return b if b[0] in ("c", "cmp", "not") else ("cmp", "!=", b, ("c", 0)) if rb is None else C(rb)
                    if rb is True: return C(1)
                if max(depth_of(a), depth_of(b)) < 4:
                    return ("op", op, a, b)
                return ("s", self.fid(f), idx, fr.ctx)
            if op in ("&", "|", "-", "+") and depth_of(a) <= 1 and depth_of(b) <= 1 and a[0] != "op" and b[0] != "op":
                if op in ("&",) and (a == ("c", 0) or b == ("c", 0)):
                    return ("c", 0)
                return ("op", op, a, b)
            if op in ("-", "+") and self.client.deep_arith and depth_of(a) + depth_of(b) <= 4:
                return ("op", op, a, b)
            return ("s", self.fid(f), idx, fr.ctx)
        if k == "Asg":
            l = self.loc(fr, st, f.kid(n, 0))
            return self.read(st, l) if l is not None else ("s", self.fid(f), idx, fr.ctx)
        if k == "Cond":
            c = self.truth(st, self.value(fr, st, f.kid(n, 0)))
            if c is True:
                return self.value(fr, st, f.kid(n, 1))
            if c is False:
                return self.value(fr, st, f.kid(n, 2))
        if k == "Construct":
            l = self.ctor_loc(fr, n)
            args = n.get("c", ())
            return ("in", l, ("rec",))
        return ("s", self.fid(f), idx, fr.ctx)

    # --- element transfer ---------------------------------------------------
    def exec_elem(self, fr, st, e):
        """Returns the list of successor states."""
        cl = self.client
        f = fr.f
        if not isinstance(e, int):
            return self.exec_special(fr, st, e)
        if e < 0:
            return [st]
        n = f.nodes[e]
        fr.cur = n
        k = n["k"]
        cl.pre(fr, st, n)
        if k in ("Call",):
            return self.exec_call(fr, st, n, e)
        if k == "Construct":
            return self.exec_call(fr, st, n, e)
        if k == "Asg":
            lhs, rhs = f.kid(n, 0), f.kid(n, 1)
            l = self.loc(fr, st, lhs)
            if n["op"] == "=":
                t = self.value(fr, st, rhs)
                t = self.clamp(fr, st, n, t)
            else:
                t = self.fresh(fr, st, n)
                if n["op"] == "|=" and rhs is not None:
                    v = self.value(fr, st, rhs)
                    if v[0] == "c" and v[1] != 0:
                        st.cons[t] = (-INF, INF, frozenset((0,)))
                    elif l is not None and f.ntype(lhs)["k"] == "bool":
                        old = self.read(st, l)
                        if self.truth(st, old) is False:
                            t = v
                        elif self.truth(st, old) is True:
                            t = C(1)
                elif n["op"] == "&=" and rhs is not None and l is not None:
                    old = self.read(st, l)
                    v = self.value(fr, st, rhs)
                    if self.truth(st, old) is False or self.truth(st, v) is False:
                        t = C(0)
            if l is not None:
                cl.store(fr, st, n, l, t)
                self.write(st, l, t, self.fid(f) * 100000 + e)
            st.temps[(fr.depth, e)] = t
            return [st]
        if k == "DeclStmt":
            for d in n["ds"]:
                v = d["v"]
                if f.vars[v].get("st"):
                    if d["i"] >= 0 and f.vtype(v)["k"] not in ("rec", "arr"):
                        cl.store(fr, st, n, self.var_loc(fr, v), self.value(fr, st, f.nodes[d["i"]]))
                    continue
                l = ("v", fr.depth, v)
                if d["i"] < 0:
                    if f.vtype(v)["k"] in ("rec", "record"):
                        continue
                    self.kill(st, l, self.fid(f) * 100000 + e)
                    continue
                init = f.nodes[d["i"]]
                vt = f.vtype(v)
                if vt["k"] == "ref":
                    il = self.loc(fr, st, init)
                    st.env[l] = ("addr", il) if il is not None else self.fresh(fr, st, n, "r%d" % v)
                    continue
                if vt["k"] in ("rec", "record", "arr", "array"):
                    x = f.strip(init)
                    if x is not None and x["k"] == "InitList" and vt["k"] in ("rec", "record"):
                        self.kill(st, l, self.fid(f) * 100000 + e)
                        self.init_list(fr, st, n, x, l, vt)
                    elif x is None or x["k"] != "Construct":
                        self.copy_rec(fr, st, l, init, self.fid(f) * 100000 + e)
                    continue
                t = self.clamp(fr, st, n, self.value(fr, st, init))
                cl.store(fr, st, n, l, t)
                self.write(st, l, t, self.fid(f) * 100000 + e)
            return [st]
        if k == "Un" and n["op"] in ("++", "--"):
            kid = f.kid(n, 0)
            l = self.loc(fr, st, kid)
            if l is not None:
                old = self.read(st, l)
                new = self.fresh(fr, st, n)
                co = self.rng(st, old)
                if n["op"] == "++" and co[0] >= 0 and co[0] != -INF:
                    st.cons[new] = (1 if co[0] >= 0 else -INF, INF, frozenset())
                cl.store(fr, st, n, l, new)
                self.write(st, l, new, self.fid(f) * 100000 + e)
                st.temps[(fr.depth, e)] = old if n.get("post") else new
            return [st]
        if k == "New":
            t = self.fresh(fr, st, n)
            r = cl.call(fr, st, n, [])
            if r is not None:
                for s2, tt in r:
                    s2.temps[(fr.depth, e)] = tt
                return [s2 for s2, _ in r]
            st.cons[t] = (-INF, INF, frozenset((0,)))
            st.temps[(fr.depth, e)] = t
            # object constructed by the new expression
            for c in n.get("c", ())[1:]:
                x = f.nodes[c] if c >= 0 else None
                if x is not None and x["k"] == "Construct":
                    src = ("t", fr.depth, c)
                    for p in [p for p in st.env if p[:3] == src]:
                        st.env[("d", t) + p[3:]] = st.env.pop(p)
            return [st]
        if k == "Delete":
            r = cl.call(fr, st, n, [self.value(fr, st, f.kid(n, 0))])
            if r is not None:
                return [s for s, _ in r]
            return [st]
        if k == "Cond" or (k == "Bin" and n["op"] in ("&&", "||")):
            st.temps[(fr.depth, e)] = self.value(fr, st, n) if (fr.depth, e) not in st.temps else self._reval(fr, st, n, e)
            return [st]
        if k == "Return":
            kid = f.kid(n, 0)
            t = None
            if kid is not None:
                if f.ntype(kid)["k"] in ("rec", "record"):
                    l = self.loc(fr, st, kid)
                    st.env[("ret", fr.depth)] = ("addr", l) if l is not None else ("c", 0)
                else:
                    rt = f.type(f.d.get("ret", -1))
                    if rt["k"] == "ref":
                        l = self.loc(fr, st, kid)
                        t = ("addr", l) if l is not None and not (l[0] == "d" and len(l) == 2) else (l[1] if l else self.fresh(fr, st, n))
                    else:
                        t = self.clamp(fr, st, n, self.value(fr, st, kid))
                        if rt["k"] == "bool" and t[0] in ("s", "in", "op"):
                            t = ("cmp", "!=", t, ("c", 0))
                    st.env[("ret", fr.depth)] = t
            if fr.depth == 0:
                cl.ret(fr, st, n, t)
            return [st]
        cl.elem(fr, st, n)
        return [st]

    def _reval(self, fr, st, n, e):
        st.temps.pop((fr.depth, e), None)
        return self.value(fr, st, n)

    def clamp(self, fr, st, n, t):
        if depth_of(t) > (2 if t[0] == "in" else 5):
            return self.fresh(fr, st, n)
        return t

    def init_list(self, fr, st, n, x, l, vt):
        rec = self.prog.records.get(vt.get("r"))
        if rec is None:
            return
        names = [self.prog.fcomp(rec.name, x) for x in rec.fields]
        for i, c in enumerate(x.get("c", ())):
            if c >= 0 and i < len(names):
                v = fr.f.nodes[c]
                if fr.f.ntype(v)["k"] in ("rec", "record", "arr", "array"):
                    continue
                t = self.value(fr, st, v)
                self.client.store(fr, st, n, l + (names[i],), t)
                st.env[l + (names[i],)] = t

    def copy_rec(self, fr, st, l, init, why):
        src = self.loc(fr, st, init)
        self.kill(st, l, why)
        if src is None:
            return
        n = len(src)
        for p in [p for p in st.env if p[:n] == src and len(p) > n]:
            st.env[l + p[n:]] = st.env[p]

    def exec_special(self, fr, st, e):
        f, cl = fr.f, self.client
        if "init" in e:
            init = f.n(e["e"])
            l = (fr.this or ("this",)) + (self.prog.fcomp(f.cls, e["init"]),)
            if init is not None:
                x = f.strip(init)
                if x is not None and x["k"] == "Construct":
                    pass
                elif f.ntype(init)["k"] not in ("rec", "record", "arr", "array"):
                    t = self.value(fr, st, init)
                    cl.store(fr, st, init, l, t)
                    self.write(st, l, t, self.fid(f) * 100000)
            return [st]
        tgt = None
        if "dtorvar" in e:
            tgt = self.var_loc(fr, e["dtorvar"])
        elif "dtorfield" in e:
            tgt = (fr.this or ("this",)) + (self.prog.fcomp(f.cls, e["dtorfield"]),)
        elif "dtorbase" in e:
            tgt = fr.this or ("this",)
        elif "dtortemp" in e:
            x = f.n(e["dtortemp"])
            if x is not None:
                tgt = self.loc(fr, st, x)
        if "f" in e:
            n = {"k": "Dtor", "n": e.get("n"), "f": e["f"], "l": e.get("l", f.line), "c": []}
            fr.cur = n
            r = cl.call(fr, st, n, [("addr", tgt) if tgt else ("c", 0)])
            if r is not None:
                return [s for s, _ in r]
            callee = self.prog.funcs.get(e["f"])
            if callee is not None and cl.inline(callee) and fr.depth < cl.max_depth and callee.blocks:
                out = self.inline_call(fr, st, n, callee, [], tgt)
                if out is not None:
                    return [s for s, _ in out]
        return [st]

    # --- calls -----------------------------------------------------------------
    def arg_terms(self, fr, st, n):
        out = []
        for a in fr.f.args(n):
            if a is None:
                out.append(("c", 0))
                continue
            if fr.f.ntype(a)["k"] in ("rec", "record") and a["k"] not in ("Call",):
                l = self.loc(fr, st, a)
                out.append(("addr", l) if l is not None else ("s", self.fid(fr.f), info(fr.f).idx[id(a)], fr.ctx))
            else:
                out.append(self.value(fr, st, a))
        return out

    def exec_call(self, fr, st, n, e):
        cl, f = self.client, fr.f
        args = self.arg_terms(fr, st, n)
        r = cl.call(fr, st, n, args)
        if r is None:
            r = self.default_call(fr, st, n, args)
        for s2, t in r:
            if t is None:
                t = self.fresh(fr, s2, n)
            s2.temps[(fr.depth, e)] = t
        return [s2 for s2, _ in r]

    def obj_loc(self, fr, st, n):
        """Location of the object a method is called on."""
        o = fr.f.obj(n)
        if n["k"] == "Construct":
            return self.ctor_loc(fr, n)
        if o is None:
            return None
        tk = fr.f.ntype(o)["k"]
        if n.get("arrow") or tk == "ptr":
            if n.get("opc") and tk != "ptr":
                return self.loc(fr, st, o)
            return self.deref_loc(self.value(fr, st, o))
        return self.loc(fr, st, o)

    def default_call(self, fr, st, n, args):
        cl, f = self.client, fr.f
        callee = self.prog.funcs.get(n.get("f")) if not n.get("virt") else None
        if callee is None and n.get("virt"):
            ts = self.prog.targets(n)
            if len(ts) == 1:
                callee = ts[0]
        if callee is not None and callee.blocks and fr.depth < cl.max_depth and cl.inline(callee):
            x = fr
            while x is not None and x.f is not callee:
                x = x.parent
            if x is None:
                out = self.inline_call(fr, st, n, callee, args, self.obj_loc(fr, st, n))
                if out is not None:
                    return out
        self.havoc(fr, st, n, args)
        t = self.fresh(fr, st, n)
        r = cl.after_call(fr, st, n, args, t)
        return r if r is not None else [(st, t)]

    def havoc(self, fr, st, n, args):
        """Effects of a call whose body is not followed."""
        before = self.client.watched(st)
        if before:
            held = before & set(st.env.values())
            self.havoc_(fr, st, n, args)
            lost = held - set(st.env.values()) - set(st.temps.values())
            if lost:
                self.client.lost(fr, st, n, lost)
        else:
            self.havoc_(fr, st, n, args)

    def havoc_(self, fr, st, n, args):
        f = fr.f
        why = self.fid(f) * 100000 + info(f).idx.get(id(n), 0)
        callee = self.prog.funcs.get(n.get("f"))
        params = None
        if callee is not None:
            params = [callee.vtype(v) for v in callee.d["params"]]
            mf, mg = self.mods(callee)
            passed = []
            ol = self.obj_loc(fr, st, n) if ("o" in n or n["k"] == "Construct") else None
            if ol is not None:
                passed.append(ol)
            for i, a in enumerate(f.args(n)):
                if i < len(params) and params[i]["k"] in ("ref", "ptr") and callee.type(params[i].get("e", -1)).get("q"):
                    continue          # reachable only as const
                if i < len(args) and args[i][0] == "addr":
                    passed.append(args[i][1])
                elif a is not None and i < len(params) and params[i]["k"] == "ref":
                    l = self.loc(fr, st, a)
                    if l is not None:
                        passed.append(l)
            for fld in mf:
                if any(fld in p for p in st.env) or any(fld in s[1] for s in st.cons if s[0] == "in"):
                    self.kill_field(fr, st, fld, why, passed)
            for g in mg:
                self.kill(st, ("g", g), why)
        nodes = f.args(n)
        for i, a in enumerate(nodes):
            if a is None:
                continue
            t = args[i] if i < len(args) else None
            const = False
            byref = False
            if params is not None and i < len(params):
                pt = params[i]
                const = pt["k"] in ("ref", "ptr") and callee.type(pt.get("e", -1)).get("q")
                byref = pt["k"] == "ref"
            else:
                ct = f.type(a.get("ct", a.get("t", -1)))
                if ct["k"] == "ptr" and f.type(ct.get("e", -1)).get("q"):
                    const = True
                # unknown callee: an lvalue of scalar type may be bound to a reference only for C++ library calls
                nm = n.get("n", "")
                byref = "::" in nm
            if const:
                continue
            l = None
            if t is not None and t[0] == "addr":
                l = t[1]
            elif byref:
                l = self.loc(fr, st, a)
            if l is not None and l[0] in ("v", "t", "g", "this", "d", "cap"):
                if l == ("this",):
                    continue
                self.kill(st, l, why)
            elif t is not None and t[0] in ("s", "in", "op") and f.ntype(a)["k"] == "ptr":
                self.kill(st, ("d", t), why)
        if callee is None and ("o" in n):
            # library method: forget the object unless the method is const
            l = self.obj_loc(fr, st, n)
            if l is not None and len(l) > 1 and not n.get("cm"):
                self.kill(st, l, why)

    def inline_call(self, fr, st, n, callee, args, objloc):
        depth = fr.depth + 1
        self.steps += 1
        if self.steps > self.client.budget:
            raise Budget()
        nf = Frame(self, callee, depth, this=objloc, parent=fr, call=n)
        s = st.copy()
        # forget leftovers of earlier frames at this depth
        self.purge(s, depth)
        params = callee.d["params"]
        nodes = fr.f.args(n) if "c" in n else []
        for i, v in enumerate(params):
            vt = callee.vtype(v)
            t = args[i] if i < len(args) else None
            if vt["k"] == "ref":
                l = self.loc(fr, st, nodes[i]) if i < len(nodes) and nodes[i] is not None else None
                if l is None and t is not None and t[0] == "addr":
                    l = t[1]
                nf.alias[v] = l if l is not None else ("t", depth, "p%d" % i)
                if l is None and t is not None:
                    s.env[nf.alias[v]] = t
            elif vt["k"] in ("rec", "record"):
                if t is not None and t[0] == "addr":
                    src = t[1]
                    m = len(src)
                    for p in [p for p in s.env if p[:m] == src and len(p) > m]:
                        s.env[("v", depth, v) + p[m:]] = s.env[p]
            elif t is not None:
                s.env[("v", depth, v)] = t
        # lambda: captured variables alias the enclosing frame's variables
        if callee.has("lambda"):
            x = fr
            byname = {}
            while x is not None:
                for i, v in enumerate(x.f.vars):
                    byname.setdefault(v["n"], (x, i))
                x = x.parent
            for i, v in enumerate(callee.vars):
                if v.get("cap") and v["n"] in byname:
                    xf, xi = byname[v["n"]]
                    nf.alias[i] = self.var_loc(xf, xi)
            nf.this = fr.this
        self.client.enter(nf, s)
        try:
            exits = self.run(nf, s)
        except RecursionError:
            return None
        out, seen = [], set()
        rt = callee.type(callee.d.get("ret", -1))
        for x in exits:
            t = x.env.pop(("ret", depth), None)
            recret = None
            if t is not None and rt["k"] in ("rec", "record"):
                recret = t
            if recret is not None and recret[0] == "addr":
                src = recret[1]
                dst = ("t", fr.depth, info(fr.f).idx.get(id(n), -1))
                m = len(src)
                for p in [p for p in x.env if p[:m] == src and len(p) > m]:
                    x.env[dst + p[m:]] = x.env[p]
                t = ("addr", dst)
            if t is None:
                t = self.fresh(fr, x, n) if id(n) in info(fr.f).idx else ("c", 0)
            keep = set()
            if t[0] == "addr":
                keep.add(t[1][:3])
            self.purge(x, depth, t)
            key = (x.key(), t)
            if key in seen:
                continue
            seen.add(key)
            out.append((x, t))
        if len(out) > self.client.inline_merge:
            groups = {}
            for x, t in out:
                g = (self.client.group(x), t)
                if g in groups:
                    self.joined = True
                    groups[g] = self.join(groups[g], x)
                else:
                    groups[g] = x
            out = [(x, g[1]) for g, x in groups.items()]
        return out

    def purge(self, st, depth, keep=None):
        for p in [p for p in st.env if p[0] in ("v", "t", "ret", "cap") and p[1] >= depth]:
            del st.env[p]
        for p in [p for p in st.temps if p[0] >= depth]:
            del st.temps[p]
        for k in [k for k in st.kills if k[0] == "#p" and k[1][0] in ("v", "t", "cap") and k[1][1] >= depth]:
            del st.kills[k]

    # --- the fixpoint ------------------------------------------------------------
    def gc(self, fr, st, b):
        inf = info(fr.f)
        live = inf.live.get(b, ())
        d = fr.depth
        for k in [k for k in st.temps if k[0] == d and ("t", k[1]) not in live]:
            del st.temps[k]
        for p in [p for p in st.env if p[0] == "v" and p[1] == d and ("v", p[2]) not in live and p[2] not in inf.addr]:
            del st.env[p]
        for k in [k for k in st.kills if k[0] == "#p" and k[1][0] == "v" and k[1][1] == d
                  and ("v", k[1][2]) not in live and k[1][2] not in inf.addr]:
            del st.kills[k]
        used = self.used(st)
        used2 = cl_gc(self, st, used)
        if used2 is not None:
            used = used2
        dead = []
        for s in st.cons:
            if s in used:
                continue
            if s[0] == "in":
                l = s[1]
                cur = st.env.get(l)
                if (cur is None and s[2] == self.epoch(st, l)) or cur == s:
                    if l[0] != "v" or l[1] != d or ("v", l[2]) in live or l[2] in inf.addr:
                        continue
            elif s[0] in ("cmp", "op"):
                ss = set()
                term_syms(s, ss)
                if all(x in used or (x[0] == "in" and st.env.get(x[1]) in (None, x) and
                       (x[1][0] != "v" or x[1][1] != d or ("v", x[1][2]) in live)) for x in ss):
                    continue
            dead.append(s)
        for s in dead:
            del st.cons[s]
        if st.kills:
            allin = set(x for x in used if x[0] == "in") | set(x for x in st.cons if x[0] == "in")
            for c in st.cons:
                if c[0] in ("cmp", "op"):
                    ss = set()
                    term_syms(c, ss)
                    allin |= {x for x in ss if x[0] == "in"}
            for k in list(st.kills):
                if k[0] == "#p":
                    p = k[1]
                    if not any(x[1][:len(p)] == p for x in allin):
                        del st.kills[k]
                elif not any(k[1] in x[1] for x in allin):
                    del st.kills[k]

    def join(self, a, b):
        """Weakest common description of two states with the same client group."""
        env = {p: t for p, t in a.env.items() if b.env.get(p) == t}
        out = State(env, {}, {k: t for k, t in a.temps.items() if b.temps.get(k) == t},
                    self.client.join_cl(a.cl, b.cl), dict(a.kills))
        for k, v in b.kills.items():
            out.kills[k] = max(v, out.kills.get(k, v), key=repr)
        for p in set(a.env) ^ set(b.env) | {p for p in a.env if p in b.env and a.env[p] != b.env[p]}:
            out.kills.setdefault(("#p", p), ("j",))
            out.env.pop(p, None)
        # a kill marker on a prefix must not survive an entry that both kept
        for s, r in a.cons.items():
            r2 = b.cons.get(s)
            if r2 is None:
                continue
            m = (min(r[0], r2[0]), max(r[1], r2[1]), None)
            ex = set()
            for x in r[2] | r2[2]:
                if (x in r[2] or x < r[0] or x > r[1]) and (x in r2[2] or x < r2[0] or x > r2[1]):
                    ex.add(x)
            if (r[0] > 0 or r[1] < 0) and 0 in r2[2] or (r2[0] > 0 or r2[1] < 0) and 0 in r[2]:
                ex.add(0)
            m = (m[0], m[1], frozenset(ex))
            if m != TOP:
                out.cons[s] = m
        return out

    def run(self, fr, st0):
        """Executes fr.f from st0; returns the states at its exit."""
        f, cl = fr.f, self.client
        inf = info(f)
        blocks = f.blocks
        seen = defaultdict(dict)      # block -> key -> state
        exits = []
        exitkeys = set()
        import heapq
        heap, ctr = [], 0
        root = fr.depth == 0
        trace = {} if root else None

        def push(b, s, pred):
            nonlocal ctr
            self.gc(fr, s, b)
            key = s.key()
            sb = seen[b]
            if key in sb:
                return
            if len(sb) >= cl.max_states:
                # join with states of the same group
                self.joined = True
                g = cl.group(s)
                for k2 in list(sb):
                    o = sb[k2]
                    if cl.group(o) == g:
                        s = self.join(o, s)
                self.gc(fr, s, b)
                key = s.key()
                if key in sb:
                    return
                if len(sb) >= cl.max_states * 4:
                    raise Budget()
            sb[key] = s
            if trace is not None:
                trace[(b, key)] = pred
            ctr += 1
            heapq.heappush(heap, (inf.rpo.get(b, 0), ctr, b, key))

        push(f.entry, st0, None)
        while heap:
            _, _, b, key = heapq.heappop(heap)
            st = seen[b][key].copy()
            blk = blocks[b]
            if trace is not None:
                self.trace_cur = (trace, b, key, f)
            states = [st]
            for e in blk.get("e", ()):
                nxt = []
                for s in states:
                    self.steps += 1
                    if self.steps > cl.budget:
                        raise Budget()
                    nxt += self.exec_elem(fr, s, e)
                if len(nxt) > 1:
                    ded = {}
                    for s in nxt:
                        ded.setdefault(s.key(), s)
                    nxt = list(ded.values())
                states = nxt
                if not states:
                    break
            succ = blk["s"]
            if b == f.exit:
                for s in states:
                    if root:
                        cl.exit(fr, s, s.env.get(("ret", 0)))
                    k = s.key()
                    if k not in exitkeys:
                        exitkeys.add(k)
                        exits.append(s)
                continue
            if blk.get("noret"):
                continue
            for s in states:
                self.branch(fr, s, b, blk, succ, push, key)
        return exits

    def branch(self, fr, s, b, blk, succ, push, key):
        f, cl = fr.f, self.client
        live = [x for x in succ if x >= 0]
        tc = blk.get("tc")
        tk = blk.get("tk")
        pk = (b, key)
        if tk == "SwitchStmt" and tc is not None:
            t = self.value(fr, s, f.nodes[tc])
            cases, default = [], None
            for x in succ:
                if x < 0:
                    continue
                c = f.blocks[x].get("case")
                if c is not None:
                    cases.append((x, c[0]))
            used = []
            for x in succ:
                if x < 0:
                    continue
                blkx = f.blocks[x]
                s2 = s.copy()
                c = blkx.get("case")
                if c is not None and "caserhs" not in blkx and f.nodes[c[0]] is not None and "v" in f.nodes[c[0]]:
                    # the block may be reached by fallthrough too; this edge is the dispatch
                    if not self.assume_cmp(s2, "==", t, ("c", f.nodes[c[0]]["v"])):
                        continue
                elif c is None:
                    ok = True
                    for y, cn in cases:
                        if f.nodes[cn] is not None and "v" in f.nodes[cn] and "caserhs" not in f.blocks[y]:
                            if not self.assume_cmp(s2, "!=", t, ("c", f.nodes[cn]["v"])):
                                ok = False
                                break
                    if not ok:
                        continue
                if cl.branch(fr, s2, f.nodes[tc], None) is False:
                    continue
                push(x, s2, pk)
            return
        if tc is not None and tc >= 0 and len(succ) == 2 and tk not in ("CXXTryStmt", "IndirectGotoStmt") and not blk.get("tdb"):
            n = f.nodes[tc]
            t = self.value(fr, s, n)
            for x, val in ((succ[0], True), (succ[1], False)):
                if x < 0:
                    continue
                s2 = s.copy()
                if not self.assume(s2, t, val):
                    continue
                if cl.branch(fr, s2, n, val) is False:
                    continue
                push(x, s2, pk)
            return
        for i, x in enumerate(succ):
            if x >= 0:
                push(x, s.copy(), pk)

    def analyze(self, f):
        """Runs the client over f as a root.  Returns True when completed within budget."""
        self.steps = 0
        self.joined = False
        if not f.blocks:
            return False
        fr = Frame(self, f, 0)
        st = State()
        st.cl = self.client.initial(self, f)
        self.client.enter(fr, st)
        try:
            self.run(fr, st)
            return True
        except Budget:
            self.overrun.append(f.name)
            return False

    def trace_lines(self, limit=14):
        """Lines of the branch decisions that lead to the block being executed."""
        if not self.trace_cur:
            return []
        trace, b, key, f = self.trace_cur
        out, seen = [], set()
        cur = (b, key)
        while cur is not None and cur not in seen:
            seen.add(cur)
            blk = f.blocks[cur[0]]
            ln = blk.get("tl")
            if ln:
                out.append(ln)
            cur = trace.get(cur)
        out.reverse()
        ded = []
        for x in out:
            if not ded or ded[-1] != x:
                ded.append(x)
        return ded[-limit:]


def mod_summaries(prog):
    """usr -> (fields, globals) possibly written by the function or its callees."""
    c = getattr(prog, "_modsum", None)
    if c is not None:
        return c
    direct, calls = {}, {}
    for f in prog.funcs.values():
        fl, gl = set(), set()
        for n in f.nodes:
            if not n:
                continue
            tgt = None
            if n["k"] == "Asg":
                tgt = f.kid(n, 0)
            elif n["k"] == "Un" and n["op"] in ("++", "--"):
                tgt = f.kid(n, 0)
            elif n["k"] == "Un" and n["op"] == "&":
                tgt = f.kid(n, 0)     # address taken: may be written by the receiver
            x = tgt
            while x is not None:
                if x["k"] == "Member":
                    if x.get("dk") == "g":
                        gl.add(x["n"])
                        break
                    fl.add(prog.fcomp(x.get("cls"), x["m"]))
                    break
                if x["k"] == "Ref":
                    if x.get("dk") == "g":
                        gl.add(x["n"])
                    elif x.get("dk") == "v" and f.vars[x["d"]].get("st"):
                        gl.add(f.name + "::" + f.vars[x["d"]]["n"])
                    break
                if x["k"] in ("Index", "Cast") and x.get("c"):
                    x = f.kid(x, 0)
                else:
                    break
        if f.d.get("ctor"):
            pass
        direct[f.usr] = (fl, gl)
        calls[f.usr] = prog.callees_of(f)
    # SCC-free fixpoint (small program)
    res = {u: (set(a), set(b)) for u, (a, b) in direct.items()}
    callers = defaultdict(set)
    for u, cs in calls.items():
        for c2 in cs:
            callers[c2].add(u)
    work = deque(res)
    inq = set(res)
    while work:
        u = work.popleft()
        inq.discard(u)
        for p in callers.get(u, ()):
            a, b = res[p]
            na, nb = len(a), len(b)
            a |= res[u][0]
            b |= res[u][1]
            if (len(a) != na or len(b) != nb) and p not in inq:
                work.append(p)
                inq.add(p)
    prog._modsum = res
    return res
