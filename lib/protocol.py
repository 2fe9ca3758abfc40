"""Ordering rules: what must have happened on every path before (or after) an operation.

cl = frozenset of facts, plain hashable values, established on the path so far.  A rule is a handler called for
every call on every path; it can establish facts, withdraw them, split the path by the call's result, ask what is
known about a value, and report.
"""
import multiprocessing
from engine import Client, Interp, C, info


class At:
    """One call (or destructor, or function exit) on one path."""
    __slots__ = ("cl", "fr", "st", "n", "args", "name")

    def __init__(self, cl, fr, st, n, args):
        self.cl, self.fr, self.st, self.n, self.args = cl, fr, st, n, args
        self.name = (n.get("n") or "") if n is not None else ""

    @property
    def f(self):
        return self.fr.f

    @property
    def root(self):
        x = self.fr
        while x.parent is not None:
            x = x.parent
        return x.f

    def has(self, *facts):
        return all(x in self.st.cl for x in facts)

    def add(self, *facts):
        self.st.cl = self.st.cl | frozenset(facts)

    def drop(self, *facts):
        self.st.cl = self.st.cl - frozenset(facts)

    def dropif(self, pred):
        self.st.cl = frozenset(x for x in self.st.cl if not pred(x))

    def arg(self, i):
        a = self.fr.f.args(self.n)
        return self.fr.f.strip(a[i]) if i < len(a) and a[i] is not None else None

    def text(self, i):
        a = self.arg(i)
        return self.fr.f.text(a) if a is not None else ""

    def truth(self, t):
        return self.fr.it.truth(self.st, t)

    def const(self, t):
        return self.fr.it.const_of(self.st, t)

    def rng(self, t):
        return self.fr.it.rng(self.st, t)

    def obj(self):
        return self.fr.it.obj_loc(self.fr, self.st, self.n)

    def objnode(self):
        o = self.fr.f.obj(self.n)
        return self.fr.f.strip(o) if o is not None else None

    def argloc(self, i):
        """Location of an object passed by reference or by address."""
        if i < len(self.args) and self.args[i][0] == "addr":
            return self.args[i][1]
        a = self.fr.f.args(self.n)
        return self.fr.it.loc(self.fr, self.st, a[i]) if i < len(a) and a[i] is not None else None

    def var(self, name):
        """Term held by a parameter or variable of the current function, by name; None when there is none."""
        x = self.fr
        while x is not None:
            for i, v in enumerate(x.f.vars):
                if v["n"] == name:
                    return self.fr.it.read(self.st, self.fr.it.var_loc(x, i))
            x = x.parent
        return None

    def memo(self, k):
        return True if ("memo", k, True) in self.st.cl else False if ("memo", k, False) in self.st.cl else None

    def param(self, i):
        """Term held by a parameter of the root function."""
        x = self.fr
        while x.parent is not None:
            x = x.parent
        ps = x.f.d["params"]
        return self.fr.it.read(self.st, self.fr.it.var_loc(x, ps[i])) if i < len(ps) else None

    def known(self, pred):
        """(term, range) of the constrained values whose term satisfies the predicate."""
        return [(t, r) for t, r in self.st.cons.items() if pred(t)]

    def field(self, *names):
        """Term held by a field of the object the root function is a method of."""
        loc = ("this",) + tuple(names)
        return self.fr.it.read(self.st, loc)

    def report(self, key, msg):
        self.cl.reports.setdefault(key, (self.fr.f.file, (self.n or {}).get("l", self.fr.f.line), msg, self.fr.stack(), self.fr.it.trace_lines()))

    def count(self, k):
        self.cl.seen.setdefault(k, set()).add((self.fr.f.file, (self.n or {}).get("l", 0), (self.n or {}).get("n")))


class Proto(Client):
    max_depth = 5
    budget = 60000

    def __init__(self, prog, handler, names, inline=frozenset(), on_exit=None, initial=None, on_store=None, residual=None, memos=None):
        self.prog, self.handler, self.names, self.ins = prog, handler, names, inline
        self.on_exit, self.init0, self.on_store, self.residual = on_exit, initial, on_store, residual
        self.open = False
        self.memos = memos or {}
        self.reports, self.seen = {}, {}

    def initial(self, it, f):
        return frozenset(self.init0(f)) if self.init0 else frozenset()

    def inline(self, f):
        return f.usr in self.ins

    def wants(self, nm):
        return nm in self.names or nm.split("::")[-1] in self.names

    def call(self, fr, st, n, args):
        nm = n.get("n") or ""
        if not self.wants(nm):
            return None
        at = At(self, fr, st, n, args)
        r = self.handler(at)
        if r is None:
            return None
        out = []
        fr.it.havoc(fr, st, n, args)
        for i, (t, facts) in enumerate(r):
            s = st if i == len(r) - 1 else st.copy()
            s.cl = s.cl | frozenset(facts)
            out.append((s, t))
        return out

    def store(self, fr, st, n, loc, term):
        if self.on_store:
            self.on_store(At(self, fr, st, n, [term]), loc, term)

    def branch(self, fr, st, node, truth):
        """Conditions worth remembering after the variables that decided them are gone."""
        if self.memos:
            at = None
            for k, fn in self.memos.items():
                if ("memo", k, True) in st.cl or ("memo", k, False) in st.cl:
                    continue
                at = at or At(self, fr, st, node, ())
                v = fn(at)
                if v is not None:
                    st.cl = st.cl | frozenset([("memo", k, v)])
        return True

    def exit(self, fr, st, term):
        if any(self.residual(x) for x in st.cl if x[0] != "memo") if self.residual else any(x[0] != "memo" for x in st.cl):
            self.open = True
        if self.on_exit:
            self.on_exit(At(self, fr, st, None, [term]), term)


def closure(prog, names, within, stop=frozenset()):
    """Functions within the predicate that reach an event by calls, not passing through an event function."""
    short = {x.split("::")[-1] for x in names}

    def is_event(f):
        return f.name in names or f.short in names

    def direct(f):
        for x in f.callees:
            if x in names or x.split("::")[-1] in names:
                return True
        return False
    cand = {f.usr: f for f in prog.funcs.values() if within(f) and f.blocks and not is_event(f) and f.usr not in stop}
    have = {u for u, f in cand.items() if direct(f)}
    callers = prog.callers()
    todo = list(have)
    while todo:
        u = todo.pop()
        for c in callers.get(u, ()):
            if c in cand and c not in have:
                have.add(c)
                todo.append(c)
    return have


def _one(a):
    u, ins = a
    it, cl = _W
    cl.reports, cl.seen, cl.open, cl.ins = {}, {}, False, ins
    ok = it.analyze(it.prog.funcs[u])
    return u, ok, cl.reports, cl.seen, cl.open


def run(prog, handler, names, within, roots=None, boundary=None, jobs=8, budget=None, **kw):
    """Judges every function by itself; one that leaves facts behind or needs facts from outside is judged in its
    callers instead (it is followed there), unless nobody calls it or it is a boundary.
    Returns (reports, seen, functions judged, incomplete)."""
    global _W
    names = frozenset(names)
    fns = closure(prog, names, within)
    cl = Proto(prog, handler, names, frozenset(), **kw)
    if budget:
        cl.budget = budget
    callers = prog.callers()
    fixed = roots is not None
    todo = {f.usr for f in prog.funcs.values() if roots(f) and f.blocks} if fixed else set(fns)
    ins = frozenset(fns) if fixed else frozenset()
    if fixed and boundary:
        ins = frozenset(u for u in ins if not boundary(prog.funcs[u]))
    _W = (Interp(prog, cl), cl)
    res = {}
    for rnd in range(8):
        work = [(u, ins) for u in sorted(todo)]
        if len(work) > 8 and jobs > 1:
            with multiprocessing.get_context("fork").Pool(jobs) as pool:
                got = list(pool.imap_unordered(_one, work))
        else:
            got = [_one(w) for w in work]
        nxt, more = set(), set()
        for r in got:
            res[r[0]] = r
            u, ok, rep, sn, op = r
            f = prog.funcs[u]
            if fixed or u in ins or f.has("lambda") or (boundary and boundary(f)):
                continue
            cs = {x for x in callers.get(u, ()) if x in fns and x != u}
            if (op or rep) and cs:
                more.add(u)
                nxt |= cs
        if not more:
            break
        ins = ins | more
        # everything that reaches a changed function through followed calls is judged again
        grow = set(nxt)
        while grow:
            x = grow.pop()
            if x in ins:
                for y in callers.get(x, ()):
                    if y in fns and y not in nxt:
                        nxt.add(y)
                        grow.add(y)
        todo = nxt
    reports, seen, bad = {}, {}, []
    judged = set()
    for u, (_, ok, rep, sn, op) in sorted(res.items()):
        for k, v in sn.items():
            seen.setdefault(k, set()).update(v)
        if not fixed and u in ins:
            continue
        judged.add(prog.funcs[u].name)
        if not ok:
            bad.append(prog.funcs[u].name)
        for k, v in rep.items():
            reports.setdefault(k, v)
    return reports, seen, judged, bad


def judge(c, res, need=()):
    """Moves the outcome of run() into a Check."""
    from extract import AnalysisBroken
    reports, seen, roots, bad = res
    c.count("functions_analysed", len(roots))
    if bad:
        raise AnalysisBroken("%s: analysis of %s did not finish" % (c.pid, ", ".join(sorted(bad))))
    for k, (file, line, msg, stack, tr) in reports.items():
        c.violation(k, file, line, msg, path=([" > ".join(stack)] if len(stack) > 1 else []) + (["branches at lines " + ",".join(map(str, tr))] if tr else []))
    for k, v in seen.items():
        c.count(k, len(v))
    for k, n in need:
        c.need(k, n)
