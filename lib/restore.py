"""Scoped overrides: a variable changed for the duration of an operation holds its earlier value again at every exit.

cl = frozenset of locations (among the watched ones) that currently hold an overriding value.
"""
import multiprocessing
import engine
from engine import Client, Interp


class RestoreClient(Client):
    max_depth = 4
    budget = 60000

    def __init__(self, prog, watch, resting, helpers):
        self.prog, self.watch, self.resting, self.helpers = prog, watch, resting, helpers
        self.exits, self.writes = [], set()

    def initial(self, it, f):
        return frozenset()

    def inline(self, f):
        if f.usr in self.helpers:
            return True
        r = self.prog.records.get(f.cls) if f.cls and (f.has("ctor") or f.has("dtor")) else None
        return r is not None and any("rollback<" in (r.ftype(x).get("s") or "") for x in r.fields)

    def call(self, fr, st, n, args):
        # rollback: the constructor saves (and may override), the destructor and reset() put the value back
        nm = n.get("n") or ""
        if not nm.startswith("rollback<"):
            return None
        key = "." + "m_var"
        if n["k"] == "Construct":
            l, a = fr.it.obj_loc(fr, st, n), fr.f.args(n)
            tgt = fr.it.loc(fr, st, a[0]) if a and a[0] is not None else None
            if l is None or tgt is None:
                return [(st, ("c", 0))]
            st.env[l + (key,)] = ("addr", tgt)
            st.env[l + (".saved",)] = fr.it.read(st, tgt)
            if len(a) > 1:
                if self.name(tgt):
                    st.cl = st.cl | {tgt}
                    self.writes.add((fr.f.file, n.get("l", 0)))
                fr.it.write(st, tgt, args[1], 0)
            return [(st, ("c", 0))]
        if n["k"] == "Dtor" or nm.endswith("::reset"):
            o = args[0] if n["k"] == "Dtor" else None
            l = o[1] if o is not None and o[0] == "addr" else fr.it.obj_loc(fr, st, n)
            t = st.env.get(l + (key,)) if l is not None else None
            if t is not None:
                st.cl = st.cl - {t[1]}
                fr.it.write(st, t[1], st.env.get(l + (".saved",), ("in", t[1], ("rollback",))), 0)
            return [(st, ("c", 0))]
        return None

    def name(self, loc):
        """Watched name of a location, or None."""
        if loc[0] == "g" and len(loc) == 2 and ("g", loc[1]) in self.watch:
            return ("g", loc[1])
        if loc[0] == "this" and len(loc) == 2 and ("f", loc[1]) in self.watch:
            return ("f", loc[1])
        if loc[0] == "d" and len(loc) == 3 and ("f", loc[2]) in self.watch:
            return ("f", loc[2])
        return None

    def store(self, fr, st, n, loc, term):
        w = self.name(loc)
        if w is None:
            return
        self.writes.add((fr.f.file, n.get("l", 0)))
        t = term
        if n.get("k") == "Un" and n.get("op") in ("++", "--"):
            st.cl = (st.cl - {loc}) if loc in st.cl else (st.cl | {loc})
            return
        back = (t[0] == "in" and t[1] == loc) or (t[0] == "c" and t[1] in self.resting.get(w, ()))
        if t == fr.it.read(st, loc) and loc not in st.cl:
            back = True
        st.cl = (st.cl - {loc}) if back else (st.cl | {loc})

    def exit(self, fr, st, t):
        self.exits.append((frozenset(self.name(l) for l in st.cl if self.name(l)), fr.it.trace_lines()))


def _one(a):
    u, helpers = a
    cl = _W.client
    cl.helpers = helpers
    cl.exits, cl.writes = [], set()
    f = _W.prog.funcs[u]
    cl.watch = _WATCH(f)
    ok = _W.analyze(f)
    ex = {}
    for c, tr in cl.exits:
        for w in c:
            ex.setdefault(w, tr)
    return u, ok, ex, len(cl.exits), set(cl.writes)


def run(prog, todo, watch_of, resting, jobs=8, rounds=4, exempt=lambda f, w: False):
    global _W, _WATCH
    _WATCH = watch_of
    _W = Interp(prog, RestoreClient(prog, frozenset(), resting, frozenset()))
    callers = prog.callers()
    res, helpers, writes, bad = {}, set(), set(), set()
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for _ in range(rounds):
            nxt = set()
            for u, ok, ex, nex, w in pool.imap_unordered(_one, [(u, frozenset(helpers)) for u in sorted(todo)]):
                res[u] = ex
                writes |= w
                if not ok:
                    bad.add(u)
                if u not in helpers and any(not exempt(prog.funcs[u], w) for w in ex):
                    helpers.add(u)
                    nxt |= {x for x in callers.get(u, ())}
            todo = nxt
            if not todo:
                break
    return res, helpers, writes, bad
