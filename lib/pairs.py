"""Balance of begin/end style operations on every path, through helpers.

cl = sorted tuple of ((kind, key), net).  A function whose exits do not all have net 0 hands its effect to its
callers (it is inlined there); it is reported itself when it has no caller, or when two exits that the caller cannot
tell apart (same returned constant or no result) have different nets.
"""
import multiprocessing
from engine import Client, Interp, C, INF, truthy


class Op:
    """names: callee names; kind; delta; when: optional predicate(args)->delta or None; result: None (cannot fail),
    'bool' (non-zero is success) or 'hresult'.  keyed: the object the method is called on distinguishes instances."""

    def __init__(self, kind, delta, result=None, key=None):
        self.kind, self.delta, self.result, self.key = kind, delta, result, key


class PairClient(Client):
    max_depth = 5
    budget = 40000

    def __init__(self, prog, ops, wrappers):
        self.prog, self.ops, self.wrappers = prog, ops, wrappers
        self.root = None
        self.exits, self.sites = [], set()

    def initial(self, it, f):
        return ()

    def inline(self, f):
        return f.usr in self.wrappers

    def bump(self, st, kind, key, d):
        m = dict(st.cl)
        k = (kind, key)
        m[k] = m.get(k, 0) + d
        if not m[k]:
            del m[k]
        st.cl = tuple(sorted(m.items(), key=repr))

    def call(self, fr, st, n, args):
        op = self.ops.get(n.get("n"))
        if op is None:
            return None
        if callable(op):
            op = op(fr, n, args)
            if op is None:
                return None
        if op.delta and fr.f.name in self.ops:
            return None
        self.sites.add((fr.f.file, n.get("l", 0)))
        key = None
        if op.key == "o":
            o = fr.f.obj(n)
            l = fr.it.obj_loc(fr, st, n)
            key = self.canon(l) if l is not None else fr.f.text(o)
        elif isinstance(op.key, int) and op.key < len(args):
            key = self.canon(args[op.key])
        fr.it.havoc(fr, st, n, args)
        if op.result is None or op.delta < 0 or not self.used(fr.f, n):
            self.bump(st, op.kind, key, op.delta)
            return [(st, fr.it.fresh(fr, st, n))]
        s2 = st.copy()
        self.bump(st, op.kind, key, op.delta)
        if op.result == "bool":
            return [(st, C(1)), (s2, C(0))]
        if op.result == "err":
            # fails only when another transaction is pending, which is then not this function's to end
            return [(st, C(0))]
        s3 = st.copy()
        return [(st, C(0)), (s3, C(1)), (s2, C(-2147467259))]

    def used(self, f, n):
        u = f.cachebag.get("usednodes")
        if u is None:
            u = f.cachebag["usednodes"] = set()
            for x in f.nodes:
                if x:
                    u.update(x.get("c", ()))
                    u.update(d["i"] for d in x.get("ds", ()))
            for b in f.blocks.values():
                if isinstance(b.get("tc"), int):
                    u.add(b["tc"])
        return any(f.nodes[i] is n for i in u if i is not None and i >= 0)

    def canon(self, t):
        return repr(t)

    def exit(self, fr, st, t):
        r = None
        if t is not None:
            tv = truthy(t)
            r = ("c", int(tv)) if tv is not None and t[0] != "c" else t if t[0] == "c" else "?"
        self.exits.append((st.cl, r, fr.it.trace_lines()))


def _one(a):
    u, wr = a
    cl = _W.client
    cl.wrappers = wr
    cl.exits, cl.sites = [], set()
    f = _W.prog.funcs[u]
    ok = _W.analyze(f)
    ex = {}
    for c, r, tr in cl.exits:
        ex.setdefault((c, r), tr)
    return u, ok, ex, set(cl.sites)


def run(prog, ops, jobs=8, only=None, exempt=None):
    """usr -> {(net, result): path}, wrappers, sites, incomplete"""
    global _W
    names = set(ops)
    _W = Interp(prog, PairClient(prog, ops, frozenset()))
    callers = prog.callers()
    todo = {f.usr for f in prog.funcs.values() if f.callees & names and f.blocks}
    if only:
        todo = {u for u in todo if only(prog.funcs[u])}
    # classes with a destructor that ends something: the destructor runs in every function that has such a local
    res, wr, sites, bad = {}, set(), set(), set()
    rounds = 0
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        while todo and rounds < 8:
            rounds += 1
            nxt = set()
            for u, ok, ex, s in pool.imap_unordered(_one, [(u, frozenset(wr)) for u in sorted(todo)]):
                res[u] = ex
                sites |= s
                if not ok:
                    bad.add(u)
                if prog.funcs[u].name in ops or (exempt and exempt(prog.funcs[u])):
                    continue
                if any(c for c, _ in ex) and u not in wr:
                    wr.add(u)
                    nxt |= {x for x in callers.get(u, ()) if not only or only(prog.funcs[x])}
            todo = nxt
    return res, wr, sites, bad
