"""Which locks are held where: a forward dataflow over scoped guards and explicit lock calls, with calling contexts.

A lock is named by the field or global that holds it.  `must` holds on every path from every caller, `may` on some.
Facts other than locks (a completion that was tested) flow the same way.
"""
import re

GUARD = re.compile(r"\b(std::)?(lock_guard|unique_lock|scoped_lock)\b")


def name_of(f, n):
    n = f.strip(n)
    while n is not None and n["k"] == "Un" and n["op"] in ("&", "*"):
        n = f.strip(f.kid(n, 0))
    if n is None:
        return None
    if n["k"] == "Call" and f.obj(n) is not None and not f.args(n):
        return name_of(f, f.obj(n))
    if n["k"] == "Member":
        return n["n"] if n.get("dk") == "g" else "%s::%s" % (n.get("cls", "?"), n["m"])
    if n["k"] == "Ref":
        if n.get("dk") == "g":
            return n["n"]
        if n.get("dk") == "v":
            return "local %s" % f.vars[n["d"]]["n"] if not f.vars[n["d"]].get("st") else "%s static %s" % (f.name, f.vars[n["d"]]["n"])
    return None


class Locks:
    def __init__(self, prog, funcs, conds=None):
        """conds(f, n) -> fact that holds when the call n is true, or None."""
        self.prog, self.conds = prog, conds or (lambda f, n: None)
        self.funcs = {f.usr: f for f in funcs}
        self.guards = {}        # usr -> {var: lock}
        self.flow = {}          # usr -> {id(node): (must, may)} relative to entry
        self.unnamed = []
        for f in funcs:
            self.flow[f.usr] = self._intra(f)

    # --- one function --------------------------------------------------------------
    def _guardvars(self, f):
        """Locals that hold a scoped guard, and the lock they hold."""
        out = {}
        for n in f.nodes:
            if not n or n["k"] != "DeclStmt":
                continue
            for d in n["ds"]:
                t = f.vtype(d["v"])["s"]
                if not GUARD.search(t) or d["i"] is None or d["i"] < 0:
                    continue
                if f.vtype(d["v"])["k"] in ("ref", "ptr"):
                    continue
                x = f.n(d["i"])
                a = f.args(x) if x is not None and x["k"] == "Construct" else f.args(f.strip(x)) if f.strip(x) is not None and f.strip(x)["k"] == "Construct" else []
                nm = name_of(f, a[0]) if a else None
                if nm is None:
                    # alias of a guard or a deferred one: nothing is held
                    self.unnamed.append((f, n))
                    continue
                # a local reference to a lock stands for what it refers to
                out[d["v"]] = self._alias(f, a[0]) or nm
        return out

    def _alias(self, f, n, depth=0):
        n = f.strip(n)
        if n is not None and n["k"] == "Ref" and n.get("dk") == "v" and depth < 4:
            for m in f.nodes:
                if m and m["k"] == "DeclStmt":
                    for d in m["ds"]:
                        if d["v"] == n["d"] and d["i"] is not None and d["i"] >= 0:
                            return self._alias(f, f.n(d["i"]), depth + 1)
            return None
        return name_of(f, n) if n is not None else None

    def _intra(self, f):
        g = self._guardvars(f)
        interesting = bool(g)
        if not interesting:
            for n in f.nodes:
                if n and n["k"] == "Call" and (self.conds(f, n) or n.get("n", "").rsplit("::", 1)[-1] in ("lock", "unlock", "try_lock", "EnterCriticalSection", "LeaveCriticalSection")):
                    interesting = True
                    break
        if not interesting:
            return None
        blocks = f.blocks
        must = {f.entry: frozenset()}
        may = {f.entry: frozenset()}
        res = {}
        work = [f.entry]
        while work:
            b = work.pop()
            mu, ma = set(must[b]), set(may[b])
            for e in blocks[b].get("e", ()):
                if isinstance(e, dict):
                    v = e.get("dtorvar")
                    if v in g:
                        mu.discard(g[v])
                        ma.discard(g[v])
                    continue
                n = f.n(e)
                if n is None:
                    continue
                res[id(n)] = (frozenset(mu), frozenset(ma))
                if n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        if d["v"] in g:
                            mu.add(g[d["v"]])
                            ma.add(g[d["v"]])
                elif n["k"] == "Call":
                    s = n.get("n", "").rsplit("::", 1)[-1]
                    if s in ("lock", "unlock"):
                        o = f.strip(f.obj(n))
                        nm = g.get(o["d"]) if o is not None and o["k"] == "Ref" and o.get("dk") == "v" and o["d"] in g else name_of(f, o) if o is not None else None
                        if nm:
                            (mu.add if s == "lock" else mu.discard)(nm)
                            (ma.add if s == "lock" else ma.discard)(nm)
                    elif s in ("EnterCriticalSection", "LeaveCriticalSection"):
                        nm = name_of(f, f.args(n)[0])
                        if nm:
                            (mu.add if s[0] == "E" else mu.discard)(nm)
                            (ma.add if s[0] == "E" else ma.discard)(nm)
            ss = blocks[b]["s"]
            t = blocks[b].get("tc")
            gain = {}
            if t is not None and len(ss) == 2 and ss[0] != ss[1]:
                n = f.strip(f.n(t))
                while n is not None and n["k"] == "Bin" and n["op"] in ("&&", "||"):
                    n = f.strip(f.kid(n, 1))
                sense = 0
                while n is not None and n["k"] == "Un" and n["op"] == "!":
                    n, sense = f.strip(f.kid(n, 0)), 1 - sense
                if n is not None and n["k"] == "Ref" and n.get("dk") == "v":
                    n = self._init(f, n["d"]) or n
                    while n is not None and n["k"] == "Un" and n["op"] == "!":
                        n, sense = f.strip(f.kid(n, 0)), 1 - sense
                c = self.conds(f, n) if n is not None and n["k"] in ("Call", "Member", "Bin") else None
                if c:
                    gain[ss[sense]] = c
            for s in ss:
                if s < 0:
                    continue
                x = frozenset(mu | ({gain[s]} if s in gain else set()))
                y = frozenset(ma)
                if s not in must:
                    must[s], may[s] = x, y
                    work.append(s)
                elif must[s] & x != must[s] or may[s] | y != may[s]:
                    must[s], may[s] = must[s] & x, may[s] | y
                    work.append(s)
        return res

    def _init(self, f, v):
        """The only value a local is given."""
        out = []
        for m in f.nodes:
            if m and m["k"] == "DeclStmt":
                out += [f.strip(f.n(d["i"])) for d in m["ds"] if d["v"] == v and d["i"] is not None and d["i"] >= 0]
            elif m and m["k"] == "Asg":
                l = f.strip(f.kid(m, 0))
                if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and l["d"] == v:
                    return None
        return out[0] if len(out) == 1 else None

    def local(self, f, n):
        fl = self.flow.get(f.usr)
        if fl is None:
            return frozenset(), frozenset()
        x = fl.get(id(n))
        if x is None:
            x = self._enclosing(f, n)
        return x

    def _enclosing(self, f, n):
        """A node that is not an element of its own has the state of the element it is part of."""
        fl = self.flow[f.usr]
        par = f.cachebag.get("parents")
        if par is None:
            par = {}
            for m in f.nodes:
                if m:
                    for c in list(m.get("c", ())) + [m.get("o", -1)] + [d["i"] for d in m.get("ds", ()) if d["i"] is not None]:
                        if c is not None and c >= 0:
                            par[id(f.nodes[c])] = m
            f.cachebag["parents"] = par
        m, k = n, 0
        while m is not None and id(m) not in fl and k < 60:
            m = par.get(id(m))
            k += 1
        return fl.get(id(m), (frozenset(), frozenset())) if m is not None else (frozenset(), frozenset())

    # --- calling contexts -------------------------------------------------------------
    def contexts(self, roots, calls):
        """Entry facts of every function reachable from the roots: usr -> (must, may)."""
        must = {r: frozenset() for r in roots}
        may = {r: frozenset() for r in roots}
        work = list(roots)
        while work:
            u = work.pop()
            f = self.funcs.get(u)
            if f is None:
                continue
            for n, t in calls(f):
                m, y = self.local(f, n)
                x, z = must[u] | m, may[u] | y
                if t not in must:
                    must[t], may[t] = x, z
                    work.append(t)
                elif must[t] & x != must[t] or may[t] | z != may[t]:
                    must[t], may[t] = must[t] & x, may[t] | z
                    work.append(t)
        return must, may
