"""Piecewise meaning of a loop-free decision function over one integer argument.

The abstract value of the argument is a finite union of intervals.  A comparison with a constant, or a lookup in a
constant table of ranges, splits that set exactly; a condition on anything else (a mode flag, say) is explored both
ways and remembered, so that the result is the complete relation {(set of arguments, assumptions, result)}.
"""
from collections import namedtuple

TOP = 0xffffffff


class Unknown(Exception):
    pass


def norm(s):
    out = []
    for a, b in sorted(x for x in s if x[0] <= x[1]):
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def inter(s, t):
    out, i, j = [], 0, 0
    while i < len(s) and j < len(t):
        a, b = max(s[i][0], t[j][0]), min(s[i][1], t[j][1])
        if a <= b:
            out.append((a, b))
        if s[i][1] < t[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def minus(s, t):
    out = []
    for a, b in s:
        for c, d in t:
            if d < a:
                continue
            if c > b:
                break
            if c > a:
                out.append((a, c - 1))
            a = d + 1
            if a > b:
                break
        if a <= b:
            out.append((a, b))
    return tuple(out)


def size(s):
    return sum(b - a + 1 for a, b in s)


def show(s, n=4):
    return ", ".join("U+%04X" % a if a == b else "U+%04X..%04X" % (a, b) for a, b in s[:n]) + (" and %d more ranges" % (len(s) - n) if len(s) > n else "")


def table_of(g, node):
    """Rows of an initialiser list of pairs, or None."""
    n = g.strip(node)
    if n is None or n["k"] != "InitList":
        return None
    rows = []
    for k in g.kids(n):
        k = g.strip(k)
        if k is None or k["k"] != "InitList":
            return None
        v = [g.strip(x) for x in g.kids(k)]
        if len(v) < 2 or any(x is None or "v" not in x for x in v[:2]):
            return None
        rows.append((v[0]["v"], v[1]["v"]))
    return rows


Out = namedtuple("Out", "pts env val")


class Eval:
    def __init__(self, prog, tables, opaque=(), bound=None, on_lookup=None):
        self.prog, self.tables, self.opaque, self.bound, self.on_lookup = prog, tables, set(opaque), bound or {}, on_lookup
        self.funcs = set()

    # env: frozenset-able dict of assumptions {text: bool}; loc: locals of one activation
    def function(self, f, pts, args, env, depth=0):
        if depth > 8 or not f.blocks:
            raise Unknown("call of %s" % f.name)
        self.funcs.add(f.name)
        loc = {}
        for v, a in zip(f.d.get("params", ()), args):
            loc[v] = a
        outs = []
        work = [(f.entry, pts, loc, env, 0)]
        while work:
            b, s, loc, env, steps = work.pop()
            if steps > 400:
                raise Unknown("%s has a loop" % f.name)
            bl = f.blocks[b]
            states = [(s, loc, env)]
            done = False
            for e in elems(bl):
                n = f.n(e)
                if n is None:
                    continue
                if n["k"] == "Return":
                    k = f.kid(n, 0)
                    for s1, l1, e1 in states:
                        if k is None:
                            outs.append(Out(s1, e1, None))
                        else:
                            for o in self.ev(f, k, s1, l1, e1, depth):
                                outs.append(o)
                    done = True
                    break
                states = [t for st in states for t in self.stmt(f, n, *st, depth)]
            if done:
                continue
            suc = bl["s"]
            if not suc or b == f.exit:
                if b == f.exit:
                    for s1, l1, e1 in states:
                        outs.append(Out(s1, e1, None))
                continue
            tc = bl.get("tc")
            for s1, l1, e1 in states:
                if len(suc) == 1 or tc is None:
                    for x in suc:
                        if x is not None and x >= 0:
                            work.append((x, s1, l1, e1, steps + 1))
                elif bl.get("tk") == "SwitchStmt":
                    for o in self.ev(f, f.n(tc), s1, l1, e1, depth):
                        rest = o.pts
                        dflt = None
                        for x in suc:
                            if x is None or x < 0:
                                continue
                            cb = f.blocks[x]
                            if "case" not in cb or cb.get("default"):
                                dflt = x
                            if "case" in cb:
                                lim = [f.strip(f.n(i)).get("v") for i in cb["case"]]
                                if any(v is None for v in lim):
                                    raise Unknown("case of %s" % f.name)
                                for c in range(lim[0], lim[-1] + 1):
                                    if isinstance(o.val, int):
                                        if o.val == c:
                                            work.append((x, rest, l1, o.env, steps + 1))
                                            rest = ()
                                    elif isinstance(o.val, tuple) and o.val[0] == "x":
                                        hit = inter(rest, ((c - o.val[1], c - o.val[1]),))
                                        if hit:
                                            work.append((x, hit, l1, o.env, steps + 1))
                                            rest = minus(rest, hit)
                                    else:
                                        work.append((x, rest, l1, o.env, steps + 1))
                        if dflt is not None and rest:
                            work.append((dflt, rest, l1, o.env, steps + 1))
                else:
                    for s2, t, e2 in self.cond(f, f.n(tc), s1, l1, e1, depth):
                        x = suc[0] if t else suc[1]
                        if s2 and x is not None and x >= 0:
                            work.append((x, s2, l1, e2, steps + 1))
        return outs

    def stmt(self, f, n, s, loc, env, depth):
        if n["k"] == "DeclStmt":
            st = [(s, loc, env)]
            for d in n.get("ds", ()):
                if d.get("i") is None or d["i"] < 0 or f.vars[d["v"]].get("st"):
                    continue
                nx = []
                for s1, l1, e1 in st:
                    for o in self.ev(f, f.n(d["i"]), s1, l1, e1, depth):
                        l2 = dict(l1)
                        l2[d["v"]] = o.val
                        nx.append((o.pts, l2, o.env))
                st = nx
            return st
        if n["k"] == "Asg":
            l = f.strip(f.kid(n, 0))
            if l is not None and l["k"] == "Ref" and "d" in l:
                res = []
                for o in self.ev(f, f.kid(n, 1), s, loc, env, depth):
                    l2 = dict(loc)
                    if n["op"] == "=":
                        l2[l["d"]] = o.val
                    else:
                        old = loc.get(l["d"])
                        l2[l["d"]] = arith(n["op"][:-1], old, o.val)
                    res.append((o.pts, l2, o.env))
                return res
        if n["k"] == "Un" and n.get("op") in ("++", "--"):
            l = f.strip(f.kid(n, 0))
            if l is not None and l["k"] == "Ref" and "d" in l:
                l2 = dict(loc)
                l2[l["d"]] = arith("+", loc.get(l["d"]), 1 if "+" in n["op"] else -1)
                return [(s, l2, env)]
        return [(s, loc, env)]

    def cond(self, f, n, s, loc, env, depth):
        out = []
        for o in self.ev(f, n, s, loc, env, depth):
            v = o.val
            if isinstance(v, int):
                out.append((o.pts, v != 0, o.env))
            elif isinstance(v, tuple) and v[0] == "x":
                z = inter(o.pts, ((-v[1] if -v[1] >= 0 else 1, -v[1] if -v[1] >= 0 else 0),))
                if z:
                    out.append((z, False, o.env))
                if minus(o.pts, z):
                    out.append((minus(o.pts, z), True, o.env))
            else:
                key = v if v is not None else f.text(n)
                key = key if isinstance(key, str) else repr(key)
                e = dict(o.env)
                if key in e:
                    out.append((o.pts, e[key], o.env))
                else:
                    for t in (True, False):
                        out.append((o.pts, t, o.env | {(key, t)}))
        return [x for x in out if x[0]]

    def ev(self, f, n, s, loc, env, depth):
        n = f.strip(n) if n is not None else None
        if n is None:
            return [Out(s, env, None)]
        k = n["k"]
        if "v" in n and k != "Ref" and isinstance(n["v"], int):
            return [Out(s, env, n["v"])]
        if k == "Ref":
            if n.get("dk") == "ec":
                return [Out(s, env, n["v"])]
            if "d" in n:
                if n["d"] in loc:
                    return [Out(s, env, loc[n["d"]])]
                t = self.tables.get((f.usr, n["d"]))
                if t:
                    return [Out(s, env, ("tab", t))]
                return [Out(s, env, ("?" + n["n"]))]
            t = self.tables.get(n.get("n"))
            if t:
                return [Out(s, env, ("tab", t))]
            if n["n"] in self.bound:
                return [Out(s, env, self.bound[n["n"]])]
            if isinstance(n.get("v"), int):
                return [Out(s, env, n["v"])]
            return [Out(s, env, n["n"])]
        if k in ("Cast", "Paren", "ImplicitCast"):
            return self.ev(f, f.kid(n, 0), s, loc, env, depth)
        if k == "Member":
            return [Out(s, env, self.bound.get(n.get("m"), f.text(n)))]
        if k == "Un":
            op = n.get("op")
            if op == "!":
                return [Out(p, e, 0 if t else 1) for p, t, e in self.cond(f, f.kid(n, 0), s, loc, env, depth)]
            if op == "-":
                return [Out(o.pts, o.env, -o.val if isinstance(o.val, int) else None) for o in self.ev(f, f.kid(n, 0), s, loc, env, depth)]
            if op in ("+", "*", "&"):
                return self.ev(f, f.kid(n, 0), s, loc, env, depth)
            return [Out(s, env, None)]
        if k == "Cond":
            ks = f.kids(n)
            out = []
            for p, t, e in self.cond(f, ks[0], s, loc, env, depth):
                out += self.ev(f, ks[1] if t else ks[2], p, loc, e, depth)
            return out
        if k == "Bin":
            op = n["op"]
            a, b = f.kid(n, 0), f.kid(n, 1)
            if op in ("&&", "||"):
                out = []
                for p, t, e in self.cond(f, a, s, loc, env, depth):
                    if t == (op == "||"):
                        out.append(Out(p, e, 1 if t else 0))
                    else:
                        out += [Out(p2, e2, 1 if t2 else 0) for p2, t2, e2 in self.cond(f, b, p, loc, e, depth)]
                return out
            out = []
            for o in self.ev(f, a, s, loc, env, depth):
                for q in self.ev(f, b, o.pts, loc, o.env, depth):
                    if op in ("<", "<=", ">", ">=", "==", "!="):
                        out += compare(q.pts, q.env, op, o.val, q.val, f.text(n))
                    elif op == ",":
                        out.append(q)
                    else:
                        out.append(Out(q.pts, q.env, arith(op, o.val, q.val)))
            return out
        if k == "Call":
            ts = self.prog.targets(n)
            if len(ts) == 1:
                g = ts[0]
                outs = [([], s, env)]
                for a in f.args(n):
                    outs = [(vs + [o.val], o.pts, o.env) for vs, p, e in outs for o in self.ev(f, a, p, loc, e, depth)]
                res = []
                for vs, p, e in outs:
                    if g.name in self.opaque:
                        res.append(Out(p, e, g.name))
                        continue
                    tab = [v for v in vs if isinstance(v, tuple) and v[0] == "tab"]
                    xs = [v for v in vs if isinstance(v, tuple) and v[0] == "x"]
                    if tab and loops(g):
                        if len(tab) != 1 or len(xs) != 1 or xs[0][1] != 0:
                            raise Unknown("search in %s" % f.name)
                        cnt = [v for v in vs if isinstance(v, int)]
                        rows = tab[0][1]
                        if self.on_lookup:
                            self.on_lookup(f, n, g, rows, cnt[0] if cnt else None)
                        hit = inter(p, norm(rows))
                        miss = minus(p, norm(rows))
                        if hit:
                            res.append(Out(hit, e, 1))
                        if miss:
                            res.append(Out(miss, e, 0))
                    else:
                        res += self.function(g, p, vs, e, depth + 1)
                return res
            return [Out(s, env, f.text(n))]
        return [Out(s, env, f.text(n))]


def loops(f):
    seen, stack, st = set(), [(f.entry, iter(f.blocks[f.entry]["s"]))], {f.entry}
    while stack:
        b, it = stack[-1]
        for x in it:
            if x is None or x < 0:
                continue
            if x in st:
                return True
            if x not in seen:
                seen.add(x)
                st.add(x)
                stack.append((x, iter(f.blocks[x]["s"])))
                break
        else:
            stack.pop()
            st.discard(b)
    return False


def arith(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        try:
            return {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "<<": a << b if 0 <= b < 64 else None, ">>": a >> b if 0 <= b < 64 else None}[op]
        except KeyError:
            return None
    if op in "+-" and isinstance(a, tuple) and a[0] == "x" and isinstance(b, int):
        return ("x", a[1] + (b if op == "+" else -b))
    if op == "+" and isinstance(b, tuple) and b[0] == "x" and isinstance(a, int):
        return ("x", b[1] + a)
    return None


SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def compare(s, env, op, a, b, text):
    if isinstance(a, int) and isinstance(b, int):
        return [Out(s, env, int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]))]
    if isinstance(b, tuple) and b[0] == "x" and isinstance(a, int):
        a, b, op = b, a, SWAP[op]
    if isinstance(a, tuple) and a[0] == "x" and isinstance(b, int):
        c = b - a[1]
        t = {"<": ((0, c - 1),), "<=": ((0, c),), ">": ((c + 1, TOP),), ">=": ((c, TOP),), "==": ((c, c),), "!=": ((0, c - 1), (c + 1, TOP))}[op]
        t = norm([(max(0, x), min(TOP, y)) for x, y in t])
        if a[1] < 0 and op in ("<", "<="):      # unsigned wrap of x - k
            t = inter(t, ((-a[1], TOP),))
        if a[1] < 0 and op in (">", ">="):
            t = norm(list(t) + [(0, -a[1] - 1)])
        yes, no = inter(s, t), minus(s, t)
        return [o for o in (Out(yes, env, 1), Out(no, env, 0)) if o.pts]
    if isinstance(a, int) and not isinstance(b, int):
        a, b, op = b, a, SWAP[op]
    return [Out(s, env, "%s %s %s" % (a, op, b) if isinstance(a, str) else text)]


def elems(b):
    """Indices of the expression elements of a block (destructor calls left out)."""
    return [e for e in b.get("e", ()) if isinstance(e, int)]
