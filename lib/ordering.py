"""Abstract evaluation of comparison functions.

A comparator is evaluated on abstract items.  Whatever it reads from an item is an opaque term; comparing two terms asks an
oracle for the sign, and testing one asks for its truth.  The oracle answers with every combination that is consistent with each
kind of comparison being an order of its own (strcmp is one, strcmpi another, numbers another), so the finite set of answer
combinations covers every input.  Nothing is executed and no formula is solved: the laws of a strict weak order are then read off
the results for two and for three items.
"""
import time

THREE = {"strcmp": 0, "strcmpi": 0, "stricmp": 0, "_stricmp": 0, "wcscmp": 0, "wcsicmp": 0, "_wcsicmp": 0, "strcoll": 0, "strncmp": 0,
         "strnicmp": 0, "_strnicmp": 0, "wcsncmp": 0, "_wcsnicmp": 0, "memcmp": 0, "wmemcmp": 0, "lstrcmpW": 0, "lstrcmpiW": 0,
         "CompareStringW": 2, "CompareStringA": 2, "CompareStringOrdinal": 2, "CompareStringEx": 2, "compare": 0}
PURE_METHODS = {"c_str", "data", "get", "begin", "end", "length", "size", "str", "get_pointer", "empty"}


class Undetermined(Exception):
    pass


class Dead(Exception):
    pass


class Oracle:
    def __init__(self, prefix):
        self.prefix, self.made, self.alts = prefix, [], []
        self.rel = {}       # universe -> {(x, y): sign}
        self.truth = {}
        self.eqs = {}
        self.text = []

    def choose(self, opts, what):
        i = len(self.made)
        v = self.prefix[i] if i < len(self.prefix) else opts[0]
        if v not in opts:
            v = opts[0]
        self.made.append(v)
        self.alts.append(opts)
        self.text.append((what, v))
        return v

    def bool(self, atom):
        if atom not in self.truth:
            self.truth[atom] = self.choose((0, 1), show(atom))
        return self.truth[atom]

    def eq(self, t, k, univ="number"):
        """Is the term equal to the constant?  Equal terms give equal answers, and only one constant fits."""
        R = self.rel.get(univ, {})
        for u in [t] + [y for (x, y), s in R.items() if x == t and s == 0]:
            if (u, k) in self.eqs:
                return self.eqs[(u, k)]
            if any(v and u2 == u for (u2, k2), v in self.eqs.items() if k2 != k):
                return 0
        v = self.choose((0, 1), "%s == %s" % (show(t), show(k)))
        self.eqs[(t, k)] = v
        return v

    def sign(self, univ, x, y):
        if x == y:
            return 0
        R = self.rel.setdefault(univ, {})
        if (x, y) in R:
            return R[(x, y)]
        must = None
        for (u, k), v in self.eqs.items():
            if u == x and (y, k) in self.eqs:
                if v and self.eqs[(y, k)]:
                    must = True
                elif v != self.eqs[(y, k)]:
                    must = False
        nodes = {a for p in R for a in p}
        if isinstance(x, tuple) and x[0] == "c":
            nodes.add(x)
        if isinstance(y, tuple) and y[0] == "c":
            nodes.add(y)
        for a in nodes:
            for b in nodes:
                if a[0] == "c" and b[0] == "c" and a != b:
                    R[(a, b)] = -1 if a[1] < b[1] else 1
        opts = tuple(s for s in (-1, 0, 1) if consistent(R, x, y, s) and (must is None or must == (s == 0)))
        if not opts:
            raise Dead()
        s = opts[0] if len(opts) == 1 else self.choose(opts, "%s of %s and %s" % (univ, show(x), show(y)))
        R[(x, y)] = s
        R[(y, x)] = -s
        return s


def consistent(R, x, y, s):
    """Would adding sign(x, y) = s leave a weak order?"""
    nodes = list({a for p in R for a in p} | {x, y})
    ix = {a: i for i, a in enumerate(nodes)}
    n = len(nodes)
    le = [[None] * n for _ in range(n)]     # None, 0 (<=), 1 (<)

    def put(a, b, v):
        if le[a][b] is None or v > le[a][b]:
            le[a][b] = v
    for (a, b), v in list(R.items()) + [((x, y), s)]:
        a, b = ix[a], ix[b]
        if v < 0:
            put(a, b, 1)
        elif v > 0:
            put(b, a, 1)
        else:
            put(a, b, 0)
            put(b, a, 0)
    for k in range(n):
        for i in range(n):
            if le[i][k] is None:
                continue
            for j in range(n):
                if le[k][j] is not None:
                    put(i, j, max(le[i][k], le[k][j]))
    return all(le[i][i] != 1 for i in range(n))


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "item":
        return "abc"[t[1]]
    if k == "fld":
        return show(t[1]) + "." + t[2]
    if k == "*":
        return "*" + show(t[1])
    if k == "call":
        return t[1].rsplit("::", 1)[-1] + "(" + ", ".join(show(x) for x in t[2:]) + ")"
    if k == "bin":
        return show(t[2]) + t[1] + show(t[3])
    if k == "cast":
        return show(t[2])
    if k == "eq":
        return show(t[1]) + "==" + show(t[2])
    return k + "(" + ", ".join(show(x) for x in t[1:]) + ")"


def items(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == "item":
            out.add(t[1])
        else:
            for x in t:
                items(x, out)
    return out


def opaque(tag, *parts):
    return ("call", tag) + tuple(parts)


class Frame:
    __slots__ = ("f", "env", "val")

    def __init__(self, f):
        self.f, self.env, self.val = f, {}, {}


C = lambda v: ("c", int(v))


class Eval:
    """One evaluation session (one oracle); invocations of the comparator share it."""

    def __init__(self, prog, oracle, state):
        self.prog, self.o, self.state = prog, oracle, state
        self.both = state.setdefault("", set())     # calls that are given both items
        self.inv = 0
        self.same = []

    # ---- decisions -----------------------------------------------------------
    def truth(self, v):
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "bool":
            return self.truth(v[1])
        if v[0] == "diff":
            return self.sign(v[3], v[1], v[2]) != 0
        if len(items(v)) > 1:
            raise Undetermined("a test of " + show(v))
        return bool(self.o.bool(v))

    def equal(self, t, k, univ="number"):
        if len(items(t)) > 1:
            raise Undetermined("a test of " + show(t))
        return bool(self.o.eq(t, k, univ))

    def sign(self, univ, x, y, degenerate=True):
        for t in (x, y):
            if len(items(t)) > 1 and self.mixed_opaque(t):
                raise Undetermined("a comparison of " + show(t))
        if univ == "number":
            tested = [t for t, k in self.o.eqs] + list(self.o.truth)
            for t in (x, y):
                for a in outside(t):
                    if any(("*", a) == q for q in tested):
                        raise Undetermined("a test of an item that decides whether %s is compared" % show(t))
        if x == y and items(x) and degenerate and self.two:
            self.same.append((univ, show(x)))
        return self.o.sign(univ, x, y)

    @staticmethod
    def mixed_opaque(t):
        """A value computed from two items by something that is not looked into."""
        if not isinstance(t, tuple) or t[0] == "pair":
            return isinstance(t, tuple) and any(Eval.mixed_opaque(x) for x in t[1:])
        return len(items(t)) > 1

    # ---- variables -----------------------------------------------------------
    def slot(self, fr, v):
        while True:
            x = fr.env.get(v)
            if isinstance(x, tuple) and x and x[0] == "alias":
                fr, v = x[1], x[2]
                continue
            return fr, v

    def read(self, fr, v):
        fr, v = self.slot(fr, v)
        x = fr.env.get(v)
        if x is None:
            d = fr.f.vars[v]
            nm = d["n"]
            if (fr.f.usr, nm) in self.state:
                x = ("state", nm, self.inv)
            else:
                x = ("var", nm)
            fr.env[v] = x
        return x

    def write(self, fr, v, x):
        fr, v = self.slot(fr, v)
        d = fr.f.vars[v]
        if d.get("cap") or d.get("st"):
            self.state.setdefault((fr.f.usr, d["n"]), False)
        fr.env[v] = x

    def lroot(self, fr, n):
        """The variable an lvalue expression lives in."""
        f = fr.f
        while n is not None:
            n = f.strip(n)
            if n is None:
                return None
            if n["k"] == "Ref" and n.get("dk") == "v":
                return n["d"]
            if n["k"] in ("Member", "Index") or n["k"] == "Un" and n["op"] in ("*", "&"):
                n = f.kid(n, 0)
                continue
            return None
        return None

    # ---- expressions ---------------------------------------------------------
    def get(self, fr, i):
        if i is None or i < 0:
            return ("none",)
        if i in fr.val:
            return fr.val[i]
        return self.ev(fr, i)

    def ev(self, fr, i):
        f = fr.f
        n = f.nodes[i]
        v = self.ev1(fr, n)
        fr.val[i] = v
        return v

    def ev1(self, fr, n):
        f, k = fr.f, n["k"]
        c = n.get("c", ())
        g = lambda j: self.get(fr, c[j])
        if "v" in n and k in ("Lit", "Un", "Bin", "Ref", "SizeOf", "Member", "Cast") and isinstance(n["v"], int):
            return C(n["v"])
        if k == "Ref":
            if n.get("dk") == "v":
                return self.read(fr, n["d"])
            if n.get("dk") == "fn":
                return ("fn", n.get("f"))
            return ("glob", n.get("n", "?"))
        if k == "Lit":
            return C(n.get("v", 0)) if isinstance(n.get("v", 0), (int, bool)) else ("lit", str(n.get("v")))
        if k == "Null":
            return C(0)
        if k == "Str":
            return ("str", n.get("s", ""))
        if k == "This":
            return ("this",)
        if k == "Member":
            if n.get("dk") == "fn":
                return ("fn", n.get("f"))
            b = g(0)
            return ("fld", b, n["m"])
        if k == "Cast" or k in ("CXXFunctionalCastExpr", "InitList", "Construct") and len(c) == 1:
            x = g(0)
            t = f.ntype(n)
            if x[0] == "c":
                return C(bool(x[1])) if t["k"] == "bool" else x
            if t["k"] == "bool":
                return C(self.truth(x))
            if t["k"] == "int" and t.get("w", 32) < 32:
                return ("cast", t["s"].replace("const ", ""), x)
            return x
        if k == "Un":
            op = n["op"]
            if op in ("++", "--"):
                r = self.lroot(fr, f.kid(n, 0))
                if r is None:
                    raise Undetermined("an increment")
                x = self.read(fr, r)
                y = C(x[1] + (1 if op == "++" else -1)) if x[0] == "c" else ("bin", op, x, C(1))
                self.write(fr, r, y)
                return x if n.get("post") else y
            x = g(0)
            if op == "!":
                return C(not self.truth(x))
            if x[0] == "c" and op in ("-", "~", "+"):
                return C({"-": -x[1], "~": ~x[1], "+": x[1]}[op])
            if op == "*":
                return ("*", x)
            if op in ("&", "+"):
                return x
            if op == "-":
                return self.binary("-", C(0), x)
            return ("bin", op, C(0), x)
        if k == "Bin":
            op = n["op"]
            if op == "&&":
                return C(self.truth(g(0)) and self.truth(g(1)))
            if op == "||":
                return C(self.truth(g(0)) or self.truth(g(1)))
            if op == ",":
                g(0)
                return g(1)
            return self.binary(op, g(0), g(1))
        if k == "Cond":
            return g(1) if self.truth(g(0)) else g(2)
        if k == "Asg":
            op = n["op"]
            r = self.lroot(fr, f.kid(n, 0))
            if r is None:
                raise Undetermined("an assignment through " + f.text(f.kid(n, 0)))
            x = g(1)
            if op != "=":
                x = self.binary(op[:-1], self.read(fr, r), x)
            t = f.ntype(n)
            if x[0] != "c" and t["k"] == "bool":
                x = C(self.truth(x))
            elif x[0] == "c" and t["k"] == "bool":
                x = C(bool(x[1]))
            self.write(fr, r, x)
            return x
        if k == "DeclStmt":
            for d in n["ds"]:
                t = f.vtype(d["v"])
                if d["i"] < 0:
                    fr.env[d["v"]] = ("uninit",)
                    continue
                if t["s"].endswith("&") and not t["s"].startswith("const "):
                    r = self.lroot(fr, f.nodes[d["i"]])
                    if r is not None and f.strip(f.nodes[d["i"]])["k"] == "Ref":
                        fr.env[d["v"]] = ("alias", fr, r)
                        continue
                x = self.get(fr, d["i"])
                if t["k"] == "bool":
                    x = C(self.truth(x))
                elif t["k"] == "int" and t.get("w", 32) < 32 and x[0] != "c":
                    x = ("cast", t["s"].replace("const ", ""), x)
                fr.env[d["v"]] = x
            return ("none",)
        if k == "Index":
            if g(1) == C(0):
                return ("*", g(0))
            return ("fld", g(0), "[%s]" % show(g(1)))
        if k in ("Call", "Construct"):
            return self.call(fr, n)
        if k == "Lambda":
            return ("fn", n.get("f"))
        parts = tuple(self.get(fr, j) for j in c)
        return opaque(k, *parts)

    def binary(self, op, x, y, univ="number"):
        if x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]
            try:
                return C({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b,
                          ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                          ">>": lambda: a >> b, "<<": lambda: a << b, "/": lambda: a // b if b else 0, "%": lambda: a % b if b else 0}[op]())
            except KeyError:
                raise Undetermined("operator " + op)
        ix, iy = items(x), items(y)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if x[0] == "diff" and y == C(0):
                x, y = C(self.sign(x[3], x[1], x[2])), y
                return self.binary(op, x, y)
            if y[0] == "diff" and x == C(0):
                return self.binary(op, x, C(self.sign(y[3], y[1], y[2])))
            if op in ("==", "!=") and (x[0] == "c" or y[0] == "c") and not (ix and iy):
                t, k = (y, x) if x[0] == "c" else (x, y)
                r = (not self.truth(t)) if k[1] == 0 else self.equal(t, k)
                return C(r == (op == "=="))
            s = self.sign(univ, x, y)
            return C({"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op])
        if op == "-" and (ix or iy):
            if x == C(0) and y[0] == "diff":
                return ("diff", y[2], y[1], univ)
            return ("diff", x, y, univ)
        return ("bin", op, x, y)

    # ---- calls ---------------------------------------------------------------
    def call(self, fr, n):
        f = fr.f
        nm = n.get("n", "") or ""
        sh = nm.rsplit("::", 1)[-1]
        av = [self.get(fr, j) for j in n.get("c", ())]
        ob = self.get(fr, n["o"]) if n.get("o", -1) >= 0 else None
        if n["k"] == "Construct":
            if not av:
                return ("empty",)
            return av[0] if len(av) == 1 else opaque(nm, *av)
        if sh in THREE:
            if ob is not None:
                av = [ob] + av
            if sh.startswith("CompareString"):
                k = 1 if sh == "CompareStringOrdinal" else 2
                fl = tuple(av[:k]) + (tuple(av[5:6]) if k == 1 else ())
                x, y = ("pair",) + tuple(av[k:k + 2]), ("pair",) + tuple(av[k + 2:k + 4])
            else:
                fl = tuple(av[2:])
                x, y = av[0], av[1]
            if not items(x) or not items(y) or any(items(z) for z in fl):
                if len(items(x) | items(y) | items(fl)) <= 1:
                    return opaque(sh, *av)
                raise Undetermined("a comparison limited by " + show(("call", "") + fl))
            un = sh + "".join(":" + show(z) for z in fl)
            return C(self.sign(un, x, y) + THREE[sh])
        if n.get("opc") and sh.startswith("operator"):
            op = sh[8:].strip()
            if op in ("<", ">", "<=", ">=", "==", "!="):
                args = ([ob] if ob is not None else []) + av
                tg = self.prog.targets(n)
                if len(args) == 2 and not any(t.blocks for t in tg):
                    return self.binary(op, args[0], args[1], univ="operator")
            if op in ("->", "*", "&") and not av and ob is not None:
                return ob if op == "->" else ("*", ob)
            if op == "[]" and ob is not None:
                return ("fld", ob, "[%s]" % show(av[0]))
        its = set()
        for z in av + ([ob] if ob is not None else []):
            items(z, its)
        tg = [t for t in self.prog.targets(n) if t.blocks]
        if len(tg) == 1 and (len(its) > 1 or not self.two and (fr.f.usr, n["l"], nm) in self.both):
            self.both.add((fr.f.usr, n["l"], nm))
            return self.inline(fr, n, tg[0], av, ob)
        if len(tg) == 1 and its and counts(tg[0]):
            return self.inline(fr, n, tg[0], av, ob)
        # anything else: a value that depends on what is passed; arguments it may change are given a new value
        outs = []
        params = {v["p"]: i for i, v in enumerate(tg[0].vars) if "p" in v} if tg else {}
        for j, ci in enumerate(n.get("c", ())):
            a = f.strip(f.nodes[ci]) if ci >= 0 else None
            if a is None:
                continue
            if tg:
                if j not in params:
                    continue
                s = tg[0].vtype(params[j])["s"]
                mut = s.endswith("&") and not s.startswith("const ") and not s.endswith("&&")
            else:
                mut = a["k"] == "Un" and a["op"] == "&"
            if mut:
                r = self.lroot(fr, a)
                if r is not None:
                    outs.append((j, r))
        if ob is not None and not n.get("cm") and sh not in PURE_METHODS and not sh.startswith("operator"):
            r = self.lroot(fr, f.obj(n))
            if r is not None:
                outs.append(("o", r))
        everything = tuple(av) + ((ob,) if ob is not None else ())
        for j, r in outs:
            self.write(fr, r, ("empty",) if sh == "clear" else opaque(nm + "#%s" % j, *everything))
        return opaque(nm, *everything)

    def inline(self, fr, n, g, av, ob):
        if getattr(self, "depth", 0) > 6:
            raise Undetermined("recursion")
        nf = Frame(g)
        args = fr.f.args(n)
        for i, v in enumerate(g.vars):
            if "p" not in v:
                continue
            p = v["p"]
            if p >= len(av):
                continue
            s = g.vtype(i)["s"]
            a = fr.f.strip(args[p]) if args[p] is not None else None
            if s.endswith("&") and not s.startswith("const ") and a is not None and a["k"] == "Ref" and a.get("dk") == "v":
                nf.env[i] = ("alias", fr, a["d"])
            else:
                nf.env[i] = av[p]
        self.depth = getattr(self, "depth", 0) + 1
        try:
            return self.run(nf)
        finally:
            self.depth -= 1

    # ---- control flow --------------------------------------------------------
    def run(self, fr):
        f = fr.f
        loops = loops_of(f)
        b, steps, first = f.entry, 0, set()
        ret = ("none",)
        while b is not None and b >= 0 and b != f.exit:
            steps += 1
            if steps > 400:
                raise Undetermined("too long")
            # the first iteration is followed, so that a loop that is not entered changes nothing; after it, whatever the loop
            # sets depends on what it reads
            if b in loops and b not in first:
                first.add(b)
            elif b in loops:
                body, targets = loops[b]
                if targets is None:
                    raise Undetermined("a loop in " + f.name)
                self.havoc(fr, body)
                b = targets
                continue
            bl = f.blocks[b]
            returned = False
            for e in bl.get("e", ()):
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                if n is None:
                    continue
                if n["k"] == "Return":
                    ret = self.get(fr, n["c"][0]) if n.get("c") else ("none",)
                    returned = True
                    continue
                self.ev(fr, e)
            if returned:
                return ret
            ss = bl.get("s", [])
            if len(ss) == 1:
                b = ss[0]
            elif len(ss) == 2:
                tc = bl.get("tc", -1)
                if tc is None or tc < 0:
                    raise Undetermined("a branch")
                v = self.truth(self.get(fr, tc))
                if f.nodes[tc]["k"] not in ("Ref",):
                    fr.val[tc] = C(v) if fr.val.get(tc, ("x",))[0] != "c" else fr.val[tc]
                b = ss[0 if v else 1]
            elif not ss:
                raise Dead()
            else:
                raise Undetermined("a switch")
            if b is not None and b < 0:
                raise Dead()
        return ret

    def havoc(self, fr, body):
        f = fr.f
        asg, ins = set(), set()
        for b in body:
            for e in f.blocks[b].get("e", ()):
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                if n is None:
                    continue
                fr.val.pop(e, None)
                if n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--"):
                    r = self.lroot(fr, f.kid(n, 0))
                    if r is not None:
                        asg.add(r)
                if n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        asg.add(d["v"])
                if n["k"] == "Ref" and n.get("dk") == "v":
                    x = fr.env.get(n["d"])
                    if x is not None:
                        x = self.read(fr, n["d"])
                        if items(x):
                            ins.add(x)
                if n["k"] == "Return":
                    raise Undetermined("a loop that returns")
        t = opaque("loop", *sorted(ins, key=repr))
        for r in asg:
            self.write(fr, r, t)

    two = True

    def compare(self, f, a, b):
        """The comparator's answer for items a and b."""
        self.inv += 1
        self.two = a != b
        fr = Frame(f)
        ps = sorted((v["p"], i) for i, v in enumerate(f.vars) if "p" in v)
        for (p, i), it in zip(ps, (a, b)):
            fr.env[i] = ("item", it)
        v = self.run(fr)
        return v

    def result(self, f, a, b):
        v = self.compare(f, a, b)
        if v[0] == "diff":
            v = C(self.sign(v[3], v[1], v[2]))
        if v[0] != "c":
            if items(v) and len(items(v)) > 1:
                raise Undetermined("a result " + show(v))
            v = C(self.truth(v))
        return v[1]


def outside(t):
    """The items passed to functions that are not looked into, inside a term."""
    if isinstance(t, tuple):
        if t and t[0] == "call" and t[1] != "loop" and "#" not in t[1]:
            for a in t[2:]:
                yield a
        for a in t:
            yield from outside(a)


def counts(f):
    """A small function with a loop, such as one that counts something: what it does when the loop is not entered matters."""
    l = loops_of(f)
    if any("p" in v and f.type(v["t"])["s"].endswith("&") and not f.type(v["t"])["s"].startswith("const ") for v in f.vars) \
            or any(n and n["k"] in ("Call", "Construct") for n in f.nodes):
        return False
    return bool(l) and len(f.blocks) <= 9 and all(t is not None for b, t in l.values()) and not any(
        n and n["k"] == "Return" for b, t in l.values() for x in b for e in f.blocks[x].get("e", ()) if isinstance(e, int) for n in (f.nodes[e],))


def loops_of(f):
    r = f.cachebag.get("ordloops")
    if r is not None:
        return r
    r = {}
    color, st = {}, [(f.entry, iter(f.blocks[f.entry].get("s", ())))]
    color[f.entry] = 1
    back = []
    while st:
        b, it = st[-1]
        for s in it:
            if s < 0:
                continue
            if color.get(s) == 1:
                back.append((b, s))
            elif s not in color:
                color[s] = 1
                st.append((s, iter(f.blocks[s].get("s", ()))))
                break
        else:
            color[b] = 2
            st.pop()
    preds = f.preds()
    for t, h in back:
        body, w = {h, t}, [t] if t != h else []
        while w:
            x = w.pop()
            for p in preds.get(x, ()):
                if p not in body:
                    body.add(p)
                    w.append(p)
        if h in r:
            body |= r[h][0]
        outs = {s for x in body for s in f.blocks[x].get("s", ()) if s >= 0 and s not in body}
        r[h] = (body, outs.pop() if len(outs) == 1 else None)
    f.cachebag["ordloops"] = r
    return r


class Outcome:
    def __init__(self):
        self.bad = {}
        self.cases = 0
        self.undetermined = {}
        self.same = {}
        self.answers = set()
        self.last = {}


def explore(make, body, out, cap=60000):
    """Calls body(session) for every consistent combination of answers."""
    prefix = []
    n = 0
    end = time.time() + 60
    while True:
        o = Oracle(prefix)
        s = make(o)
        try:
            body(s)
            out.cases += 1
        except Undetermined as e:
            out.undetermined[str(e)] = out.undetermined.get(str(e), 0) + 1
        except Dead:
            pass
        n += 1
        made, alts = o.made, o.alts
        i = len(made) - 1
        while i >= 0 and alts[i].index(made[i]) == len(alts[i]) - 1:
            i -= 1
        if i < 0:
            return True
        prefix = made[:i] + [alts[i][alts[i].index(made[i]) + 1]]
        if n >= cap or time.time() > end:
            return False


def laws(make, result, kind, out, cap=60000):
    """kind: 'less' (a boolean order), 'three' (a signed result) or 'equal' (an equivalence)."""
    def fail(law, s, why):
        if law not in out.bad:
            out.bad[law] = (why, ["%s = %s" % (w, {0: "equal/false", 1: "greater/true", -1: "less"}.get(v, v)) for w, v in s.o.text])

    def sgn(x):
        return (x > 0) - (x < 0)

    def one(s):
        r = result(s, 0, 0)
        if kind == "equal":
            if not r:
                fail("reflexive", s, "an item is not equal to itself")
        elif r:
            fail("irreflexive", s, "an item is ordered before itself" if kind == "less" else "an item does not compare equal to itself")

    def two(s):
        r = result(s, 0, 1)
        out.answers.add(sgn(r))
        if s.o.text and " of " in s.o.text[-1][0] and " and " in s.o.text[-1][0]:
            out.last.setdefault(s.o.text[-1][0], {}).setdefault(s.o.text[-1][1], set()).add(sgn(r))
        q = result(s, 1, 0)
        for u, t in s.same:
            out.same[(u, t)] = True
        if kind == "less" and r and q:
            fail("asymmetric", s, "both items are ordered before the other")
        if kind == "three" and sgn(r) != -sgn(q):
            fail("asymmetric", s, "comparing the items the other way round does not give the opposite answer")
        if kind == "equal" and bool(r) != bool(q):
            fail("symmetric", s, "one item equals the other but not the other way round")

    def three(s):
        if kind == "equal":
            r = result(s, 0, 1)
            if r and result(s, 1, 2) and not result(s, 0, 2):
                fail("transitive", s, "two items equal to a third are not equal to each other")
            return
        if kind == "less":
            if result(s, 0, 1):
                if result(s, 1, 2) and not result(s, 0, 2):
                    fail("transitive", s, "a before b and b before c, but not a before c")
            elif not result(s, 1, 0) and not result(s, 1, 2) and not result(s, 2, 1):
                if result(s, 0, 2) or result(s, 2, 0):
                    fail("equivalent", s, "two items equivalent to a third are ordered")
            return
        r = sgn(result(s, 0, 1))
        if r > 0:
            return
        q = sgn(result(s, 1, 2))
        if q > 0:
            return
        if sgn(result(s, 0, 2)) != (min(r, q)):
            fail("transitive", s, "the answers for three items do not agree")
    full = explore(make, one, out, cap)
    full = explore(make, two, out, cap) and full
    if kind != "equal":
        for w, by in sorted(out.last.items()):
            if -1 in by and 1 in by and len(by[-1] | by[1]) == 1:
                out.bad["effective"] = ("the result of one step is never used: " + w, [])
    if len(out.answers) == 1 and not out.undetermined:
        out.bad["effective"] = ("it gives the same answer for every two items", [])
    if not out.bad:
        full = explore(make, three, out, cap) and full
    return full


# ---- Lua -------------------------------------------------------------------------------------------------------------------

class LuaEval(Eval):
    """The same for a comparison function written in Lua."""

    NIL = ("nil",)

    def ltrue(self, v):
        if v == self.NIL or v == ("c", 0):
            return False
        if v[0] in ("c", "n", "str"):
            return True
        return self.truth(v)

    def lev(self, env, e):
        k = e.k
        if k == "nil":
            return self.NIL
        if k in ("true", "false"):
            return C(k == "true")
        if k == "num":
            return ("n", e.v)
        if k == "str":
            return ("str", e.v)
        if k == "paren":
            return self.lev(env, e.e)
        if k == "name":
            v = e.var
            if v is not None and v in env:
                return env[v]
            return ("glob", e.v)
        if k == "index":
            return ("fld", self.lev(env, e.o), show(self.lev(env, e.i)))
        if k == "un":
            x = self.lev(env, e.a)
            if e.op == "not":
                return C(not self.ltrue(x))
            return opaque("op" + e.op, x)
        if k == "bin":
            op = e.op
            if op in ("and", "or"):
                x = self.lev(env, e.a)
                return self.lev(env, e.b) if self.ltrue(x) == (op == "and") else x
            x, y = self.lev(env, e.a), self.lev(env, e.b)
            if op in ("==", "~="):
                if x == y:
                    r = True
                elif self.NIL in (x, y):
                    r = not self.ltrue(y if x == self.NIL else x)
                elif not items(x) and not items(y):
                    if x[0] in ("n", "str", "c") and y[0] in ("n", "str", "c"):
                        r = False
                    else:
                        r = bool(self.o.bool(("eq", x, y)))
                elif not items(x) or not items(y):
                    t, c = (y, x) if not items(x) else (x, y)
                    r = self.equal(t, c, "lua")
                else:
                    r = self.sign("lua", x, y) == 0
                return C(r == (op == "=="))
            if op in ("<", ">", "<=", ">="):
                s = self.sign("lua", x, y)
                return C({"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op])
            if op == "-" and items(x) and items(y):
                raise Undetermined("a difference")
            return opaque("op" + op, x, y)
        if k in ("call", "method"):
            av = [self.lev(env, a) for a in e.args]
            if k == "method":
                return opaque("method:" + e.m, self.lev(env, e.o), *av)
            fn = e.f
            if fn.k == "name" and fn.var is not None and fn.var in env and isinstance(env[fn.var], tuple) and env[fn.var][0] == "lfn":
                return self.lcall(env[fn.var][1], av)
            t = self.funcs.get(fn.var) if fn.k == "name" and fn.var is not None else None
            if t is not None and len({i for a in av for i in items(a)}) > 1:
                return self.lcall(t, av)
            return opaque("call:" + show(self.lev(env, fn)), *av)
        if k == "func":
            return ("lfn", e)
        return opaque(k)

    def lcall(self, f, av):
        if getattr(self, "depth", 0) > 6:
            raise Undetermined("recursion")
        env = dict(self.outer)
        for p, a in zip(f.params, av):
            env[p] = a
        for p in f.params[len(av):]:
            env[p] = self.NIL
        self.depth = getattr(self, "depth", 0) + 1
        try:
            r = self.lblock(env, f.body)
        finally:
            self.depth -= 1
        return self.NIL if r is None else r

    def lblock(self, env, body):
        for x in body:
            k = x.k
            if k == "local":
                vals = [self.lev(env, e) for e in x.exps]
                for i, v in enumerate(x.vars):
                    env[v] = vals[i] if i < len(vals) else (self.NIL if not x.exps or x.exps[-1].k not in ("call", "method") else opaque("result%d" % i, vals[-1]))
            elif k == "localfunc":
                env[x.var] = ("lfn", x.f)
            elif k == "assign":
                vals = [self.lev(env, e) for e in x.exps]
                for i, t in enumerate(x.targets):
                    if t.k != "name" or t.var is None or t.var not in env:
                        raise Undetermined("an assignment")
                    env[t.var] = vals[i] if i < len(vals) else self.NIL
            elif k == "callst":
                self.lev(env, x.e)
            elif k == "do":
                r = self.lblock(env, x.body)
                if r is not None:
                    return r
            elif k == "if":
                done = False
                for c, b in x.arms:
                    if self.ltrue(self.lev(env, c)):
                        r = self.lblock(env, b)
                        if r is not None:
                            return r
                        done = True
                        break
                if not done and x.orelse:
                    r = self.lblock(env, x.orelse)
                    if r is not None:
                        return r
            elif k == "return":
                return self.lev(env, x.exps[0]) if x.exps else self.NIL
            else:
                raise Undetermined("a " + k + " statement")
        return None

    funcs = {}
    outer = {}

    def lresult(self, f, args):
        self.inv += 1
        self.two = args[0] != args[1]
        v = self.lcall(f, [("item", a) if a is not None else ("glob", "t") for a in args])
        if len(items(v)) > 1:
            raise Undetermined("a result " + show(v))
        return int(self.ltrue(v))
