"""In-memory view of the facts dumped by tool/facts.cpp."""
import json, os, re
from collections import defaultdict
import extract
from extract import AnalysisBroken


class Func:
    __slots__ = ("usr", "name", "file", "line", "callees", "_js", "_d", "prog", "_prep", "_preds", "cachebag")

    def __init__(self, prog, usr, name, file, line, callees, js):
        self.prog, self.usr, self.name, self.file, self.line = prog, usr, name, file, line
        self.callees = callees
        self._js, self._d, self._prep, self._preds = js, None, False, None
        self.cachebag = {}

    # --- raw data -----------------------------------------------------
    @property
    def d(self):
        if self._d is None:
            self._d = json.loads(self._js)
            self._js = None
        return self._d

    @property
    def nodes(self): return self.d["nodes"]
    @property
    def types(self): return self.d["types"]
    @property
    def vars(self): return self.d["vars"]
    @property
    def cls(self): return self.d.get("cls")
    @property
    def short(self): return self.name.rsplit("::", 1)[-1]
    def has(self, k): return bool(self.d.get(k))
    @property
    def blocks(self):
        bl = self.cachebag.get("blocks")
        if bl is None:
            bl = {b["i"]: b for b in self.d.get("blocks", [])}
            self.cachebag["blocks"] = bl
        return bl
    @property
    def entry(self): return self.d.get("entry")
    @property
    def exit(self): return self.d.get("exit")

    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in self.blocks.values():
                for s in b["s"]:
                    if s >= 0:
                        p[s].append(b["i"])
            self._preds = p
        return self._preds

    # --- types --------------------------------------------------------
    def type(self, i):
        return self.types[i] if i is not None and i >= 0 else {"s": "?", "k": "other"}

    def ntype(self, n):
        return self.type(n.get("t", -1))

    def vtype(self, v):
        return self.type(self.vars[v]["t"])

    def elt(self, t):
        return self.type(t.get("e", -1))

    # --- nodes --------------------------------------------------------
    def n(self, i):
        return self.nodes[i] if i is not None and i >= 0 else None

    def kids(self, n):
        return [self.nodes[c] for c in n.get("c", ()) if c >= 0]

    def kid(self, n, i):
        c = n.get("c", ())
        return self.nodes[c[i]] if i < len(c) and c[i] >= 0 else None

    def strip(self, n):
        """Sees through explicit casts, user conversions to a pointer/handle and single element braces."""
        while n is not None:
            if n["k"] == "Cast" and n.get("c"):
                n = self.kid(n, 0)
            elif n["k"] in ("CXXFunctionalCastExpr",) and n.get("c"):
                n = self.kid(n, 0)
            elif n["k"] == "InitList" and len(n.get("c", ())) == 1 and self.ntype(n)["k"] in ("int", "ptr", "bool", "enum"):
                n = self.kid(n, 0)
            else:
                break
        return n

    def deep(self, n, fn=None):
        """All nodes below and including n (lambdas are not entered)."""
        out, st, seen = [], [n], set()
        while st:
            x = st.pop()
            if x is None or id(x) in seen:
                continue
            seen.add(id(x))
            out.append(x)
            for key in ("o", "fn"):
                if key in x and isinstance(x[key], int) and x[key] >= 0:
                    st.append(self.nodes[x[key]])
            for c in x.get("c", ()):
                if c >= 0:
                    st.append(self.nodes[c])
            for dcl in x.get("ds", ()):
                if dcl["i"] >= 0:
                    st.append(self.nodes[dcl["i"]])
        return out

    def calls(self, name=None):
        """Call/Construct nodes, optionally with a matching callee name (str or set or predicate)."""
        for n in self.nodes:
            if n and n["k"] in ("Call", "Construct"):
                if name is None or match(n.get("n"), name):
                    yield n

    def args(self, n):
        return [self.nodes[c] if c >= 0 else None for c in n.get("c", ())]

    def obj(self, n):
        return self.nodes[n["o"]] if "o" in n and n["o"] >= 0 else None

    # --- access paths ---------------------------------------------------
    def path(self, n):
        """A canonical tuple for an lvalue/rvalue made of variables, this, fields, derefs; or None."""
        n = self.strip(n)
        if n is None:
            return None
        k = n["k"]
        if k == "Ref":
            if n.get("dk") == "v":
                return ("v", n["d"])
            if n.get("dk") == "g":
                return ("g", n["n"])
            return None
        if k == "This":
            return ("this",)
        if k == "Member" and n.get("dk") == "g":
            return ("g", n["n"])
        if k == "Member" and n.get("dk") != "fn":
            b = self.path(self.kid(n, 0))
            if b is None:
                return None
            return b + ("." + n["m"],)
        if k == "Un" and n["op"] == "*":
            b = self.path(self.kid(n, 0))
            return None if b is None else b + ("*",)
        if k == "Un" and n["op"] == "&":
            b = self.path(self.kid(n, 0))
            if b is None:
                return None
            if b[-1] == "*":
                return b[:-1]
            return ("&",) + b
        if k == "Call" and n.get("opc") and n.get("n", "").endswith("operator->"):
            return self.path(self.obj(n))
        if k == "Call" and n.get("n", "").rsplit("::", 1)[-1] == "get" and not n.get("c"):
            b = self.path(self.obj(n))
            return None if b is None else b
        if k == "Call" and n.get("n", "").rsplit("::", 1)[-1].startswith("operator ") and "o" in n and not n.get("c"):
            return self.path(self.obj(n))  # conversion operator
        return None

    def text(self, n, depth=0):
        """Readable rendering of an expression for reports."""
        if n is None:
            return ""
        if depth > 6:
            return "..."
        k = n["k"]
        t = lambda x: self.text(x, depth + 1)
        if k in ("Ref",):
            return n.get("n", "?").rsplit("::", 1)[-1]
        if k == "Member":
            b = self.kid(n, 0)
            if b is not None and b["k"] == "This":
                return n["m"]
            return t(b) + "." + n["m"]
        if k == "This":
            return "this"
        if k == "Call":
            o = self.obj(n)
            nm = n.get("n", "?").rsplit("::", 1)[-1] if "n" in n else t(self.n(n.get("fn", -1)))
            return (t(o) + "." if o is not None and o["k"] != "This" else "") + nm + "(" + ", ".join(t(a) for a in self.args(n) if a is not None) + ")"
        if k == "Construct":
            return n.get("cls", "?").rsplit("::", 1)[-1] + "(" + ", ".join(t(a) for a in self.args(n) if a is not None) + ")"
        if k in ("Bin", "Asg"):
            return t(self.kid(n, 0)) + " " + n["op"] + " " + t(self.kid(n, 1))
        if k == "Un":
            x = t(self.kid(n, 0))
            return x + n["op"] if n.get("post") else n["op"] + x
        if k == "Lit":
            return str(n.get("v"))
        if k == "Str":
            return json.dumps(n.get("s", ""))
        if k == "Null":
            return "nullptr"
        if k == "Index":
            return t(self.kid(n, 0)) + "[" + t(self.kid(n, 1)) + "]"
        if k == "Cast":
            return t(self.kid(n, 0))
        if k == "SizeOf":
            return "sizeof(...)"
        if k == "DeclStmt":
            return "; ".join(self.vars[x["v"]]["n"] + (" = " + t(self.nodes[x["i"]]) if x["i"] >= 0 else "") for x in n["ds"])
        if k == "Return":
            return "return " + t(self.kid(n, 0))
        return k

    def where(self, n):
        return "%s:%d" % (self.file, n.get("l", self.line) if n else self.line)

    def __repr__(self):
        return "<%s %s:%d>" % (self.name, self.file, self.line)


def match(name, pat):
    if name is None:
        return False
    if isinstance(pat, str):
        return name == pat
    if callable(pat):
        return pat(name)
    return name in pat


class Record:
    def __init__(self, name, file, d):
        self.name, self.file, self.d = name, file, d
        self.fields = {f["n"]: f for f in d["fields"]}
        self.bases = d.get("bases", [])

    def ftype(self, f):
        return self.d["types"][self.fields[f]["t"]]

    def typ(self, i):
        return self.d["types"][i] if i is not None and i >= 0 else {"s": "?", "k": "other"}


class Program:
    def __init__(self, files, srcs):
        self.srcs = srcs
        self.funcs = {}
        self.byname = defaultdict(list)
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.errors = []
        self.nocfg = 0
        for fn in files:
            with open(fn, encoding="utf-8", errors="replace", newline="\n") as f:
                for line in f:
                    tag = line[0]
                    if tag == "F":
                        _, usr, name, file, ln, callees, js = line.split("\t", 6)
                        if usr in self.funcs:
                            continue
                        fo = Func(self, usr, name, file, int(ln), set(callees.split("\x01")) - {""}, js)
                        self.funcs[usr] = fo
                        self.byname[name].append(fo)
                    elif tag == "R":
                        _, name, file, js = line.split("\t", 3)
                        if name not in self.records:
                            self.records[name] = Record(name, file, json.loads(js))
                    elif tag == "G":
                        _, usr, name, file, js = line.split("\t", 4)
                        if usr not in self.globals:
                            self.globals[usr] = (name, file, js)
                    elif tag == "N":
                        _, name, file, js = line.split("\t", 3)
                        self.enums.setdefault(name, json.loads(js))
                    elif tag == "E":
                        self.errors.append(line[2:].strip())
        self._over = None
        self._callers = None
        self._subs = None

    # -- lookups ---------------------------------------------------------
    def fcomp(self, cls, name):
        """Path component of a field; names used by several classes carry the class that declares them."""
        t = getattr(self, "_fcomp", None)
        if t is None:
            t = self._fcomp = defaultdict(int)
            for r in self.records.values():
                for f in r.fields:
                    t[f] += 1
        return "." + name if t.get(name, 0) <= 1 or not cls else ".%s`%s" % (name, cls)

    def fn(self, name, optional=False):
        l = self.byname.get(name, [])
        if not l and not optional:
            raise AnalysisBroken("function %s not found in the analysed sources" % name)
        return l[0] if l else None

    def fns(self, name):
        return self.byname.get(name, [])

    def find(self, pred):
        return [f for f in self.funcs.values() if pred(f)]

    def in_files(self, *prefixes):
        return [f for f in self.funcs.values() if f.file.startswith(prefixes)]

    def calling(self, names):
        """Functions that contain a call to one of the given qualified names."""
        names = {names} if isinstance(names, str) else set(names)
        return [f for f in self.funcs.values() if f.callees & names]

    def record(self, name):
        r = self.records.get(name)
        if r is None:
            raise AnalysisBroken("class %s not found in the analysed sources" % name)
        return r

    # -- virtual dispatch / call graph -------------------------------------
    def overriders(self, usr):
        if self._over is None:
            o = defaultdict(set)
            for f in self.funcs.values():
                for b in f.d.get("overrides", ()):
                    o[b].add(f.usr)
            self._over = o
        out, st = set(), [usr]
        while st:
            u = st.pop()
            for x in self._over.get(u, ()):
                if x not in out:
                    out.add(x)
                    st.append(x)
        return out

    def targets(self, call):
        """Function definitions a call node may reach (direct, or all overriders when virtual)."""
        u = call.get("f")
        out = []
        if u is None:
            return out
        if u in self.funcs:
            out.append(self.funcs[u])
        if call.get("virt"):
            out += [self.funcs[x] for x in self.overriders(u) if x in self.funcs]
        return out

    def callers(self):
        if self._callers is None:
            c = defaultdict(set)
            for f in self.funcs.values():
                for n in f.nodes:
                    if not n:
                        continue
                    if n["k"] in ("Call", "Construct", "Delete"):
                        for t in self.targets(n):
                            c[t.usr].add(f.usr)
                    elif n["k"] == "Lambda" and n.get("f") in self.funcs:
                        c[n["f"]].add(f.usr)
                for b in f.blocks.values():
                    for e in b.get("e", ()):
                        if isinstance(e, dict) and e.get("f") in self.funcs:
                            c[e["f"]].add(f.usr)
            self._callers = c
        return self._callers

    def subclasses(self, name):
        if self._subs is None:
            s = defaultdict(set)
            for r in self.records.values():
                for b in r.bases:
                    s[b].add(r.name)
            self._subs = s
        out, st = set(), [name]
        while st:
            for x in self._subs.get(st.pop(), ()):
                if x not in out:
                    out.add(x)
                    st.append(x)
        return out

    def callees_of(self, f):
        """Direct call targets (definitions) including implicit destructors and lambdas created."""
        out = set()
        for n in f.nodes:
            if not n:
                continue
            if n["k"] in ("Call", "Construct", "Delete"):
                for t in self.targets(n):
                    out.add(t.usr)
            elif n["k"] == "Lambda" and n.get("f") in self.funcs:
                out.add(n["f"])
        for b in f.blocks.values():
            for e in b.get("e", ()):
                if isinstance(e, dict) and e.get("f") in self.funcs:
                    out.add(e["f"])
        return out

    def reachable(self, roots, stop=None):
        """usr -> predecessor usr, for every function reachable from the roots."""
        seen = {r.usr: None for r in roots}
        st = [r.usr for r in roots]
        while st:
            u = st.pop()
            f = self.funcs[u]
            if stop and stop(f):
                continue
            for v in self.callees_of(f):
                if v not in seen:
                    seen[v] = u
                    st.append(v)
        return seen

    def chain(self, seen, usr):
        out = []
        while usr is not None:
            out.append(self.funcs[usr].name)
            usr = seen[usr]
        return list(reversed(out))


class GlobalVar:
    """Presents a global's initialiser with the Func node interface."""
    def __init__(self, prog, usr, name, file, js):
        self.prog, self.usr, self.name, self.file = prog, usr, name, file
        self.d = json.loads(js)
        self.line = self.d.get("line", 0)
        self.cachebag = {}
    nodes = Func.nodes
    types = Func.types
    vars = Func.vars
    type = Func.type
    ntype = Func.ntype
    elt = Func.elt
    n = Func.n
    kids = Func.kids
    kid = Func.kid
    strip = Func.strip
    deep = Func.deep
    args = Func.args
    obj = Func.obj
    path = Func.path
    text = Func.text
    where = Func.where
    calls = Func.calls


def globals_of(prog):
    for usr, (name, file, js) in prog.globals.items():
        yield GlobalVar(prog, usr, name, file, js)


_progs = {}


def load(groups=None, only=None):
    key = (tuple(groups or ()), id(only) if only else None)
    if key not in _progs:
        files, srcs = extract.extract(groups, only)
        _progs[key] = Program(files, srcs)
    return _progs[key]
