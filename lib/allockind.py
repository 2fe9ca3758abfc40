"""Which allocator a pointer's block comes from: flow-insensitive, field-based propagation from allocation sites."""
import re
from collections import defaultdict

ALLOC = {"malloc": "malloc", "calloc": "malloc", "realloc": "malloc", "strdup": "malloc", "_strdup": "malloc", "wcsdup": "malloc", "_wcsdup": "malloc",
         "xmalloc": "malloc", "xrealloc": "malloc", "LocalAlloc": "LocalAlloc", "GlobalAlloc": "GlobalAlloc", "HeapAlloc": "HeapAlloc", "VirtualAlloc": "VirtualAlloc",
         "CoTaskMemAlloc": "CoTaskMemAlloc", "lua_newuserdata": "Lua",
         # Readline allocates what it returns with malloc
         "tilde_expand": "malloc", "rl_copy_text": "malloc", "rl_untranslate_keyseq": "malloc", "_rl_untranslate_macro_value": "malloc", "rl_make_bare_keymap": "malloc",
         "CommandLineToArgvW": "LocalAlloc"}
FREE = {"free": ("malloc", 0), "xfree": ("malloc", 0), "realloc": ("malloc", 0), "xrealloc": ("malloc", 0), "LocalFree": ("LocalAlloc", 0), "GlobalFree": ("GlobalAlloc", 0),
        "HeapFree": ("HeapAlloc", 2), "VirtualFree": ("VirtualAlloc", 0), "CoTaskMemFree": ("CoTaskMemAlloc", 0)}
ELT = {"operator[]", "at", "front", "back", "operator*", "top"}
PUT = {"push_back", "emplace_back", "push_front", "push", "insert", "emplace"}
SAME = {"begin", "end", "rbegin", "rend", "find", "data"}
WORD = {"malloc": "malloc/calloc/realloc", "new": "new", "new[]": "new[]"}


class Kinds:
    def __init__(self, prog, want):
        self.prog = prog
        self.edges = defaultdict(set)
        self.kinds = defaultdict(dict)     # location -> {kind: origin}
        self.frees = []                    # (function, node, op, kind expected, location, operand)
        self.allocs = 0
        for f in prog.funcs.values():
            if want(f):
                self.scan(f)
        self.solve()

    # -- locations ---------------------------------------------------------
    def loc(self, f, n):
        """Location an expression reads its pointer from; ("alloc", kind, where) for an allocation."""
        n = f.strip(n)
        if n is None:
            return None
        k = n["k"]
        if k == "Ref":
            if n.get("dk") == "v":
                v = f.vars[n["d"]]
                return ("v", f.usr, n["d"])
            return ("g", n["n"]) if n.get("dk") == "g" else None
        if k == "Member" and n.get("dk") != "fn":
            return ("g", n["n"]) if n.get("dk") == "g" else ("f", n.get("cls"), n["m"])
        if k == "Index" or (k == "Un" and n["op"] == "*"):
            b = self.loc(f, f.kid(n, 0))
            return b + ("[]",) if b and b[0] != "alloc" else None
        if k == "Un" and n["op"] == "&":
            b = self.loc(f, f.kid(n, 0))
            if b and b[-1] == "[]":
                return b[:-1]
            return None
        if k == "Asg":
            return self.loc(f, f.kid(n, 0))
        if k == "New":
            return ("alloc", "new[]" if n.get("arr") else "new", f.where(n)) if not n.get("c") or not self.placement(n) else None
        if k == "Call":
            nm = n.get("n", "")
            if nm in ALLOC:
                return ("alloc", ALLOC[nm], f.where(n))
            o = f.obj(n)
            s = nm.rsplit("::", 1)[-1]
            if o is not None and n.get("cls", "").startswith("std::"):
                if s in ELT:
                    b = self.loc(f, o)
                    return b + ("[]",) if b and b[0] != "alloc" else None
                if s in SAME:
                    return self.loc(f, o)
            if n.get("opc") and s == "operator*" and n.get("c") and o is None:
                b = self.loc(f, f.kid(n, 0))
                return b + ("[]",) if b and b[0] != "alloc" else None
            if s in ("move", "forward") and nm.startswith("std::") and n.get("c"):
                return self.loc(f, f.kid(n, 0))
            t = self.prog.targets(n)
            if t:
                return ("r", frozenset(x.usr for x in t))
        return None

    def placement(self, n):
        return bool(n.get("placement"))

    # -- propagation -------------------------------------------------------
    def flow(self, src, dst):
        if src is None or dst is None or dst[0] == "alloc":
            return
        if src[0] == "alloc":
            self.allocs += 1
            self.kinds[dst].setdefault(src[1], src[2])
            return
        if src[0] == "r" and len(src) == 2:
            for u in src[1]:
                self.edge(("r", u), dst)
            return
        if dst[0] == "r" and len(dst) == 2 and isinstance(dst[1], frozenset):
            return
        self.edge(src, dst)

    def edge(self, a, b):
        if a != b:
            self.edges[a].add(b)

    def scan(self, f):
        for n in f.nodes:
            if not n:
                continue
            k = n["k"]
            if k == "Asg" and n["op"] == "=":
                self.copy(f, f.kid(n, 1), self.loc(f, f.kid(n, 0)))
            elif k == "DeclStmt":
                for d in n.get("ds", ()):
                    if d["i"] >= 0:
                        self.copy(f, f.nodes[d["i"]], ("v", f.usr, d["v"]))
            elif k == "Return" and n.get("c"):
                self.copy(f, f.kid(n, 0), ("r", f.usr))
            elif k == "Delete":
                x = f.kid(n, 0)
                self.frees.append((f, n, "delete[]" if n.get("arr") else "delete", "new[]" if n.get("arr") else "new", self.loc(f, x), x))
            if k in ("Call", "Construct"):
                nm = n.get("n", "")
                a = f.args(n)
                if nm in FREE and len(a) > FREE[nm][1]:
                    kind, i = FREE[nm]
                    self.frees.append((f, n, nm, kind, self.loc(f, a[i]), a[i]))
                s = nm.rsplit("::", 1)[-1]
                if n.get("cls", "").startswith("std::") and s in PUT and f.obj(n) is not None:
                    b = self.loc(f, f.obj(n))
                    if b:
                        for x in a:
                            self.copy(f, x, b + ("[]",))
                    continue
                for t in (self.prog.targets(n) if nm else ()):
                    ps = t.d.get("params", ())
                    for x, p in zip(a, ps):
                        if x is None:
                            continue
                        d = ("v", t.usr, p)
                        self.copy(f, x, d)
                        y = f.strip(x)
                        if y is not None and y["k"] == "Un" and y["op"] == "&" or t.vtype(p)["k"] == "ref":
                            y = f.kid(y, 0) if y["k"] == "Un" and y["op"] == "&" else y
                            l = self.loc(f, y)
                            e = d + ("[]",) if t.vtype(p)["k"] != "ref" else d
                            if l and l[0] in ("v", "f", "g"):
                                self.edge(e, l)
                                self.edge(l, e)
        for b in f.blocks.values():
            for e in b.get("e", ()):
                if isinstance(e, dict) and "init" in e and e.get("e", -1) >= 0:
                    self.copy(f, f.nodes[e["e"]], ("f", f.cls, e["init"]))

    def copy(self, f, x, dst):
        if dst is None or x is None:
            return
        x = f.strip(x)
        if x is None:
            return
        if x["k"] in ("Cond", "ConditionalOperator"):
            for y in f.kids(x)[-2:]:
                self.copy(f, y, dst)
            return
        if x["k"] == "InitList":
            for y in f.kids(x):
                self.copy(f, y, dst + ("[]",))
            return
        src = self.loc(f, x)
        self.flow(src, dst)
        if src and src[0] not in ("alloc",) and not (src[0] == "r"):
            self.edge(src + ("[]",), dst + ("[]",))
            self.edge(dst + ("[]",), src + ("[]",))

    def solve(self):
        work = list(self.kinds)
        while work:
            a = work.pop()
            for b in self.edges.get(a, ()):
                new = {k: v for k, v in self.kinds[a].items() if k not in self.kinds[b]}
                if new:
                    self.kinds[b].update(new)
                    work.append(b)

    def of(self, l):
        if l is None:
            return {}
        if l[0] == "alloc":
            return {l[1]: l[2]}
        if l[0] == "r" and len(l) == 2 and isinstance(l[1], frozenset):
            o = {}
            for u in l[1]:
                o.update(self.kinds.get(("r", u), {}))
            return o
        return self.kinds.get(l, {})


def mismatches(k):
    """(function, node, message) of releases by an allocator that did not provide the block."""
    out = []
    for f, n, op, kind, l, x in k.frees:
        for got, org in sorted(k.of(l).items()):
            if got != kind:
                out.append((f, n, op, f.text(x), "%s releases %s, which may come from %s at %s" % (op, f.text(x), WORD.get(got, got), org)))
        if not op.startswith("delete"):
            t = f.elt(f.ntype(f.strip(x))) if f.strip(x) is not None else None
            r = k.prog.records.get(t.get("r") or t.get("s", "")) if t else None
            if r is not None and (r.d.get("dtoruser") or r.d.get("dtorvirt")):
                out.append((f, n, op, f.text(x), "%s releases %s without running the destructor of %s" % (op, f.text(x), r.name)))
    return out
