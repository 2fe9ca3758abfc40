"""What the native code offers to scripts, and what the documentation comments promise."""
import os, re
import ir

DOC = re.compile(r"^\s*(///|---)\s?(.*)$")


class Api:
    """name -> (Func, condition); name is 'table.method' or 'class:method'"""
    def __init__(self, prog):
        self.prog = prog
        self.funcs, self.values, self.tables, self.classes = {}, {}, {}, {}
        self.dups = []
        for f in prog.funcs.values():
            if f.file.startswith(("clink/lua/src/", "clink/app/src/")) and f.callees & {"lua_setglobal", "lua_getglobal"}:
                self.scan(f)
        for usr, g in prog.globals.items():
            if g[0].endswith("::c_methods"):
                self.scan_class(ir.GlobalVar(prog, usr, *g), g[0][:-len("::c_methods")])

    def rows(self, f, il):
        """[(name, function usr, function name, flag)] for a table of name and function."""
        out = []
        for r in f.kids(il):
            r = f.strip(r) if r["k"] != "InitList" else r
            if r is None or r["k"] != "InitList":
                return []
            s = fn = flag = None
            for x in f.deep(r):
                if x["k"] == "Str":
                    s = x["s"]
                elif x["k"] == "Ref" and x.get("dk") == "fn" or x["k"] == "Member" and x.get("dk") == "fn":
                    fn = x
                elif x["k"] == "Lit" and "v" in x and not x.get("c"):
                    flag = x["v"]
            if fn is not None and s is not None:
                out.append((s, fn.get("f"), fn.get("n"), flag))
            elif s is not None or fn is not None:
                out.append((s, None, None, flag))
        return out

    def scan(self, f):
        ev = []
        tabs = {}
        for n in f.nodes:
            if not n:
                continue
            if n["k"] == "DeclStmt":
                for d in n["ds"]:
                    x = f.n(d["i"])
                    if x is not None and x["k"] == "InitList":
                        r = self.rows(f, x)
                        if r and all(y[1] for y in r):
                            tabs[d["v"]] = r
                    elif x is not None and x["k"] == "Ref" and x.get("dk") == "v":
                        ev.append((n["l"], 1, "use", x["d"]))
            elif n["k"] == "Call" and n.get("n") in ("lua_setglobal", "lua_getglobal", "lua_createtable", "lua_pushlstring", "lua_pushstring"):
                a = f.args(n)
                s = f.strip(a[1]) if len(a) > 1 else None
                s = s["s"] if s is not None and s["k"] == "Str" else None
                ev.append((n["l"], 0 if n["n"] != "lua_setglobal" else 2, n["n"], s))
        if not tabs:
            return
        ev.sort(key=lambda x: x[:2])
        for i, (l, _, k, v) in enumerate(ev):
            if k != "use" or v not in tabs:
                continue
            got = None
            cre = max([e[0] for e in ev[:i] if e[2] == "lua_createtable"], default=0)
            for e in ev[i + 1:]:
                if e[2] == "lua_createtable":
                    break
                if e[2] == "lua_setglobal":
                    got = e[3]
                    break
            if got is None:
                gl = [e for e in ev[:i] if e[2] == "lua_getglobal"]
                if gl:
                    got = gl[-1][3]
                    sub = [e[3] for e in ev if gl[-1][0] <= e[0] <= cre and e[2].startswith("lua_push") and e[3]]
                    if sub:
                        got += "." + sub[-1]
            if got is None:
                continue
            self.tables.setdefault(got, []).append((f, tabs[v]))
            for s, u, nm, flag in tabs[v]:
                k2 = got + "." + s
                if k2 in self.funcs:
                    self.dups.append((k2, f))
                self.funcs[k2] = (self.prog.funcs.get(u), flag, nm)
        last = None
        for l, _, k, v in ev:
            if k in ("lua_setglobal", "lua_getglobal"):
                continue
            if k.startswith("lua_push") and v:
                nxt = [e[3] for e in ev if e[2] == "lua_setglobal" and e[0] >= l]
                if nxt:
                    self.values.setdefault(nxt[0] + "." + v, f)

    def scan_class(self, g, cls):
        root = g.n(g.d["i"]) if "i" in g.d else None
        r = [x for x in self.rows(g, root) if x[0]] if root is not None else []
        name = cls
        for u, gg in self.prog.globals.items():
            if gg[0] == cls + "::c_name":
                gv = ir.GlobalVar(self.prog, u, *gg)
                for n in gv.nodes:
                    if n and n["k"] == "Str":
                        name = n["s"]
        self.classes[cls] = (name, r, g)


class Doc:
    __slots__ = ("name", "file", "line", "args", "rets", "deprecated", "var", "next")

    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line
        self.args, self.rets, self.deprecated, self.var, self.next = [], [], None, False, line


def docs(root, rels):
    out = []
    for rel in rels:
        text = open(os.path.join(root, rel), encoding="utf-8", errors="replace").read()
        if rel.endswith(".lua"):
            text = re.sub(r"--\[(=*)\[.*?\]\1\]", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S)
        lines = text.split("\n")
        cur = None
        for i, s in enumerate(lines, 1):
            m = DOC.match(s)
            if not m:
                if cur is not None and s.strip():
                    cur.next = i
                    out.append(cur)
                    cur = None
                continue
            t = m.group(2)
            m2 = re.match(r"-(name|arg|ret|deprecated|var):\s*(.*)", t)
            if not m2:
                continue
            k, v = m2.group(1), m2.group(2).strip()
            if k == "name":
                if cur is not None:
                    cur.next = -1
                    out.append(cur)
                cur = Doc(v, rel, i)
            elif cur is not None:
                if k == "arg":
                    cur.args.append(v)
                elif k == "ret":
                    cur.rets.append(v)
                elif k == "deprecated":
                    cur.deprecated = v
                else:
                    cur.var = True
        if cur is not None:
            out.append(cur)
    return out
