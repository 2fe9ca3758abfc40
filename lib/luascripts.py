"""Clink's own Lua scripts: definitions, uses and aliases of names shared with the native code."""
import glob, os
import extract, luafront
from luafront import kids, walk

STD = """_G _VERSION assert collectgarbage dofile error getmetatable ipairs load loadfile loadstring next pairs pcall print rawequal rawget rawlen rawset require select setmetatable tonumber tostring type xpcall
bit32.arshift bit32.band bit32.bnot bit32.bor bit32.btest bit32.bxor bit32.extract bit32.lrotate bit32.lshift bit32.replace bit32.rrotate bit32.rshift
coroutine.create coroutine.resume coroutine.running coroutine.status coroutine.wrap coroutine.yield
debug.debug debug.gethook debug.getinfo debug.getlocal debug.getmetatable debug.getregistry debug.getupvalue debug.getuservalue debug.sethook debug.setlocal debug.setmetatable debug.setupvalue
debug.setuservalue debug.traceback debug.upvalueid debug.upvaluejoin
io.close io.flush io.input io.lines io.open io.output io.popen io.read io.stderr io.stdin io.stdout io.tmpfile io.type io.write
math.abs math.acos math.asin math.atan math.atan2 math.ceil math.cos math.cosh math.deg math.exp math.floor math.fmod math.frexp math.huge math.ldexp math.log math.log10 math.max math.min math.modf
math.pi math.pow math.rad math.random math.randomseed math.sin math.sinh math.sqrt math.tan math.tanh
os.clock os.date os.difftime os.execute os.exit os.getenv os.remove os.rename os.setlocale os.time os.tmpname
package.config package.cpath package.loaded package.loaders package.loadlib package.path package.preload package.searchers package.searchpath package.seeall
string.byte string.char string.dump string.find string.format string.gmatch string.gsub string.len string.lower string.match string.rep string.reverse string.sub string.upper
table.concat table.insert table.maxn table.pack table.remove table.sort table.unpack""".split()
STD_METHODS = {x.split(".")[1] for x in STD if x.startswith("string.")} | {"close", "read", "write", "lines", "seek", "flush", "setvbuf"}


def root():
    return extract.REPO if hasattr(extract, "REPO") else os.environ.get("VERIF_REPO", "/repo")


def script_files(r):
    return sorted(os.path.relpath(x, r) for x in glob.glob(r + "/clink/*/scripts/*.lua"))


class Scripts:
    def __init__(self):
        self.root = root()
        self.chunks = luafront.load(self.root, script_files(self.root))
        self.alias = {}
        for c in self.chunks:
            for x in walk(c.main):
                if x.k == "local" and len(x.vars) == len(x.exps):
                    for v, e in zip(x.vars, x.exps):
                        if not v.writes:
                            d = self.dot(e)
                            if d:
                                self.alias[v] = d
        self.defs = {}
        self.methods = {}
        for c in self.chunks:
            for x in walk(c.main):
                if x.k == "function":
                    self.define(self.dot(x.target), x.f, c)
                    if x.target.k == "index":
                        self.methods.setdefault(x.target.i.v, []).append((c, x.f))
                elif x.k == "assign":
                    for i, t in enumerate(x.targets):
                        e = x.exps[i] if i < len(x.exps) else None
                        self.define(self.dot(t), e, c)
                        if t.k == "index" and t.i.k == "str":
                            self.methods.setdefault(t.i.v, []).append((c, e))
                elif x.k == "table":
                    for k, v in x.items:
                        if k is not None and k.k == "str":
                            self.methods.setdefault(k.v, []).append((c, v))

    def define(self, d, e, c):
        if d is None:
            return
        if d.startswith("_G."):
            d = d[3:]
        self.defs.setdefault(d, []).append((c, e))
        while e is not None and e.k == "bin" and e.op == "or":
            e = e.b
        if e is not None and e.k == "table":
            for k, v in e.items:
                if k is not None and k.k == "str":
                    self.define(d + "." + k.v, v, c)

    def dot(self, n):
        """The global name an expression denotes, through local aliases."""
        if n.k == "name":
            return n.v if n.var is None else self.alias.get(n.var)
        if n.k == "index" and n.i.k == "str":
            b = self.dot(n.o)
            if b == "_G":
                return n.i.v
            return None if b is None else b + "." + n.i.v
        if n.k == "paren":
            return self.dot(n.e)
        return None

    def func(self, d):
        """The function nodes a global name is defined as."""
        out = []
        for c, e in self.defs.get(d, ()):
            while e is not None and e.k == "name" and e.var is not None and hasattr(e.var, "func_node"):
                e = e.var.func_node
            if e is not None and e.k == "func":
                out.append((c, e))
        return out

    def uses(self):
        """(chunk, node, dotted name, tested): tested when the value is only compared or used as a condition."""
        for c in self.chunks:
            out = []

            def visit(n, test, func):
                if n.k == "index" or n.k == "name":
                    d = self.dot(n)
                    if d and not getattr(n, "write", False):
                        out.append((c, n, d, test, func))
                if n.k == "bin" and n.op in ("and", "or"):
                    visit(n.a, True, func)
                    visit(n.b, test, func)
                    return
                if n.k == "un" and n.op == "not":
                    visit(n.a, True, func)
                    return
                if n.k == "bin" and n.op in ("==", "~="):
                    visit(n.a, True, func)
                    visit(n.b, True, func)
                    return
                if n.k == "if":
                    for cc, b in n.arms:
                        visit(cc, True, func)
                        for s in b:
                            visit(s, False, func)
                    for s in n.orelse or ():
                        visit(s, False, func)
                    return
                if n.k == "while":
                    visit(n.c, True, func)
                    for s in n.body:
                        visit(s, False, func)
                    return
                if n.k == "assign":
                    for e in n.exps:
                        visit(e, False, func)
                    for t in n.targets:
                        if t.k == "index":
                            visit(t.o, False, func)
                            visit(t.i, False, func)
                    return
                if n.k == "function":
                    t = n.target
                    if t.k == "index":
                        visit(t.o, False, func)
                    visit(n.f, False, func)
                    return
                f2 = n if n.k == "func" else func
                for k in kids(n):
                    visit(k, False, f2)
            visit(c.main, False, c.main)
            yield from out


def fname(f):
    while f is not None and not f.name:
        f = f.parent
    return f.name if f is not None else "?"
