"""Lua 5.2 front end: lexer, parser with resolved scopes.

Every node is an N with kind k and line l.  Expressions:
  nil true false num(v) str(v) vararg func(params, vararg, body, name) name(v, var|None) index(o, i) call(f, args) method(o, m, args)
  bin(op, a, b) un(op, a) table(items) paren(e)
Statements: local(vars, exps) assign(targets, exps) callst(e) do(body) while(c, body) repeat(body, c) if(arms[(c, body)], orelse)
  fornum(var, a, b, c, body) forin(vars, exps, body) function(target, f) localfunc(var, f) return(exps) break goto label
"""
import os, re, sys
from extract import AnalysisBroken

KW = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
TOK = re.compile(r"""
 (?P<ws>[ \t\r\f\v]+)|(?P<nl>\n)|(?P<lcom>--\[(?P<leq>=*)\[)|(?P<com>--[^\n]*)|(?P<lstr>\[(?P<seq>=*)\[)
 |(?P<num>0[xX][0-9a-fA-F.]+(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)
 |(?P<name>[A-Za-z_]\w*)|(?P<str>"(?:\\.|\\\n|[^"\\\n])*"|'(?:\\.|\\\n|[^'\\\n])*')
 |(?P<op>\.\.\.|\.\.|==|~=|<=|>=|::|[-+*/%^\#<>=(){}\[\];:,.])
""", re.X | re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "\\": "\\", '"': '"', "'": "'", "\n": "\n"}


def unescape(s):
    def r(m):
        x = m.group(1)
        if x[0] in ESC:
            return ESC[x[0]]
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "z":
            return ""
        return chr(int(x) & 255)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|\d{1,3}|z\s*|.|\n)", r, s, flags=re.S)


class N:
    def __init__(self, k, l, **kw):
        self.k, self.l = k, l
        self.__dict__.update(kw)

    def __repr__(self):
        return "%s@%d" % (self.k, self.l)


class Var:
    """A local variable (or parameter)."""
    def __init__(self, name, line, kind, func):
        self.name, self.line, self.kind, self.func = name, line, kind, func
        self.reads, self.writes = [], []


class Chunk:
    def __init__(self, path, text):
        self.path = path
        self.toks = []
        self.lex(text)
        self.p = 0
        self.scopes, self.funcs = [], []
        self.globals_read, self.globals_written = [], []
        self.func = None
        self.allfuncs = []
        f = N("func", 1, params=[], vararg=True, name="main chunk", parent=None, upvals=set())
        self.func = f
        self.allfuncs.append(f)
        f.body = self.block()
        if self.t[0] != "eof":
            self.err("unexpected")
        self.main = f

    def lex(self, s):
        i, line, n = 0, 1, len(s)
        if s.startswith("#"):
            i = s.find("\n")
        out = self.toks
        while i < n:
            m = TOK.match(s, i)
            if not m:
                raise AnalysisBroken("%s:%d: cannot tokenise %r" % (self.path, line, s[i:i + 20]))
            k = m.lastgroup if m.lastgroup not in ("leq", "seq") else ("lcom" if m.group("lcom") else "lstr")
            t = m.group(k)
            i = m.end()
            if k == "nl":
                line += 1
            elif k in ("lcom", "lstr"):
                e = "]" + (m.group("leq") if k == "lcom" else m.group("seq")) + "]"
                j = s.find(e, i)
                if j < 0:
                    raise AnalysisBroken("%s:%d: unfinished long string" % (self.path, line))
                if k == "lstr":
                    v = s[i:j]
                    out.append(("str", v[1:] if v.startswith("\n") else v, line))
                line += s.count("\n", i, j)
                i = j + len(e)
            elif k == "num":
                out.append(("num", float(int(t, 16)) if t[:2].lower() == "0x" and "." not in t else float.fromhex(t) if t[:2].lower() == "0x" else float(t), line))
            elif k == "str":
                out.append(("str", unescape(t[1:-1]), line))
                line += t.count("\n")
            elif k == "name":
                out.append(("kw" if t in KW else "name", t, line))
            elif k == "op":
                out.append(("op", t, line))
        out.append(("eof", "", line))

    # -- helpers
    @property
    def t(self):
        return self.toks[self.p]

    def err(self, why):
        raise AnalysisBroken("%s:%d: %s near %r" % (self.path, self.t[2], why, self.t[1]))

    def isv(self, v):
        return self.t[0] in ("op", "kw") and self.t[1] == v

    def acc(self, v):
        if self.isv(v):
            self.p += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            self.err("expected %s" % v)

    def name(self):
        if self.t[0] != "name":
            self.err("expected a name")
        v = self.t[1]
        self.p += 1
        return v

    def declare(self, name, line, kind):
        v = Var(name, line, kind, self.func)
        self.scopes[-1][name] = v
        return v

    def resolve(self, name):
        for s in reversed(self.scopes):
            if name in s:
                v = s[name]
                if v.func is not self.func:
                    f = self.func
                    while f is not None and f is not v.func:
                        f.upvals.add(v)
                        f = f.parent
                return v
        return None

    # -- statements
    def block(self, pre=None):
        self.scopes.append({})
        if pre:
            pre()
        out = []
        while True:
            t = self.t
            if t[0] == "eof" or (t[0] == "kw" and t[1] in ("end", "else", "elseif", "until")):
                break
            if self.acc(";"):
                continue
            s = self.stat()
            out.append(s)
            if s.k == "return":
                break
        if not (self.t[0] == "kw" and self.t[1] == "until"):
            self.scopes.pop()
        return out

    def stat(self):
        t, l = self.t, self.t[2]
        if t[0] == "kw":
            k = t[1]
            if k == "if":
                self.p += 1
                arms, orelse = [], None
                c = self.expr()
                self.exp("then")
                arms.append((c, self.block()))
                while True:
                    if self.acc("elseif"):
                        c = self.expr()
                        self.exp("then")
                        arms.append((c, self.block()))
                    elif self.acc("else"):
                        orelse = self.block()
                        self.exp("end")
                        break
                    else:
                        self.exp("end")
                        break
                return N("if", l, arms=arms, orelse=orelse)
            if k == "while":
                self.p += 1
                c = self.expr()
                self.exp("do")
                b = self.block()
                self.exp("end")
                return N("while", l, c=c, body=b)
            if k == "do":
                self.p += 1
                b = self.block()
                self.exp("end")
                return N("do", l, body=b)
            if k == "for":
                self.p += 1
                nm, nl = self.name(), self.t[2]
                if self.acc("="):
                    a = self.expr()
                    self.exp(",")
                    b = self.expr()
                    c = self.expr() if self.acc(",") else None
                    self.exp("do")
                    vs = []
                    body = self.block(lambda: vs.append(self.declare(nm, nl, "for")))
                    self.exp("end")
                    return N("fornum", l, var=vs[0], a=a, b=b, c=c, body=body)
                names = [nm]
                while self.acc(","):
                    names.append(self.name())
                self.exp("in")
                ex = self.exprs()
                self.exp("do")
                vs = []
                body = self.block(lambda: vs.extend(self.declare(x, nl, "for") for x in names))
                self.exp("end")
                return N("forin", l, vars=vs, exps=ex, body=body)
            if k == "repeat":
                self.p += 1
                b = self.block()
                self.exp("until")
                c = self.expr()
                self.scopes.pop()
                return N("repeat", l, body=b, c=c)
            if k == "function":
                self.p += 1
                nm = self.name()
                o = self.nameref(nm, l)
                full = nm
                meth = False
                while self.isv(".") or self.isv(":"):
                    meth = self.isv(":")
                    self.p += 1
                    x = self.name()
                    full += (":" if meth else ".") + x
                    o = N("index", l, o=o, i=N("str", l, v=x))
                    if meth:
                        break
                f = self.funcbody(l, full, meth)
                self.note_write(o)
                return N("function", l, target=o, f=f)
            if k == "local":
                self.p += 1
                if self.acc("function"):
                    nm = self.name()
                    v = self.declare(nm, l, "localfunc")
                    f = self.funcbody(l, nm, False)
                    v.func_node = f
                    return N("localfunc", l, var=v, f=f)
                names = [(self.name(), l)]
                while self.acc(","):
                    names.append((self.name(), self.t[2]))
                ex = self.exprs() if self.acc("=") else []
                vs = [self.declare(n, nl, "local") for n, nl in names]
                if len(vs) == 1 and len(ex) == 1 and ex[0].k == "func":
                    vs[0].func_node = ex[0]
                return N("local", l, vars=vs, exps=ex)
            if k == "return":
                self.p += 1
                ex = []
                if not (self.t[0] == "eof" or self.isv(";") or (self.t[0] == "kw" and self.t[1] in ("end", "else", "elseif", "until"))):
                    ex = self.exprs()
                self.acc(";")
                return N("return", l, exps=ex)
            if k == "break":
                self.p += 1
                return N("break", l)
            if k == "goto":
                self.p += 1
                return N("goto", l, v=self.name())
        if self.acc("::"):
            v = self.name()
            self.exp("::")
            return N("label", l, v=v)
        e = self.suffixed()
        if self.isv("=") or self.isv(","):
            tg = [e]
            while self.acc(","):
                tg.append(self.suffixed())
            self.exp("=")
            ex = self.exprs()
            for x in tg:
                self.note_write(x)
            return N("assign", l, targets=tg, exps=ex)
        if e.k not in ("call", "method"):
            self.err("syntax error")
        return N("callst", l, e=e)

    def note_write(self, x):
        if x.k == "name":
            x.write = True
            if x.var is not None:
                x.var.writes.append(x)
                if x in x.var.reads:
                    x.var.reads.remove(x)
            else:
                self.globals_written.append(x)
                if x in self.globals_read:
                    self.globals_read.remove(x)

    # -- expressions
    def exprs(self):
        out = [self.expr()]
        while self.acc(","):
            out.append(self.expr())
        return out

    PRI = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3), "..": (5, 4), "+": (6, 6), "-": (6, 6),
           "*": (7, 7), "/": (7, 7), "%": (7, 7), "^": (10, 9)}

    def expr(self, lim=0):
        t, l = self.t, self.t[2]
        if t[0] in ("op", "kw") and t[1] in ("not", "-", "#"):
            self.p += 1
            a = N("un", l, op=t[1], a=self.expr(8))
        else:
            a = self.simple()
        while self.t[0] in ("op", "kw") and self.t[1] in self.PRI and self.PRI[self.t[1]][0] > lim:
            op, l2 = self.t[1], self.t[2]
            self.p += 1
            b = self.expr(self.PRI[op][1])
            a = N("bin", l2, op=op, a=a, b=b)
        return a

    def simple(self):
        t, l = self.t, self.t[2]
        if t[0] == "num":
            self.p += 1
            return N("num", l, v=t[1])
        if t[0] == "str":
            self.p += 1
            return N("str", l, v=t[1])
        if t[0] == "kw" and t[1] in ("nil", "true", "false"):
            self.p += 1
            return N(t[1], l)
        if self.acc("..."):
            return N("vararg", l)
        if self.isv("{"):
            return self.table()
        if self.acc("function"):
            return self.funcbody(l, None, False)
        return self.suffixed()

    def nameref(self, nm, l):
        v = self.resolve(nm)
        x = N("name", l, v=nm, var=v, write=False, func=self.func)
        if v is not None:
            v.reads.append(x)
        else:
            self.globals_read.append(x)
        return x

    def suffixed(self):
        t, l = self.t, self.t[2]
        if self.acc("("):
            e = N("paren", l, e=self.expr())
            self.exp(")")
        elif t[0] == "name":
            self.p += 1
            e = self.nameref(t[1], l)
        else:
            self.err("unexpected symbol")
        while True:
            l = self.t[2]
            if self.acc("."):
                e = N("index", l, o=e, i=N("str", l, v=self.name()))
            elif self.acc("["):
                i = self.expr()
                self.exp("]")
                e = N("index", l, o=e, i=i)
            elif self.acc(":"):
                m = self.name()
                e = N("method", l, o=e, m=m, args=self.args())
                e.func = self.func
            elif self.isv("(") or self.isv("{") or self.t[0] == "str":
                e = N("call", l, f=e, args=self.args())
                e.func = self.func
            else:
                return e

    def args(self):
        t, l = self.t, self.t[2]
        if t[0] == "str":
            self.p += 1
            return [N("str", l, v=t[1])]
        if self.isv("{"):
            return [self.table()]
        self.exp("(")
        if self.acc(")"):
            return []
        a = self.exprs()
        self.exp(")")
        return a

    def table(self):
        l = self.t[2]
        self.exp("{")
        items = []
        while not self.isv("}"):
            if self.acc("["):
                k = self.expr()
                self.exp("]")
                self.exp("=")
                items.append((k, self.expr()))
            elif self.t[0] == "name" and self.toks[self.p + 1][:2] == ("op", "="):
                k = N("str", self.t[2], v=self.name())
                self.exp("=")
                items.append((k, self.expr()))
            else:
                items.append((None, self.expr()))
            if not (self.acc(",") or self.acc(";")):
                break
        self.exp("}")
        return N("table", l, items=items)

    def funcbody(self, l, name, meth):
        f = N("func", l, params=[], vararg=False, name=name, parent=self.func, upvals=set())
        self.allfuncs.append(f)
        old, self.func = self.func, f
        names = []
        self.exp("(")
        while not self.isv(")"):
            if self.acc("..."):
                f.vararg = True
                break
            names.append((self.name(), self.t[2]))
            if not self.acc(","):
                break
        self.exp(")")

        def pre():
            if meth:
                f.params.append(self.declare("self", l, "self"))
            for n, nl in names:
                f.params.append(self.declare(n, nl, "param"))
        f.body = self.block(pre)
        f.end = self.t[2]
        self.exp("end")
        self.func = old
        return f


def kids(n):
    """Direct sub-nodes in evaluation order."""
    k = n.k
    if k == "index":
        return [n.o, n.i]
    if k == "call":
        return [n.f] + n.args
    if k == "method":
        return [n.o] + n.args
    if k == "bin":
        return [n.a, n.b]
    if k == "un":
        return [n.a]
    if k == "paren":
        return [n.e]
    if k == "table":
        return [x for kv in n.items for x in kv if x is not None]
    if k == "func":
        return n.body
    if k == "local":
        return n.exps
    if k == "assign":
        return n.exps + n.targets
    if k == "callst":
        return [n.e]
    if k == "do":
        return n.body
    if k == "while":
        return [n.c] + n.body
    if k == "repeat":
        return n.body + [n.c]
    if k == "if":
        out = []
        for c, b in n.arms:
            out.append(c)
            out += b
        return out + (n.orelse or [])
    if k == "fornum":
        return [n.a, n.b] + ([n.c] if n.c else []) + n.body
    if k == "forin":
        return n.exps + n.body
    if k == "function":
        return [n.target, n.f]
    if k == "localfunc":
        return [n.f]
    if k == "return":
        return n.exps
    return []


def walk(n, into_funcs=True):
    st = [n]
    while st:
        x = st.pop()
        yield x
        if x.k == "func" and not into_funcs and x is not n:
            continue
        st += reversed(kids(x))


def dotted(n):
    """'a.b.c' for a chain of names rooted in a global (or None); locals give None."""
    if n.k == "name":
        return n.v if n.var is None else None
    if n.k == "index" and n.i.k == "str":
        b = dotted(n.o)
        return None if b is None else b + "." + n.i.v
    if n.k == "paren":
        return dotted(n.e)
    return None


_cache = {}


def load(root, rels):
    out = []
    for r in rels:
        p = os.path.join(root, r)
        s = open(p, encoding="utf-8", errors="surrogateescape").read().replace("\r\n", "\n")
        out.append(Chunk(r, s))
    return out
