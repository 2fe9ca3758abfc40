"""P29: a downloaded update is used only after it was verified."""
import ir
import luafront
import luascripts
import ordering
from check import Check
from extract import AnalysisBroken

# What makes use of a file: the argument that matters.
USES = {"os.execute": 0, "io.popen": 0, "internal._shell_unzip": 0, "io.popenyield": 0, "os.spawn": 0, "dofile": 0, "loadfile": 0}
VERIFY = {"internal._win_verify_trust": 0, "internal._verify_from_catalog": 0}
MUTEX = "internal._acquire_updater_mutex"
FETCH = ("os.globfiles", "http.request", "clink._https_get", "internal._https_get", "os.globdirs")
CAP = 6000


def plain(d):
    """The table of internal functions goes by several names."""
    if d:
        for p in ("clink._internal.", "import_internal."):
            if d.startswith(p):
                return "internal." + d[len(p):]
    return d


def mentions(v, t):
    """Does a remembered value depend on variable t?"""
    if v[0] == "same":
        return v[1] == ("v", t)
    if v[0] == "ret":
        return ("v", t) in v[2]
    if v[0] == "expr":
        return any(n.k == "name" and n.var == t for n in luafront.walk(v[1]))
    return False


class Path:
    __slots__ = ("env", "known", "ok", "done")

    def __init__(self, env=None, known=None, ok=()):
        self.env, self.known, self.ok, self.done = dict(env or {}), dict(known or {}), tuple(ok), False

    def copy(self):
        return Path(self.env, self.known, self.ok)


class Walk:
    """Follows every path of one function; remembers which variables are known true or false and which verifications succeeded."""

    def __init__(self, S, f, on_call, on_return):
        self.S, self.f, self.on_call, self.on_return = S, f, on_call, on_return
        self.paths = 0

    def canon(self, p, e):
        while e.k == "paren":
            e = e.e
        if e.k == "name":
            if e.var is None:
                return ("g", e.v)
            v = p.env.get(e.var)
            if v is not None and v[0] == "same":
                return v[1]
            return ("v", e.var)
        return ("x", id(e))

    def name(self, e):
        """Dotted name of what is called, also for local functions."""
        if e.k == "name" and e.var is not None and e.var not in self.S.alias:
            return ("local", e.var)
        d = self.S.dot(e)
        return plain(d)

    def truth(self, p, e):
        """[(path, bool)]"""
        k = e.k
        if k == "paren":
            return self.truth(p, e.e)
        if k in ("nil", "false"):
            return [(p, False)]
        if k in ("true", "num", "str", "table", "func"):
            return [(p, True)]
        if k == "un" and e.op == "not":
            return [(q, not b) for q, b in self.truth(p, e.a)]
        if k == "bin" and e.op in ("and", "or"):
            out = []
            for q, b in self.truth(p, e.a):
                if b == (e.op == "and"):
                    out += self.truth(q, e.b)
                else:
                    out.append((q, b))
            return out
        if k == "bin" and e.op in ("==", "~="):
            for x, y in ((e.a, e.b), (e.b, e.a)):
                if y.k in ("nil", "false", "true") and x.k != y.k:
                    r = self.truth(p, x)
                    same = y.k == "true"
                    if y.k == "false":
                        # something that is not false may still be nil
                        r = [z for q, b in r for z in ([(q, b)] if not b else [(p.copy(), True)])]
                        r += [(p.copy(), True)]
                    return [(q, (b == same) == (e.op == "==")) for q, b in r]
        self.calls(p, e)
        if k == "name":
            c = self.canon(p, e)
            if c in p.known:
                return [(p, p.known[c])]
            v = p.env.get(c[1]) if c[0] == "v" else None
            if v is not None and v[0] == "expr" and (v[1].k == "un" and v[1].op == "not" or v[1].k == "bin" and v[1].op in ("and", "or", "==", "~=")):
                r = []
                for q, b in self.truth(p, v[1]):
                    q = q.copy()
                    q.known[c] = b
                    r.append((q, b))
                return r
            t, f = p.copy(), p.copy()
            t.known[c], f.known[c] = True, False
            if c[0] == "v" and c[1] in p.env and p.env[c[1]][0] == "ret":
                t.ok += (p.env[c[1]][1:],)
            return [(t, True), (f, False)]
        if k == "call":
            nm = self.name(e.f)
            t, f = p.copy(), p.copy()
            if nm:
                t.ok += ((nm, tuple(self.canon(p, a) for a in e.args)),)
            return [(t, True), (f, False)]
        return [(p.copy(), True), (p.copy(), False)]

    def calls(self, p, e):
        """Reports the calls an expression makes (functions written in it are walked with the same path)."""
        for x in self.below(e):
            if x.k == "call":
                self.on_call(self, p, x)

    def below(self, e):
        yield from luafront.walk(e)

    def block(self, ps, body):
        for st in body:
            nxt = []
            for p in ps:
                nxt += self.stmt(p, st)
            ps = nxt
            if len(ps) > CAP:
                raise AnalysisBroken("P29: too many paths in %s" % luascripts.fname(self.f))
            if not ps:
                break
        return ps

    def assign(self, p, targets, exps):
        vals = []
        for i, t in enumerate(targets):
            e = exps[i] if i < len(exps) else (exps[-1] if exps else None)
            idx = 0 if i < len(exps) else i - len(exps) + 1
            v = None
            if e is not None:
                while e.k == "paren":
                    e = e.e
                if e.k == "name":
                    v = ("same", self.canon(p, e))
                elif e.k == "call":
                    nm = self.name(e.f)
                    if nm and idx == 0:
                        v = ("ret", nm, tuple(self.canon(p, a) for a in e.args))
                    else:
                        v = ("other", e)
                else:
                    v = ("expr", e) if i < len(exps) else None
            vals.append(v)
        for t in targets:
            # what is remembered in terms of the old value no longer holds
            for o in [o for o, w in p.env.items() if o is not t and mentions(w, t)]:
                p.env.pop(o)
        vals = [None if v is not None and (v[0] == "ret" or v[0] == "expr" and not (v[1].k == "bin" and v[1].op == "..")) and any(mentions(v, t) for t in targets) else v for v in vals]
        for t, v in zip(targets, vals):
            p.known.pop(("v", t), None)
            if v is None:
                p.env.pop(t, None)
                if not exps:
                    p.known[("v", t)] = False
            else:
                p.env[t] = v
                if v[0] == "same" and v[1] == ("v", t):
                    p.env.pop(t, None)
                if v[0] == "expr" and v[1].k in ("nil", "false", "true"):
                    p.known[("v", t)] = v[1].k == "true"
            # what was verified under this name no longer holds
            p.ok = tuple(o for o in p.ok if ("v", t) not in o[1])

    def stmt(self, p, st):
        k = st.k
        if k in ("local", "assign"):
            for e in st.exps:
                self.calls(p, e)
            if k == "local":
                self.assign(p, st.vars, st.exps)
            else:
                tg = [t.var if t.k == "name" and t.var is not None else None for t in st.targets]
                if any(x is not None for x in tg):
                    self.assign(p, [x if x is not None else object() for x in tg], st.exps)
            return [p]
        if k == "callst":
            self.calls(p, st.e)
            return [p]
        if k == "do":
            return self.block([p], st.body)
        if k == "if":
            out, rest = [], [p]
            for c, b in st.arms:
                nr = []
                for q in rest:
                    for r, v in self.truth(q, c):
                        if v:
                            out += self.block([r], b)
                        else:
                            nr.append(r)
                rest = nr
            if st.orelse:
                rest = self.block(rest, st.orelse)
            return out + rest
        if k in ("while", "fornum", "forin", "repeat"):
            for e in ([st.c] if k in ("while",) else [st.a, st.b] if k == "fornum" else st.exps if k == "forin" else []):
                self.calls(p, e)
            once = p.copy()
            if k == "while":
                once = [q for q, v in self.truth(once, st.c) if v]
            else:
                once = [once]
            return [p] + self.block(once, st.body)
        if k == "return":
            for e in st.exps:
                self.calls(p, e)
            self.on_return(self, p, st)
            self.paths += 1
            return []
        if k == "goto":
            return []
        if k == "break":
            return [p]
        return [p]

    def run(self):
        for p in self.block([Path()], self.f.body):
            self.on_return(self, p, None)
            self.paths += 1


FLAGS = set()      # parameters that carry the caller's request not to verify


def flag(v):
    return v in FLAGS


def find_flags(funcs, local):
    """Those named for it, and those that every caller passes such a one."""
    FLAGS.clear()
    sites = {}
    for f in funcs:
        for q in f.params:
            if hasattr(q, "name") and "verif" in q.name.lower():
                FLAGS.add(q)
        for x in luafront.walk(f):
            if x.k == "call" and x.f.k == "name" and x.f.var in local:
                sites.setdefault(local[x.f.var], {})[x] = x
    more = True
    while more:
        more = False
        for g, calls in sites.items():
            for i, q in enumerate(g.params):
                if q not in FLAGS and all(i < len(x.args) and x.args[i].k == "name" and x.args[i].var in FLAGS for x in calls):
                    FLAGS.add(q)
                    more = True


def trust():
    c = Check("P29", "on every path to running or unpacking a file that was downloaded, verifying the signature of that very file succeeded, unless the caller's "
                     "request not to verify is true; that request is only passed on, never made up; and verification reports success only when WinVerifyTrust did")
    S = luascripts.Scripts()
    chunk = next((ch for ch in S.chunks if ch.path.endswith("update.lua")), None)
    if chunk is None:
        raise AnalysisBroken("P29: the updater script was not found")
    local = {}
    for x in luafront.walk(chunk.main):
        if x.k == "localfunc":
            local[x.var] = x.f
        elif x.k == "local" and len(x.vars) == len(x.exps):
            for v, e in zip(x.vars, x.exps):
                if e.k == "func":
                    local[v] = e
    funcs = [f for f in luafront.walk(chunk.main) if f.k == "func" and f is not chunk.main]

    find_flags(funcs, local)

    def called(f):
        out = set()
        for x in luafront.walk(f):
            if x.k == "call":
                d = plain(S.dot(x.f))
                if d:
                    out.add(d)
            elif x.k == "name" and x.var in local and local[x.var] is not f:
                out.add(x.var)
        return out
    cg = {f: called(f) for f in funcs}

    def fetches(f, seen=None):
        seen = seen if seen is not None else set()
        if f in seen:
            return False
        seen.add(f)
        for d in cg.get(f, ()):
            if isinstance(d, str):
                if d in FETCH or d.endswith("_get") and "http" in d:
                    return True
            elif fetches(local[d], seen):
                return True
        return False

    bad = {}
    def excused(w, p):
        return any(v for k, v in p.known.items() if v and k[0] == "v" and k[1] in w.f.params and flag(k[1]))

    wrap = {}       # functions that answer with something only when they verified a parameter -> its index

    def checked(name, a):
        """The value that is known to be verified once this call has answered with something."""
        if isinstance(name, tuple):
            i = wrap.get(local.get(name[1]))
        else:
            i = VERIFY.get(name)
        return a[i] if i is not None and i < len(a) else None

    def verified(p):
        return {x for x in (checked(o, a) for o, a in p.ok) if x is not None}

    def held(w, p):
        return any(o == MUTEX or o[0] == "local" and local.get(o[1]) in locking for o, a in p.ok)

    def answers(f, each):
        """each(w, path) for every path on which f answers with something."""
        def ret(w, p, st):
            if st is None or not st.exps:
                return
            for q, b in w.truth(p.copy(), st.exps[0]):
                if b:
                    each(w, q)
        Walk(S, f, lambda *a: None, ret).run()

    locking = set()     # functions that answer with something only when the mutex is held, or a parameter excuses them
    for rnd in range(3):
        for f in funcs:
            if f not in wrap and any(d in VERIFY if isinstance(d, str) else local[d] in wrap for d in cg[f]):
                cand = []

                def each(w, p):
                    if not excused(w, p):
                        cand.append({f.params.index(g[1]) for g in verified(p) if g[0] == "v" and g[1] in f.params})
                answers(f, each)
                if cand and set.intersection(*cand):
                    wrap[f] = min(set.intersection(*cand))
            if f not in locking and any(d == MUTEX if isinstance(d, str) else local[d] in locking for d in cg[f]):
                locks = []
                answers(f, lambda w, p: locks.append(held(w, p) or any(v and k[0] == "v" and k[1] in w.f.params for k, v in p.known.items())))
                c.count("answers_that_need_the_mutex", len(locks))
                if locks and all(locks):
                    locking.add(f)

    unlocked = {}   # functions that apply an update without having acquired the mutex themselves -> use
    needs = {}      # function -> {parameter index: use}
    uses = set()

    def roots(w, p, e, out, depth=0):
        """The variables a value is made from."""
        for x in luafront.walk(e):
            if x.k == "name" and x.var is not None and x.var not in local:
                v = p.env.get(x.var)
                if v is not None and v[0] == "same":
                    k = v[1]
                    if k[0] == "v" and k[1] in p.env and p.env[k[1]][0] == "expr" and depth < 6:
                        roots(w, p, p.env[k[1]][1], out, depth + 1)
                    else:
                        out.add(k)
                elif v is not None and v[0] == "expr" and depth < 6:
                    roots(w, p, v[1], out, depth + 1)
                    out.add(("v", x.var))
                else:
                    out.add(("v", x.var))
        return out

    def mutex(w, p, call, what):
        c.count("uses_of_an_update")
        if not held(w, p):
            unlocked.setdefault(w.f, (call.l, what))

    def use(w, p, call, arg, what):
        f = w.f
        uses.add((what, luascripts.fname(f)))
        ok = verified(p)
        for r in roots(w, p, arg, set()):
            if r in ok or excused(w, p):
                c.count("uses_verified_or_excused")
                mutex(w, p, call, what)
                continue
            v = r[1] if r[0] == "v" else None
            if v in f.params:
                # only what the command is about: a parameter that names where to install is not a file that is used
                if not needs.setdefault(f, {}).get(f.params.index(v)):
                    needs[f][f.params.index(v)] = what
            elif v is not None and v in p.env and p.env[v][0] in ("other", "ret"):
                g = None
                if p.env[v][0] == "other" and p.env[v][1].k == "call" and p.env[v][1].f.k == "name":
                    g = local.get(p.env[v][1].f.var)
                elif p.env[v][0] == "ret" and p.env[v][1][0] == "local":
                    g = local.get(p.env[v][1][1])
                if g is not None and fetches(g):
                    bad.setdefault((luascripts.fname(f), what), (call.l, "%s uses %s, which was downloaded, in %s on a path on which it has not been verified" % (
                        luascripts.fname(f), getattr(v, "name", "a file"), what)))

    flagged = {}

    def on_call(w, p, x):
        d = w.name(x.f)
        if d in USES and USES[d] < len(x.args):
            use(w, p, x, x.args[USES[d]], d)
        t = w.canon(p, x.f)
        if t[0] == "v" and t[1] in local:
            g = local[t[1]]
            if g in unlocked:
                mutex(w, p, x, unlocked[g][1].split(" by ")[0] + " by " + luascripts.fname(g))
            for i, what in list(needs.get(g, {}).items()):
                if what and i < len(x.args):
                    use(w, p, x, x.args[i], "%s by %s" % (what.split(" by ")[0], luascripts.fname(g)))
            for i, q in enumerate(g.params):
                if flag(q) and i < len(x.args):
                    flagged[(x, i)] = (w, x, i, q, g)
                    a = x.args[i]
                    while a.k == "paren":
                        a = a.e
                    fine = a.k in ("nil", "false") or a.k == "name" and a.var is not None and (w.canon(p, a)[0] == "v" and w.canon(p, a)[1] in w.f.params and flag(w.canon(p, a)[1]))
                    if not fine:
                        bad.setdefault((luascripts.fname(w.f), "flag"), (x.l, "%s passes %s a request not to verify that is not its own caller's" % (luascripts.fname(w.f), luascripts.fname(g))))

    for rnd in range(4):
        before = {f: dict(n) for f, n in needs.items()}, len(unlocked)
        for f in funcs:
            w = Walk(S, f, on_call, lambda *a: None)
            w.run()
            if rnd == 0:
                c.count("functions")
                c.count("paths", w.paths)
        if before == (needs, len(unlocked)):
            break
    for f, (line, what) in unlocked.items():
        if not any(local.get(d) is f for g in funcs for d in cg[g] if not isinstance(d, str)):
            bad.setdefault((luascripts.fname(f), "mutex"), (line, "%s applies an update (%s) on a path on which the updater mutex was not acquired" % (luascripts.fname(f), what)))
    # assignments to the flag itself
    for f in funcs:
        for x in luafront.walk(f):
            if x.k == "assign":
                for t, e in zip(x.targets, x.exps):
                    if t.k == "name" and t.var is not None and t.var in f.params and flag(t.var) and e.k not in ("nil", "false"):
                        bad.setdefault((luascripts.fname(f), "set"), (x.l, "%s sets the request not to verify itself" % luascripts.fname(f)))
    c.cov["uses"] = sorted("%s in %s" % u for u in uses)
    c.cov["parameters_that_must_be_verified"] = sorted("%s %s: %s" % (luascripts.fname(f), getattr(f.params[i], "name", i), what) for f, n in needs.items() for i, what in n.items() if what)
    c.cov["requests_passed_on"] = len(flagged)
    for (fn, what), (line, msg) in sorted(bad.items()):
        c.violation("%s %s" % (fn, what), chunk.path, line, msg)

    native(c)
    c.need("functions", 20)
    c.need("uses", 2)
    c.need("uses_verified_or_excused", 2)
    c.need("uses_of_an_update", 2)
    return c


class Traced(ordering.Eval):
    depth = 0
    steps = ()
    words = ("WinVerifyTrust",)
    def call(self, fr, n):
        self.seen.append(n.get("n", "") or "")
        nm = (n.get("n", "") or "").rsplit("::", 1)[-1]
        v = None
        tg = [t for t in self.prog.targets(n) if t.blocks]
        if len(tg) == 1 and tg[0].file.startswith("clink/lua") and nm != "WinVerifyTrust" and self.depth < 4:
            av = [self.get(fr, j) for j in n.get("c", ())]
            if len(tg[0].blocks) <= 8 and any(w in repr(x) for w in self.words for x in av) or tg[0].usr in self.steps:
                self.depth += 1
                v = self.inline(fr, n, tg[0], av, self.get(fr, n["o"]) if n.get("o", -1) >= 0 else None)
                self.depth -= 1
        if v is None:
            v = super().call(fr, n)
        if nm.startswith("lua_push"):
            av = [self.get(fr, j) for j in n.get("c", ())]
            self.pushed.append((nm, av[1:]))
        return v


def calls_in(f, names):
    return [n for n in f.calls() if (n.get("n", "") or "").rsplit("::", 1)[-1] in names]


def native(c):
    prog = ir.load()
    reg = {}
    verifiers = set()
    Traced.steps = set()
    Traced.words = ("WinVerifyTrust",)
    for f in list(prog.funcs.values()) * 2:
        if not f.file.startswith("clink/") or "/test" in f.file or not f.blocks:
            continue
        if f.short != "WinVerifyTrust" and calls_in(f, ("WinVerifyTrust",) + tuple(prog.funcs[u].short for u in Traced.steps)) and f.file.startswith("clink/lua"):
            (verifiers if f.types[f.d["ret"]]["s"].endswith("bool") else Traced.steps).add(f.usr)
    if not verifiers:
        raise AnalysisBroken("P29: nothing calls WinVerifyTrust")

    def decide(f, good, what, result):
        """Every path on which result(session) is true must have taken the good decision."""
        bads, n = [], [0]

        def body(s):
            s.seen, s.pushed = [], []
            fr = ordering.Frame(f)
            for i, v in enumerate(f.vars):
                if "p" in v:
                    fr.env[i] = ("arg", v["n"])
            v = s.run(fr)
            n[0] += 1
            if result(s, v) and not good(s):
                bads.append(s.o.text[-6:])
        out = ordering.Outcome()
        ordering.explore(lambda o: Traced(prog, o, {}), body, out, 20000)
        c.count("native_paths", n[0])
        if not n[0]:
            raise AnalysisBroken("P29: %s could not be followed: %s" % (f.name, sorted(out.undetermined)[:2]))
        if bads:
            c.violation("%s success" % f.name, f.file, f.line, "%s %s" % (f.name, what), ["%s = %s" % t for t in bads[0]])

    def about(t, names):
        while isinstance(t, tuple) and t and t[0] in ("cast", "bool"):
            t = t[-1]
        return isinstance(t, tuple) and len(t) > 1 and t[0] == "call" and t[1].rsplit("::", 1)[-1] in names

    for u in sorted(verifiers):
        f = prog.funcs[u]
        c.count("verifiers")
        decide(f, lambda s: any(about(t, ("WinVerifyTrust",)) and v == 0 for t, v in s.o.truth.items()) or
               any(about(t, ("WinVerifyTrust",)) and k == ordering.C(0) and v for (t, k), v in s.o.eqs.items()),
               "returns true on a path on which WinVerifyTrust did not succeed", lambda s, v: s.truth(v))
    names = {prog.funcs[u].short for u in verifiers}
    Traced.words = ("WinVerifyTrust",) + tuple(names)
    # the Lua functions built on them
    for f in prog.funcs.values():
        if f.usr in verifiers or not f.file.startswith("clink/lua") or not f.blocks or f.short == "WinVerifyTrust":
            continue
        if not calls_in(f, names):
            continue
        c.count("script_functions")

        def pushes(s, v):
            if not s.pushed:
                return False
            nm, av = s.pushed[0]
            if nm == "lua_pushnil":
                return False
            if nm == "lua_pushboolean" and av:
                return s.truth(av[0])
            return True
        decide(f, lambda s: any(about(t, names) and v for t, v in s.o.truth.items()),
               "tells the script that a file was verified on a path on which verifying it did not succeed", pushes)
    for f in prog.fns("delay_load_wintrust::WinVerifyTrust") if prog.fn("delay_load_wintrust::WinVerifyTrust", True) else ():
        if f.blocks:
            decide(f, lambda s: any(about(t, ("init",)) and v for t, v in s.o.truth.items()),
                   "can report success although the system's verification was not available", lambda s, v: not (v[0] == "c" and v[1] != 0))
    c.need("verifiers", 1)
    c.need("script_functions", 1)
