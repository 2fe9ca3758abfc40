"""P23: data shared with background threads is locked, a flag, or handed over; no blocking while a lock is held."""
import re
import ir, locks
from check import Check
from extract import AnalysisBroken

SPAWN = re.compile(r"(^|::)(CreateThread|_beginthreadex?|CreateRemoteThread|QueueUserWorkItem|SetConsoleCtrlHandler|RegisterWaitForSingleObject|async|thread)$")
BLOCK = {"WaitForSingleObject": 1, "WaitForMultipleObjects": 3, "WaitForSingleObjectEx": 1, "Sleep": 0}

# Named places that share data without a lock, with the reason.
GLOBALS = {
    "g_files_hidden": "a setting; one aligned bool, written when settings are loaded",
    "os::s_errorlevel": "an aligned int that is only ever replaced",
    "recognizer::s_ready_event": "created once before the first thread, never closed",
    "task_manager::s_event": "created once by the constructor of the only instance, before the first thread",
    "s_wake_event": "set by createthread before it creates the thread, never closed",
    "s_oleaut32": "delay loaded functions of a DLL; idempotent",
    "s_netapi": "delay loaded functions of a DLL; idempotent",
    "s_winhttp": "delay loaded functions of a DLL; idempotent",
    "clink_signal": "volatile int",
    "s_interrupt": "event handle created before the handler is installed",
    "lua_input_idle::get_idle_event static s_idle_event": "created by the first of createthread and init, before the first thread",
}
FIELDS = {
    "yield_thread::m_holder": "set while the thread is still suspended, released by the thread as its last act",
    "popen_buffering::m_stat": "handed over: scripts call results only after ready or wait",
    "popen_buffering::m_errno": "handed over: scripts call results only after ready or wait",
    "execute_thread::m_stat": "handed over: scripts call results only after ready or wait",
    "execute_thread::m_errno": "handed over: scripts call results only after ready or wait",
    "recognizer::m_event": "created with the lock held before the thread exists, closed after it was joined",
    "popen_buffering::m_process_handle": "set by go before the thread is resumed",
}


def threads():
    c = Check("P23", "every field and global that a background thread shares with other code is always accessed with one lock held, or is a flag, or is read only after the thread's completion was tested; nothing waits for another thread with a lock held")
    p = ir.load()
    model = Model(c, p)
    model.shared_data()
    model.closed()
    model.waiting()
    model.no_lua()
    model.completion()
    return c


def entries(p):
    """Functions handed to something that runs them on another thread."""
    out = {}
    for f in p.funcs.values():
        if f.file.endswith("draw_test.cpp") or "/test/" in f.file:
            continue
        for n in f.nodes:
            if not n or n["k"] not in ("Call", "Construct"):
                continue
            nm = n.get("n", "")
            spawn = SPAWN.search(nm) or "make_" in nm and re.search(r"\bthread\b", f.ntype(n)["s"])
            if not spawn:
                continue
            for a in f.args(n):
                for x in ([a] + list(f.deep(a)) if a is not None else []):
                    u = None
                    if x and x["k"] in ("Ref", "Member") and x.get("dk") == "fn":
                        u = x.get("f") or x.get("u")
                    elif x and x["k"] == "Lambda":
                        u = x.get("f")
                    if u in p.funcs:
                        out[u] = (f, n)
    return out


class Model:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.entries = entries(p)
        if len(self.entries) < 4:
            raise AnalysisBroken("functions that run on their own threads")
        c.count("thread entry functions", len(self.entries))
        self.spawners = {f.usr: (f, n) for f, n in self.entries.values()}
        self.wset = set(p.reachable([p.funcs[u] for u in self.entries]))
        self.done = set(self.completion_tests())
        self.locks = locks.Locks(p, p.funcs.values(), self.tested)
        calls = {}

        def out(f):
            r = calls.get(f.usr)
            if r is None:
                r = calls[f.usr] = self.calls_of(f)
            return r
        self.calls = out
        callers = p.callers()
        taken = self.taken = self.address_taken()
        roots = [u for u, f in p.funcs.items() if u not in self.entries and (not callers.get(u) or u in taken)]
        self.mmust, self.mmay = self.locks.contexts(roots, out)
        rest = [u for u in p.funcs if u not in self.mmust and u not in self.wset]
        if rest:
            self.mmust, self.mmay = self.locks.contexts(roots + rest, out)
        self.wmust, self.wmay = self.locks.contexts(list(self.entries), out)

    def completion_tests(self):
        """Member functions that report that a thread has finished."""
        for f in self.p.funcs.values():
            if f.short in ("is_complete", "is_ready", "wait") and f.cls and f.type(f.d["ret"])["s"] == "bool":
                yield f.usr

    def tested(self, f, n):
        if n is not None and n["k"] == "Call" and n.get("f") in self.done:
            return "completed"
        return None

    def calls_of(self, f):
        out = []
        for n in f.nodes:
            if not n:
                continue
            if n["k"] in ("Call", "Construct", "Delete"):
                out += [(n, t.usr) for t in self.p.targets(n)]
            elif n["k"] == "Lambda" and n.get("f") in self.p.funcs:
                out.append(({"k": "?"}, n["f"]))
        for b in f.blocks.values():
            for e in b.get("e", ()):
                if isinstance(e, dict) and e.get("f") in self.p.funcs:
                    out.append(({"k": "?"}, e["f"]))
        return out

    def address_taken(self):
        out = set()
        for f in list(self.p.funcs.values()) + list(ir.globals_of(self.p)):
            for n in f.nodes:
                if n and n["k"] == "Un" and n["op"] == "&":
                    x = f.strip(f.kid(n, 0))
                    if x is not None and x.get("dk") == "fn":
                        out.add(x.get("f") or x.get("u"))
                if n and n["k"] in ("Call", "Construct", "InitList"):
                    for a in f.kids(n):
                        x = f.strip(a)
                        if x is not None and x["k"] == "Ref" and x.get("dk") == "fn":
                            out.add(x.get("f") or x.get("u"))
        return out

    # --- shared data ---------------------------------------------------------------------
    def shared_classes(self):
        p, out = self.p, set()
        for u in self.entries:
            f = p.funcs[u]
            if f.cls:
                out.add(f.cls)
            for v in f.d.get("params", ()):
                m = re.search(r"([A-Za-z_]\w*)\s*(\*|&|>)", f.vtype(v)["s"])
                if m and m.group(1) in p.records:
                    out.add(m.group(1))
        for x in list(out):
            out |= set(p.subclasses(x))
        for x in list(out):
            for fl in p.records[x].fields:
                t = p.records[x].ftype(fl)
                m = re.match(r"^(?:class |struct )?([A-Za-z_]\w*) \*$", t["s"])
                if m and m.group(1) in p.records and m.group(1) not in ("_SECURITY_ATTRIBUTES", "_iobuf"):
                    out.add(m.group(1))
        return out

    def accesses(self, f):
        """(key, node, writes) for every shared location named in a function."""
        par = None
        for n in f.nodes:
            if not n:
                continue
            if n["k"] == "Member" and n.get("dk") not in ("g", "fn") and n.get("cls"):
                yield "%s::%s" % (n["cls"], n["m"]), n
            elif n["k"] in ("Ref", "Member") and n.get("dk") == "g":
                yield n["n"], n
            elif n["k"] == "Ref" and n.get("dk") == "v" and f.vars[n["d"]].get("st"):
                yield "%s static %s" % (f.name, f.vars[n["d"]]["n"]), n

    def written(self, f):
        """ids of the nodes through which a function may change the location they name."""
        r = f.cachebag.get("thr-written")
        if r is not None:
            return r
        r = set()

        def base(n):
            n = f.strip(n)
            while n is not None:
                r.add(id(n))
                if n["k"] in ("Index",) or n["k"] == "Member" and f.ntype(f.strip(f.kid(n, 0)) or {})["k"] == "rec":
                    n = f.strip(f.kid(n, 0))
                else:
                    break
        for n in f.nodes:
            if not n:
                continue
            if n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--", "&"):
                base(f.kid(n, 0))
            elif n["k"] in ("Call", "Construct"):
                if n["k"] == "Call" and f.obj(n) is not None and not n.get("cm"):
                    o = f.strip(f.obj(n))
                    if o is not None and f.ntype(o)["k"] != "ptr":
                        base(o)
                for a in f.args(n):
                    a = f.strip(a)
                    if a is not None and a["k"] in ("Member", "Ref") and f.ntype(a)["k"] in ("rec", "arr"):
                        base(a)
        f.cachebag["thr-written"] = r
        return r

    def shared_data(self):
        c, p = self.c, self.p
        classes = self.shared_classes()
        c.count("classes shared between threads", len(classes))
        use = {}
        for u, f in p.funcs.items():
            if "/test/" in f.file or f.file.endswith("draw_test.cpp"):
                continue
            inw, inm = u in self.wset, u in self.mmust
            if not inw and not inm:
                continue
            wr = None
            for key, n in self.accesses(f):
                t = f.ntype(n)["s"]
                glob = n["k"] == "Ref" or n.get("dk") == "g"
                if not glob and n["cls"] in p.records and n["m"] in p.records[n["cls"]].fields:
                    t = p.records[n["cls"]].ftype(n["m"])["s"]      # as declared, whatever the method is
                if not glob and n["cls"] not in classes:
                    continue
                if not glob and f.cls == n["cls"] and (f.short == n["cls"].rsplit("::", 1)[-1] or f.short.startswith("~")):
                    continue        # construction and destruction are not concurrent
                if re.search(r"\b(recursive_)?mutex\b|atomic|CRITICAL_SECTION|condition_variable", t):
                    continue
                if wr is None:
                    wr = self.written(f)
                m = self.locks.local(f, n)[0]
                use.setdefault(key, []).append((f, n, id(n) in wr, inw, inm, m, t))
        nshared = 0
        for key, l in sorted(use.items()):
            if not any(x[3] for x in l):
                continue                                        # never touched by a background thread
            glob = l[0][1]["k"] == "Ref" or l[0][1].get("dk") == "g"
            if not glob and not any(x[4] for x in l):
                continue                                        # background threads only, each its own object
            if l[0][6].startswith("const ") and "*" not in l[0][6]:
                continue
            nshared += 1
            self.judge(key, l, glob)
        c.count("locations shared with a background thread", nshared)
        if nshared < 8 and not c.viol:
            raise AnalysisBroken("data shared with background threads")

    def judge(self, key, l, glob):
        c = self.c
        live = [x for x in l if glob or x[3] or not self.before(x[0], x[1])]
        if not any(x[2] for x in live):
            c.count("locations only set before the thread starts")
            return
        common, bad, any_lock = None, [], False
        for x in live:
            f, n, w, inw, inm, m, t = x
            held = ([m | self.wmust.get(f.usr, frozenset())] if inw else []) + ([m | self.mmust.get(f.usr, frozenset())] if inm else [])
            h = frozenset.intersection(*held)
            lk = h - {"completed"}
            any_lock |= bool(lk)
            if not inw and "completed" in h:
                continue                                        # handed over
            common = lk if common is None else common & lk
            if not lk:
                bad.append(x)
        if common is None or common:
            c.count("locations guarded by one lock")
            return
        if all(x[3] and not x[4] for x in bad) and not any_lock and not glob:
            c.count("locations handed over on completion")
            return
        if self.flag(live, any_lock):
            c.count("plain flags")
            return
        if key in GLOBALS or key in FIELDS:
            c.count("named exceptions")
            return
        if not bad:
            f, n = live[0][0], live[0][1]
            c.violation("%s locks differ" % key, f.file, n["l"], "%s is accessed with different locks" % key)
            return
        for f, n, w, inw, inm, m, t in bad[:4]:
            other = next((x for x in live if x[0] is not f and x[3] != inw), next((x for x in live if x[0] is not f), None))
            c.violation("%s %s" % (key, f.name), f.file, n["l"], "%s: %s is shared between threads, and no lock is held here%s" % (f.name, key, " (also used by %s)" % other[0].name if other else ""))

    def flag(self, l, locked):
        """A bool, or a volatile scalar, that is only ever given constants."""
        t = l[0][6]
        if not (t in ("bool", "_Bool") and not locked or "volatile" in t):
            return False
        for f, n, w, inw, inm, m, ty in l:
            if not w:
                continue
            ok = False
            for x in f.nodes:
                if x and x["k"] == "Asg" and f.strip(f.kid(x, 0)) is n:
                    r = f.strip(f.kid(x, 1))
                    ok = r is not None and "v" in r
            if not ok:
                return False
        return True

    def singletons(self):
        if not hasattr(self, "_single"):
            self._single = set()
            for g in ir.globals_of(self.p):
                t = g.type(g.d["t"])["s"] if "t" in g.d else ""
                self._single.add(re.sub(r"^(const |class |struct |static )+", "", t))
        return self._single

    def spawnpoints(self, f, depth=0):
        """Nodes of a function that start a thread on one of the shared objects."""
        bag = f.cachebag.get("thr-spawn")
        if bag is not None:
            return bag
        f.cachebag["thr-spawn"] = []
        out = [n for e, (g, n) in self.entries.items() if g is f]
        if depth < 3:
            for n in f.nodes:
                if n and n["k"] == "Call":
                    for t in self.p.targets(n):
                        if t.cls and f.cls and (t.cls == f.cls or f.cls in self.p.subclasses(t.cls)) and self.spawnpoints(t, depth + 1):
                            out.append(n)
        f.cachebag["thr-spawn"] = out
        return out

    def before(self, f, n):
        """The access happens before the object's thread exists."""
        if n.get("cls") in self.singletons():
            return False
        if self.only_constructed(f, n["cls"]):
            return True
        sp = self.spawnpoints(f)
        if not sp:
            return False
        where = {}
        for b in f.blocks.values():
            for i, e in enumerate(b.get("e", ())):
                if isinstance(e, int):
                    where[e] = (b["i"], i)
        idx = {id(x): i for i, x in enumerate(f.nodes) if x}
        par = self.parents(f)

        def pos(m, whole=False):
            k = 0
            while whole and par.get(id(m)) is not None and idx.get(id(m)) is not None:
                m = par[id(m)]          # an assignment happens after its right side
            while m is not None and k < 60:
                if idx.get(id(m)) in where:
                    return where[idx[id(m)]]
                m = par.get(id(m))
                k += 1
            return None
        a = pos(n, id(n) in self.written(f))
        if a is None:
            return False
        for s in sp:
            q = pos(s)
            if q is None:
                return False
            seen, st = set(), [x for x in f.blocks[q[0]]["s"] if x >= 0]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += [y for y in f.blocks[x]["s"] if y >= 0]
            if a[0] in seen or a[0] == q[0] and a[1] > q[1]:
                return False
        return True

    # --- what a thread closes, others no longer use ---------------------------------------------
    def chain(self, f, n, depth=0):
        """Names from a shared object's field down to the part that is used, through local copies."""
        n = f.strip(n)
        if n is None or depth > 5:
            return None
        if n["k"] == "Ref" and n.get("dk") == "v":
            x = self.locks._init(f, n["d"])
            return self.chain(f, x, depth + 1) if x is not None else None
        if n["k"] == "Member" and n.get("dk") not in ("g", "fn"):
            if n.get("cls") in self.classes:
                return ("%s::%s" % (n["cls"], n["m"]),)
            b = self.chain(f, f.kid(n, 0), depth + 1)
            return b + (n["m"],) if b else None
        return None

    def closed(self):
        c, p = self.c, self.p
        gone = {}
        self.classes = self.shared_classes()
        for u in self.wset:
            f = p.funcs[u]
            if u in self.mmust:
                continue
            for n in f.nodes:
                if n and n["k"] == "Call" and n.get("n", "") in ("CloseHandle", "free", "fclose", "FindClose"):
                    k = self.chain(f, f.args(n)[0])
                    if k and not any(k[0].startswith(x + "::") for x in self.singletons()):
                        gone.setdefault(k, (f, n))
        c.count("things a thread closes", len(gone))
        for u in self.mmust:
            f = p.funcs[u]
            if u in self.wset or f.cls and f.short.startswith("~"):
                continue
            for n in f.nodes:
                if not n or n["k"] != "Member" or n.get("dk") in ("g", "fn"):
                    continue
                k = self.chain(f, n)
                if k not in gone or self.before(f, self.root(f, n)):
                    continue
                if "completed" in self.locks.local(f, n)[0] | self.mmust[u] or not self.sub_after(f, n):
                    continue
                c.violation("%s uses %s" % (f.name, ".".join(k)), f.file, n["l"], "%s uses %s, which %s closes on another thread" % (f.name, ".".join(k), gone[k][0].name))

    def root(self, f, n):
        while n is not None and n.get("cls") not in self.classes:
            n = f.strip(f.kid(n, 0))
        return n

    def sub_after(self, f, n):
        """The access can follow a successful start of the thread made in this function."""
        sp = self.spawnpoints(f)
        if not sp:
            return False        # no way to tell; construction order is checked by shared_data
        res = set()
        for m in f.nodes:
            if m and m["k"] == "Asg" and any(f.strip(f.kid(m, 1)) is s for s in sp):
                res.add(f.path(f.kid(m, 0)))
            elif m and m["k"] == "DeclStmt":
                res |= {("v", d["v"]) for d in m["ds"] if d["i"] is not None and d["i"] >= 0 and any(f.strip(f.n(d["i"])) is s for s in sp)}
        where = {e: (b["i"], i) for b in f.blocks.values() for i, e in enumerate(b.get("e", ())) if isinstance(e, int)}
        idx = {id(x): i for i, x in enumerate(f.nodes) if x}
        par = self.parents(f)

        def pos(m):
            k = 0
            while m is not None and k < 60:
                if idx.get(id(m)) in where:
                    return where[idx[id(m)]]
                m, k = par.get(id(m)), k + 1
        a = pos(n)
        for s in sp:
            q = pos(s)
            if q is None or a is None:
                return True
            if a[0] == q[0] and a[1] > q[1]:
                return True
            seen, st = set(), self.onward(f, q[0], res)
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += self.onward(f, x, res)
            if a[0] in seen:
                return True
        return False

    def onward(self, f, b, res):
        bl = f.blocks[b]
        ss = [x for x in bl["s"] if x >= 0]
        t = bl.get("tc")
        if t is None or len(bl["s"]) != 2:
            return ss
        n, null = f.strip(f.n(t)), 1
        while n is not None and n["k"] == "Un" and n["op"] == "!":
            n, null = f.strip(f.kid(n, 0)), 1 - null
        if n is not None and n["k"] == "Bin" and n["op"] in ("==", "!="):
            l, r = f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1))
            if r is not None and (r["k"] == "Null" or r.get("v") == 0):
                if n["op"] == "==":
                    null = 1 - null
                n = l
        if n is not None and f.path(n) in res:
            return [x for i, x in enumerate(bl["s"]) if i != null and x >= 0]
        return ss

    def parents(self, f):
        par = f.cachebag.get("parents")
        if par is None:
            par = {}
            for m in f.nodes:
                if m:
                    for c in list(m.get("c", ())) + [m.get("o", -1)] + [d["i"] for d in m.get("ds", ()) if d["i"] is not None]:
                        if c is not None and c >= 0:
                            par[id(f.nodes[c])] = m
            f.cachebag["parents"] = par
        return par

    def only_constructed(self, f, cls, depth=0):
        """Called by nothing but constructors of the class or of classes derived from it."""
        fam = {cls} | set(self.p.subclasses(cls))
        if f.cls in fam and f.short == f.cls.rsplit("::", 1)[-1]:
            return True
        cs = self.p.callers().get(f.usr, ())
        return bool(cs) and depth < 4 and f.usr not in self.taken and all(self.only_constructed(self.p.funcs[u], cls, depth + 1) for u in cs)

    # --- waiting ------------------------------------------------------------------------------
    def waiting(self):
        c, p = self.c, self.p
        order = {}
        for u, f in p.funcs.items():
            if "/test/" in f.file or f.file.endswith("draw_test.cpp"):
                continue
            may = self.mmay.get(u, frozenset()) | self.wmay.get(u, frozenset())
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] == "Call":
                    nm = n.get("n", "")
                    s = nm.rsplit("::", 1)[-1]
                    block = nm in BLOCK or s == "join" and "thread" in nm
                    if nm in BLOCK:
                        a = f.args(n)
                        t = f.strip(a[BLOCK[nm]]) if len(a) > BLOCK[nm] else None
                        if t is not None and t.get("v") == 0:
                            block = False
                    if block:
                        held = {x for x in may | self.locks.local(f, n)[1] if x != "completed"}
                        c.count("waits examined")
                        if held:
                            c.violation("%s waits %s" % (f.name, s), f.file, n["l"], "%s: %s is called while %s may be held" % (f.name, s, ", ".join(sorted(held))))
                if n["k"] == "DeclStmt" and self.locks.flow.get(u):
                    for d in n["ds"]:
                        g = self.locks._guardvars(f)
                        if d["v"] in g:
                            c.count("lock acquisitions")
                            for h in may | self.locks.local(f, n)[1]:
                                if h not in ("completed", g[d["v"]]):
                                    order.setdefault((h, g[d["v"]]), (f, n))
        for (a, b), (f, n) in sorted(order.items(), key=lambda x: x[0]):
            if (b, a) in order:
                c.violation("lock order %s %s" % (a, b), f.file, n["l"], "%s takes %s with %s held; %s takes them the other way round" % (f.name, b, a, order[b, a][0].name))

    # --- Lua, Readline and the screen belong to the main thread -----------------------------------
    def no_lua(self):
        c, p = self.c, self.p
        seen = p.reachable([p.funcs[u] for u in self.entries])
        for u in seen:
            f = p.funcs[u]
            for n in f.nodes:
                if n and n["k"] == "Call" and re.match(r"(luaL?_[a-z]\w*|_?rl_\w+|add_history\w*|printer::print\w*)$", n.get("n", "")) and n["n"] != "rl_last_path_separator":
                    c.violation("%s %s" % (f.name, n["n"]), f.file, n["l"], "%s is called on a background thread (%s)" % (n["n"], " > ".join(p.chain(seen, u))))
            c.count("functions that run on background threads")

    # --- completion is announced after the work, before the wake up -------------------------------
    def completion(self):
        c, p = self.c, self.p
        n = 0
        for u in self.entries:
            f = p.funcs[u]
            order = self.sequence(f)
            if order is None:
                continue
            work = [i for i, x in enumerate(order) if x[0] == "work"]
            if not work:
                continue
            n += 1
            for i, x in enumerate(order):
                if x[0] in ("signal", "flag") and i < work[-1]:
                    c.violation("%s early %s" % (f.name, x[1]), f.file, x[2], "%s announces completion (%s) before the work is done" % (f.name, x[1]))
            fl = [i for i, x in enumerate(order) if x[0] == "flag"]
            sg = [i for i, x in enumerate(order) if x[0] == "signal"]
            if not sg:
                c.violation("%s no signal" % f.name, f.file, f.line, "%s never signals that the work is done" % f.name)
            for i in fl:
                if any(j < i for j in sg):
                    c.violation("%s signal before flag" % f.name, f.file, order[i][2], "%s wakes waiting code before %s is set" % (f.name, order[i][1]))
            tests = {g for r in (f.cls,) for g in [r] if g}
            if any(x.short == "is_complete" and x.cls in tests for x in p.funcs.values()) and not fl:
                c.violation("%s no flag" % f.name, f.file, f.line, "%s never sets the completion flag" % f.name)
        c.count("completion sequences", n)
        if n < 1 and not c.viol:
            raise AnalysisBroken("threads that do work and announce its completion")

    def sequence(self, f, depth=0):
        """The events of a thread function that runs straight through, in order."""
        live = [b for b in f.blocks.values() if b.get("e")]
        out = []
        if len(live) > 3:
            if depth and not f.callees & {"SetEvent"} and not any(x and x["k"] == "Asg" and self.isflag(f, x) for x in f.nodes):
                return []
            return None
        cur, seen = f.entry, set()
        while cur is not None and cur not in seen:
            seen.add(cur)
            b = f.blocks[cur]
            for e in b.get("e", ()):
                n = f.n(e) if isinstance(e, int) else None
                if n is None:
                    continue
                if n["k"] == "Call":
                    s = n.get("n", "").rsplit("::", 1)[-1]
                    ts = self.p.targets(n)
                    if n.get("virt") and s == "do_work":
                        out.append(("work", s, n["l"]))
                    elif s == "SetEvent":
                        out.append(("signal", f.text(n)[:60], n["l"]))
                    elif len(ts) == 1 and not n.get("virt") and depth < 3 and ts[0].blocks:
                        x = self.sequence(ts[0], depth + 1)
                        if x is None:
                            return None
                        out += [(a, t, n["l"]) for a, t, l in x]
                elif n["k"] == "Asg" and self.isflag(f, n):
                    out.append(("flag", f.strip(f.kid(n, 0))["m"], n["l"]))
            nx = [s for s in b["s"] if s >= 0]
            cur = nx[0] if nx else None
        return out

    def isflag(self, f, n):
        l = f.strip(f.kid(n, 0))
        return l is not None and l["k"] == "Member" and "complete" in l["m"] and l.get("cls") in self.classes
