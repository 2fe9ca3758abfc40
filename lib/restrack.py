"""Resource typestate: acquired exactly once, released exactly once.

Tokens live in the client state as (term, kind, status, usr-independent origin).
status: "L" live, "R" released, "E" escaped (owned by something that outlives the frame).
"""
import re
import engine
import views
from engine import Client, Interp, C, INF, info, depth_of

# name -> (kind, how, invalid values).  how: "ret" or ("out", index of &var argument, success test)
ACQ = {}
REL = {}     # name -> (kinds released, argument index)


def acq(names, kind, how="ret", bad=(0,)):
    for n in names.split():
        ACQ.setdefault(n, []).append((kind, how, tuple(bad)))


def rel(names, kinds, arg=0):
    for n in names.split():
        REL[n] = (tuple(kinds.split()), arg)


acq("CreateFileA CreateFileW", "handle", bad=(-1,))
acq("CreateToolhelp32Snapshot", "handle", bad=(-1,))
acq("CreateEventA CreateEventW CreateMutexA CreateMutexW CreateSemaphoreA CreateSemaphoreW OpenProcess OpenThread "
    "CreateThread CreateRemoteThread OpenEventA OpenEventW CreateFileMappingA CreateFileMappingW OpenFileMappingA "
    "CreateJobObjectA CreateJobObjectW CreateWaitableTimerA CreateWaitableTimerW OpenMutexA OpenMutexW "
    "OpenJobObjectA OpenJobObjectW", "handle")
acq("_beginthreadex", "handle")
acq("CreateConsoleScreenBuffer", "handle", bad=(-1,))
acq("OpenProcessToken OpenThreadToken", "handle", ("out", None, "nz"))
acq("DuplicateHandle", "handle", ("out", 3, "nz"))
acq("CreatePipe", "handle", ("out", 0, "nz"))
acq("CreatePipe", "handle", ("out", 1, "nz"))
ACQ["OpenProcessToken"] = [("handle", ("out", 2, "nz"), (0,))]
ACQ["OpenThreadToken"] = [("handle", ("out", 3, "nz"), (0,))]
for n in ("CreateProcessA", "CreateProcessW"):
    ACQ[n] = [("handle", ("outfld", 9, ".hProcess", "nz"), (0,)), ("handle", ("outfld", 9, ".hThread", "nz"), (0,))]
rel("CloseHandle", "handle")
acq("FindFirstFileA FindFirstFileW FindFirstFileExA FindFirstFileExW", "find", bad=(-1,))
rel("FindClose", "find")
acq("fopen _wfopen _fsopen _wfsopen freopen tmpfile _fdopen _wfdopen fdopen", "FILE")
acq("_popen _wpopen popen", "FILE")
acq("os::create_temp_file", "FILE")
acq("os::dup_handle", "handle")
rel("fclose _pclose pclose", "FILE")
ACQ["RegOpenKeyExA"] = ACQ["RegOpenKeyExW"] = [("hkey", ("out", 4, "z"), (0,))]
ACQ["RegCreateKeyExA"] = ACQ["RegCreateKeyExW"] = [("hkey", ("out", 7, "z"), (0,))]
rel("RegCloseKey", "hkey")
acq("VirtualAlloc", "vmem")
rel("VirtualFree", "vmem")
acq("VirtualAllocEx", "rvmem")
rel("VirtualFreeEx", "rvmem", 1)
acq("MapViewOfFile", "view")
rel("UnmapViewOfFile", "view")
acq("LocalAlloc", "lmem")
acq("CommandLineToArgvW", "lmem")
ACQ["FormatMessageA"] = ACQ["FormatMessageW"] = [("lmem", ("out", 4, "nz"), (0,))]     # with FORMAT_MESSAGE_ALLOCATE_BUFFER
rel("LocalFree", "lmem")
acq("GlobalAlloc", "gmem")
rel("GlobalFree", "gmem")
acq("GlobalLock", "glock")
acq("GetEnvironmentStringsW GetEnvironmentStringsA GetEnvironmentStrings", "envstr")
rel("FreeEnvironmentStringsW FreeEnvironmentStringsA", "envstr")
acq("_open _wopen _wsopen _sopen open dup _dup _open_osfhandle", "fd", bad=(-1,))
rel("_close close", "fd")
acq("GetDC", "dc")
rel("ReleaseDC", "dc", 1)
acq("CreateCompatibleDC", "mdc")
rel("DeleteDC", "mdc")
acq("CreateFontIndirectA CreateFontIndirectW CreateSolidBrush CreatePen", "gdi")
rel("DeleteObject", "gdi")
OSKINDS = {"handle", "find", "FILE", "hkey", "vmem", "rvmem", "view", "lmem", "gmem", "envstr", "fd", "dc", "mdc", "gdi"}

acq("malloc calloc strdup _strdup _wcsdup wcsdup xmalloc _rl_savestring", "heap")
acq("realloc xrealloc", "heap")
acq("tilde_expand rl_copy_text _rl_untranslate_macro_value rl_untranslate_keyseq _rl_make_prompt_for_search", "heap")
ACQ["history_expand"] = [("heap", ("out", 1, "any"), (0,))]
ACQ["translate_keyseq"] = [("heap", ("out", 2, "nz"), (0,))]
rel("free xfree", "heap")
# reached through function pointers or thin classes that load the library on demand
ACQ["ShellExecuteExW"] = [("handle", ("outfld", 0, ".hProcess", "nz"), (0,))]          # with SEE_MASK_NOCLOSEPROCESS
ACQ["CryptCATAdminAcquireContext"] = [("catadmin", ("out", 0, "nz"), (0,))]
rel("CryptCATAdminReleaseContext", "catadmin")
ACQ["WNetOpenEnumW"] = [("netenum", ("out", 4, "z"), (0,))]
rel("WNetCloseEnum", "netenum")
ACQ["NetShareEnum"] = [("netbuf", ("out", 2, "z?"), (0,))]
rel("NetApiBufferFree", "netbuf")
OSKINDS |= {"catadmin", "netenum", "netbuf"}
HEAPKINDS = {"heap", "new", "newarr"}

# external functions that take over ownership of an argument: (name, arg)
TAKES = {("_open_osfhandle", 0), ("_fdopen", 0), ("_wfdopen", 0), ("fdopen", 0), ("SetStdHandle", 1), ("SetClipboardData", 1),
         ("CreateThread", 3), ("_beginthreadex", 3), ("CreateRemoteThread", 4), ("lua_pushlightuserdata", 1),
         ("SetConsoleActiveScreenBuffer", 0), ("SendMessageA", 3), ("SendMessageW", 3), ("SelectObject", 1),
         ("SetWindowLongPtrA", 2), ("SetWindowLongA", 2), ("PostMessageA", 3)}
# pure C library functions: never keep a pointer argument
PURE = set("""strlen strcmp strncmp strcpy strncpy strcat strncat memcpy memmove memset memcmp sprintf snprintf vsnprintf
printf fprintf puts fputs fputc fgetc fgets fread fwrite fseek ftell feof ferror fflush sscanf strtol atoi qsort wcslen wcscpy wcsncpy
wcscat wcsncat wcscmp wcsncmp _stricmp _strnicmp stricmp strnicmp strcmpi _strcmpi strftime mbrtowc wcsicmp _wcsicmp _wcsnicmp
MultiByteToWideChar WideCharToMultiByte ReadFile WriteFile GetTokenInformation lua_pushlstring lua_pushstring lua_pushfstring
RegSetValueExW RegQueryValueExW RegGetValueW RegEnumKeyExW GetEnvironmentVariableW SetEnvironmentVariableW GetFileVersionInfoW
GetConsoleAliasW AddConsoleAliasW ReadProcessMemory WriteProcessMemory ReadConsoleOutputCharacterW ReadConsoleOutputAttribute
FillConsoleOutputAttribute memchr rl_insert_text rl_replace_line rl_add_undo add_history SearchPathW ExpandEnvironmentStringsW
CharLowerW CompareStringW LCMapStringW ReadConsoleOutputW WriteConsoleW SendMessageA free VerQueryValueA GetConsoleAliasesW
rl_message rl_bind_keyseq_in_map rl_named_function rl_set_prompt strerror _stricmp_l wildmatch rl_variable_value rl_variable_bind
rl_insert_text tilde_expand rl_translate_keyseq hooked_fwrite hooked_fprintf ReadConsoleOutputA ScrollConsoleScreenBufferA""".split())


COPY = {"strcpy", "strcat", "strncpy", "strncat", "memcpy", "memmove", "memset", "wcscpy", "wcscat", "wcsncpy"}      # return their first argument


class Escapes:
    """Flow-insensitive: may the function keep (store, return, release or forward) parameter i?"""

    def __init__(self, prog, lent=False):
        self.prog, self.memo = prog, {}
        self.lent = lent          # calls through pointers borrow what they are given


    def keeps(self, f, i, depth=0):
        key = (f.usr, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        if i >= len(f.d["params"]):
            self.memo[key] = True
            return True
        r = self._keeps(f, i, depth)
        self.memo[key] = r
        return r

    def _keeps(self, f, i, depth):
        if depth > 6:
            return True
        names = {f.d["params"][i]}
        pt = f.vtype(f.d["params"][i])
        if pt["k"] in ("ptr", "ref") and f.type(pt.get("e", -1)).get("q") and depth == 0:
            pass
        changed = True
        while changed:
            changed = False
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] == "DeclStmt":
                    for d in n["ds"]:
                        if d["i"] >= 0 and d["v"] not in names and self._is(f, f.nodes[d["i"]], names):
                            names.add(d["v"]); changed = True
                elif n["k"] == "Asg" and n["op"] == "=":
                    l, r = f.kid(n, 0), f.kid(n, 1)
                    if r is not None and self._is(f, r, names):
                        if l is not None and l["k"] == "Ref" and l.get("dk") == "v" and f.vtype(l["d"])["k"] != "ref" and not f.vars[l["d"]].get("st") and not f.vars[l["d"]].get("cap"):
                            if l["d"] not in names:
                                names.add(l["d"]); changed = True
                        else:
                            return True
        for n in f.nodes:
            if not n:
                continue
            k = n["k"]
            if k == "Return":
                c = f.kid(n, 0)
                if c is not None and self._is(f, c, names):
                    return True
            elif k in ("Call", "Construct"):
                for j, a in enumerate(f.args(n)):
                    if a is not None and self._is(f, a, names):
                        if self.call_keeps(f, n, j, depth + 1):
                            return True
                o = f.obj(n)
            elif k == "Delete":
                if self._is(f, f.kid(n, 0), names):
                    return True
            elif k == "Lambda":
                for cp in n.get("caps", ()):
                    if cp.get("v") in names:
                        return True
            elif k == "InitList":
                for a in f.args(n):
                    if a is not None and self._is(f, a, names):
                        return True
        for b in f.blocks.values():
            for e in b.get("e", ()):
                if isinstance(e, dict) and "init" in e and e["e"] >= 0 and self._is(f, f.nodes[e["e"]], names):
                    return True
        return False

    def call_keeps(self, f, n, j, depth=0):
        nm = api(f, n)
        if nm in REL:
            return True
        if n["k"] == "Construct" and views.VIEWCLS.match(n.get("cls", "")):
            return False          # iterators borrow what they iterate over
        ts = self.prog.targets(n)
        if ts:
            return any(self.keeps(t, j, depth) for t in ts)
        if nm in PURE or nm is None and self.lent:
            return False
        if nm is not None and ("::" not in nm) and (nm, j) not in TAKES:
            ct = f.args(n)[j]
            t = f.type(ct.get("ct", ct.get("t", -1)))
            if t["k"] == "ptr" and f.type(t.get("e", -1)).get("q"):
                return False
            return True
        return True

    def _is(self, f, n, names):
        n = f.strip(n)
        if n is None:
            return False
        if n["k"] == "Ref" and n.get("dk") == "v":
            return n["d"] in names
        if n["k"] == "Cond":
            return self._is(f, f.kid(n, 1), names) or self._is(f, f.kid(n, 2), names)
        if n["k"] == "Un" and n["op"] == "&":
            return self._is(f, f.kid(n, 0), names)
        if n["k"] == "Bin" and n["op"] in ("+", "-", ","):
            return any(self._is(f, k, names) for k in f.kids(n))
        if n["k"] == "Asg":
            return self._is(f, f.kid(n, 1), names)
        return False


HELD = " at entry"


def api(f, n):
    """The name an API goes by at this call: directly, as a method of a loader class, or as a pointer member."""
    a = n.get("_api", 0)
    if a == 0:
        a = n.get("n")
        if a is None and n.get("fn") is not None and n["k"] == "Call":
            m = f.strip(f.nodes[n["fn"]])
            while m is not None and m["k"] == "Un" and m["op"] == "*":
                m = f.strip(f.kid(m, 0))
            b = m.get("m") if m is not None and m["k"] == "Member" else None
            a = b if b in ACQ or b in REL else None
        elif a is not None and "::" in a:
            b = a.rsplit("::", 1)[1]
            if b[:1].isupper() and (b in ACQ or b in REL):
                a = b
        n["_api"] = a
    return a


class ResourceClient(Client):
    def __init__(self, prog, kinds, report, extra_acq=None, extra_rel=None, max_inline=60):
        self.prog, self.kinds, self.report = prog, kinds, report
        self.esc = Escapes(prog, not set(kinds) & HEAPKINDS)
        self.acq = {k: [x for x in v if x[0] in kinds] for k, v in ACQ.items()}
        self.acq = {k: v for k, v in self.acq.items() if v}
        self.rel = {k: v for k, v in REL.items() if set(v[0]) & set(kinds)}
        if extra_acq:
            self.acq.update(extra_acq)
        if extra_rel:
            self.rel.update(extra_rel)
        self.news = "new" in kinds
        self.relevant = self._relevant()
        self.max_inline = max_inline
        self.wrap_inline = max_inline
        self.wrappers, self.rootcls, self.fields = set(), None, {}
        self.made_wrapper = False
        self.exits, self.keep, self.params = [], [], ()
        self.summ, self.rets = {}, set()
        self.sites = set()
        self.rsites = set()
        self.seed = None
        self.assume_escape_heap = bool(set(kinds) & HEAPKINDS)

    def _relevant(self):
        names = set(self.acq) | set(self.rel)
        rnames = set(self.rel)
        direct = set()
        self.releasers = {f.usr for f in self.prog.funcs.values()
                          if f.callees & rnames or any(n and n["k"] == "Call" and api(f, n) in rnames for n in f.nodes)}
        for f in self.prog.funcs.values():
            if f.callees & names or any(n and n["k"] == "Call" and api(f, n) in names for n in f.nodes):
                direct.add(f.usr)
            elif self.news and any(n and n["k"] in ("New", "Delete") for n in f.nodes):
                direct.add(f.usr)
        self.direct = direct
        return direct

    def inline(self, f):
        if engine.is_leaf(self.prog, f):
            return True
        if f.usr in self.wrappers:
            return len(f.blocks) <= self.wrap_inline
        if f.usr not in self.direct:
            return False
        if f.has("lambda"):
            return self.wrap_inline > 0
        if f.cls and f.cls != self.rootcls:
            return False          # another class's contract: checked on its own
        return len(f.blocks) <= self.max_inline

    # --- token bookkeeping -------------------------------------------------
    def initial(self, it, f):
        return self.seed or frozenset()

    def weak(self, st, loc):
        tok = self.find(st, st.env.get(loc))
        if tok is not None and tok[2] == "L":
            self.setst(st, tok, "E")

    def find(self, st, t):
        for x in st.cl:
            if x[0] == t:
                return x
        return None

    def setst(self, st, tok, status, where=None):
        st.cl = (st.cl - {tok}) | {(tok[0], tok[1], status, tok[3], tok[4])}
        if status == "E":
            for x in self.under(st, ("d", tok[0])):
                self.setst(st, x, "E")

    def rename(self, cl, a, b):
        out = set()
        for x in cl:
            t = engine.rename_term(x[0], a, b)
            if t == x[0] and x[0] == b:
                continue          # the older value of the same name is given up
            out.add(x if t == x[0] else (t,) + x[1:])
        return frozenset(out)

    def live_terms(self, cl):
        return [x[0] for x in cl] + self.keep

    def group(self, st):
        held = {x[0] for x in st.cl if x[2] == "L"}
        return (st.cl, frozenset((p, t) for p, t in st.env.items() if t in held)) if held else st.cl

    def watched(self, st):
        return {x[0] for x in st.cl if x[2] == "L"}

    def lost(self, fr, st, n, terms):
        for x in list(st.cl):
            if x[0] in terms and x[2] == "L":
                self.setst(st, x, "E")

    def gc(self, it, st):
        bad = [x for x in st.cl if x[2] in "LE" and self.known_bad(it, st, x)]
        if bad:
            st.cl = st.cl - set(bad)
        dead = [x for x in st.cl if x[2] not in "LD"]
        if not dead:
            return bool(bad)
        reach = set()
        for p, t in st.env.items():
            reach.add(t)
            if p[0] == "d":
                reach.add(p[1])
        reach.update(st.temps.values())
        out = set()
        for x in dead:
            t = x[0]
            if t in reach:
                continue
            if t[0] == "in" and st.env.get(t[1]) in (None, t) and t[2] == it.epoch(st, t[1]) and \
                    (t[1][0] != "d" or t[1][1] in reach) and "'old'" not in repr(t):
                continue       # the location it came from still holds it
            # values derived from it may still be in use
            out.add(x)
        if out:
            st.cl = st.cl - out
            return True
        return bool(bad)

    def add(self, fr, st, n, t, kind, bad):
        st.cl = st.cl | {(t, kind, "L", (fr.f.file, n.get("l", 0), n.get("n") or n["k"]), bad)}
        self.sites.add((fr.f.file, n.get("l", 0), n.get("n") or n["k"]))

    def call(self, fr, st, n, args):
        it = fr.it
        if n["k"] == "New":
            if not self.news or n.get("placement"):
                return None
            at = fr.f.type(n["at"])
            t = it.fresh(fr, st, n)
            st.cons[t] = (-INF, INF, frozenset((0,)))
            self.add(fr, st, n, t, "newarr" if n.get("arr") else "new", ())

            for c in n.get("c", ())[1:]:
                x = fr.f.nodes[c] if c >= 0 else None
                if x is not None and x["k"] == "Construct":
                    src = ("t", fr.depth, c)
                    for p in [p for p in st.env if p[:3] == src]:
                        st.env[("d", t) + p[3:]] = st.env.pop(p)
            return [(st, t)]
        if n["k"] == "Delete":
            if not self.news:
                return None
            self.rsites.add((fr.f.file, n.get("l", 0)))
            self.release(fr, st, n, args[0], ("newarr",) if n.get("arr") else ("new",))
            return [(st, C(0))]
        nm = api(fr.f, n)
        # every argument that is a released token is a use after release
        if nm not in self.rel or True:
            for i, t in enumerate(args):
                tok = self.find(st, t)
                if tok is not None and tok[2] == "R" and not (nm in self.rel and self.rel[nm][1] == i):
                    if not (nm in ("realloc",) and i == 0):
                        self.report(fr, n, "use-after-release", tok, "passed to %s" % nm)
        if nm in self.rel:
            kinds, i = self.rel[nm]
            self.rsites.add((fr.f.file, n.get("l", 0)))
            if nm in ("VirtualFree", "VirtualFreeEx"):
                j = 2 if nm == "VirtualFree" else 3
                if j < len(args) and args[j] == ("c", 0x8000) and args[j - 1] != ("c", 0):
                    self.report(fr, n, "release-fails", self.find(st, args[i]) or (args[i], kinds[0], "L", (fr.f.file, n.get("l", 0), nm), ()),
                                "MEM_RELEASE requires size 0, so the region is never released")
            if i < len(args):
                t = args[i]
                if nm == "DeleteObject" and self.find(st, t) is None:
                    return None
                self.release(fr, st, n, t, kinds)
            r = it.fresh(fr, st, n)
            return [(st, r)]
        if nm == "VirtualAlloc" and len(args) == 4 and args[0] != ("c", 0) and args[2][0] == "c" and not args[2][1] & 0x2000:
            return None           # commits pages of a region that is already reserved
        if nm in ("FormatMessageA", "FormatMessageW") and not (args and args[0][0] == "c" and args[0][1] & 0x100):
            return None           # caller's buffer
        summ = self.summ.get(n.get("f")) if not n.get("virt") else None
        if nm in self.acq or summ:
            outs = [a for a in self.acq[nm] if a[1] != "ret"] if not summ else []
            if not outs:
                kind, how, bad = self.acq[nm][0] if not summ else (summ, "ret", (0, -1) if summ not in HEAPKINDS else (0,))
                if summ:
                    self.pass_args(fr, st, n, args)
                # ownership moves: fdopen(fd), open_osfhandle(handle), realloc(p)
                for i, a in enumerate(args):
                    if nm in ("realloc", "xrealloc") and i == 0:
                        tok = self.find(st, a)
                        s2 = None
                        if tok is not None and tok[2] == "R":
                            self.report(fr, n, "double-release", tok, "passed to %s" % nm)
                        t = it.fresh(fr, st, n)
                        a = it.renamed(a)
                        tok = self.find(st, a)
                        ok = st
                        s2 = st.copy()
                        if tok is not None:
                            self.setst(ok, tok, "R")
                        else:
                            if a[0] in ("s", "in"):
                                ok.cl = ok.cl | {(a, "heap", "R", (fr.f.file, n.get("l", 0), nm), ())}
                        ok.cons[t] = (-INF, INF, frozenset((0,)))
                        self.add(fr, ok, n, t, kind, bad)
                        for p in [p for p in ok.env if p[0] == "d" and p[1] == a]:
                            ok.env[("d", t) + p[2:]] = ok.env.pop(p)
                        if nm == "xrealloc":
                            return [(ok, t)]
                        s2.cons[t] = (0, 0, frozenset())
                        return [(ok, t), (s2, C(0))]
                moved = [i for (fnm, i) in TAKES if fnm == nm]
                t = it.fresh(fr, st, n)
                args = [it.renamed(a) for a in args]
                if moved:
                    fail = st.copy()
                    for i in moved:
                        if i < len(args):
                            tok = self.find(st, args[i])
                            if tok is not None:
                                self.setst(st, tok, "E")
                            if args[i][0] == "addr":
                                self.escape_under(st, args[i][1])
                    self.add(fr, st, n, t, kind, bad)
                    for b in bad:
                        st.cons[t] = (-INF, INF, frozenset(bad))
                    return [(st, t), (fail, C(bad[0]))]
                for a in args:
                    pass
                self.add(fr, st, n, t, kind, bad)
                it.havoc(fr, st, n, args)
                return [(st, t)]
            ok, fail = st, st.copy()
            it.havoc(fr, ok, n, args)
            it.havoc(fr, fail, n, args)
            for j, (kind, how, bad) in enumerate(outs):
                ai = how[1]
                if ai >= len(args):
                    continue
                l = args[ai][1] if args[ai][0] == "addr" else it.deref_loc(args[ai])
                if how[0] == "outfld":
                    l = l + (how[2],)
                t = it.fresh(fr, ok, n, "o%d" % j)
                ok.cons[t] = (-INF, INF, frozenset((0, -1)))
                ok.env[l] = t
                ok.kills = {k: v for k, v in ok.kills.items()}
                self.add(fr, ok, n, t, kind, bad)
                self.store(fr, ok, n, l, t)
            test = outs[0][1][-1]
            if test == "any":
                return [(ok, it.fresh(fr, ok, n))]
            if test == "z?":          # succeeds with 0 or with ERROR_MORE_DATA
                more, r3 = ok.copy(), it.fresh(fr, fail, n)
                fail.cons[r3] = (-INF, INF, frozenset((0, 234)))
                return [(ok, C(0)), (more, C(234)), (fail, r3)]
            r1 = C(0) if test == "z" else it.fresh(fr, ok, n)
            if test != "z":
                ok.cons[r1] = (-INF, INF, frozenset((0,)))
            r2 = C(0) if test != "z" else it.fresh(fr, fail, n)
            if test == "z":
                fail.cons[r2] = (-INF, INF, frozenset((0,)))
            return [(ok, r1), (fail, r2)]
        if nm in COPY and args:
            it.havoc(fr, st, n, args)
            return [(st, it.renamed(args[0]))]
        # ordinary call: does it take over a tracked resource?
        if st.cl and not (self.will_inline(fr, n)):
            self.pass_args(fr, st, n, args)
        return None

    def will_inline(self, fr, n):
        p = self.prog
        callee = p.funcs.get(n.get("f")) if not n.get("virt") else None
        if callee is None and n.get("virt"):
            ts = p.targets(n)
            callee = ts[0] if len(ts) == 1 else None
        if callee is None or not callee.blocks or fr.depth >= self.max_depth or not self.inline(callee):
            return False
        x = fr
        while x is not None:
            if x.f is callee:
                return False
            x = x.parent
        return True

    def pass_args(self, fr, st, n, args):
        f = fr.f
        if n["k"] == "Dtor":
            # object destroyed by code that is not followed: whatever it owns is released
            if args and args[0][0] == "addr":
                self.escape_under(st, args[0][1])
            return
        for i, t in enumerate(args):
            tok = self.find(st, t)
            if tok is None and t[0] == "op":
                tok = self.find(st, t[2]) or self.find(st, t[3])
            if tok is not None and tok[2] == "L":
                if self.takes(fr, n, i, tok):
                    self.given(fr, n, i, tok)
                    self.setst(st, tok, "E")
            if t[0] == "addr" and n["k"] != "Dtor":
                has = [x for x in self.under(st, t[1])]
                if has:
                    ts = self.prog.targets(n)
                    nm = n.get("n") or ""
                    if ts:
                        keep = any(self.esc.keeps(c, i) or not self.is_const(c, i) for c in ts)
                    else:
                        keep = not (nm and "::" not in nm)
                    if keep:
                        for tk in has:
                            self.setst(st, tk, "E")
        if n.get("o") is not None or n["k"] == "Construct":
            # a method not followed, on an object holding a resource
            l = fr.it.obj_loc(fr, st, n)
            if l is not None and not n.get("cm"):
                callee = self.prog.funcs.get(n.get("f"))
                if callee is None or self.releases(callee):
                    for tk in self.under(st, l):
                        self.setst(st, tk, "E")
        if "n" not in n and n["k"] == "Call":
            for i, t in enumerate(args):
                tok = self.find(st, t)
                if tok is not None and tok[2] == "L" and tok[1] not in OSKINDS:
                    self.setst(st, tok, "E")

    def given(self, fr, n, i, tok):
        """A constructor that is handed a resource and stores it makes that field an owner."""
        ts = []
        if tok[1] in HEAPKINDS:
            return                # objects are often lent to constructors
        if n["k"] == "Construct":
            ts = [t for t in self.prog.targets(n) if t.has("ctor")]
        elif n.get("n") in ("std::make_shared", "std::make_unique"):
            m = re.search(r"(?:_NonArray|unique_ptr)<([\w:]+)[>,]", fr.f.ntype(n)["s"])
            if m:
                ts = [f for f in self.prog.funcs.values() if f.cls == m.group(1) and f.has("ctor") and len(f.d["params"]) == len(n.get("c", ()))]
        for t in ts:
            if i >= len(t.d["params"]):
                continue
            pv = t.d["params"][i]
            for b in t.blocks.values():
                for e in b.get("e", ()):
                    if isinstance(e, dict):
                        if "init" in e and t.path(t.n(e.get("e", -1))) == ("v", pv):
                            self.fields.setdefault((t.cls, self.prog.fcomp(t.cls, e["init"]), tok[1]), (tok[3], fr.f.name))

    def releases(self, callee):
        r = getattr(self, "_relmemo", None)
        if r is None:
            r = self._relmemo = {}
        v = r.get(callee.usr)
        if v is None:
            reach = self.prog.reachable([callee])
            v = r[callee.usr] = any(u in self.releasers for u in reach)
        return v

    def is_const(self, c, i):
        if i >= len(c.d["params"]):
            return True
        t = c.vtype(c.d["params"][i])
        return t["k"] not in ("ptr", "ref") or bool(c.type(t.get("e", -1)).get("q"))

    def under(self, st, loc):
        n = len(loc)
        out = []
        for p, t in st.env.items():
            if p[:n] == loc:
                tok = self.find(st, t)
                if tok is not None and tok[2] == "L":
                    out.append(tok)
        return out

    def escape_under(self, st, loc):
        for tk in self.under(st, loc):
            self.setst(st, tk, "E")

    def takes(self, fr, n, i, tok):
        nm = api(fr.f, n)
        if nm is None:
            return tok[1] not in OSKINDS       # an API reached through a pointer: borrows what it is given
        if (nm, i) in TAKES:
            return True
        ts = self.prog.targets(n)
        if ts:
            return any(self.esc.keeps(t, i) for t in ts)
        if "::" in nm:
            # C++ library: containers keep what they are given; string functions do not
            return not nm.endswith(("::c_str", "::operator=="))
        if tok[1] in HEAPKINDS:
            if nm in PURE:
                return False
            a = fr.f.args(n)[i]
            if a is None:
                return False
            t = fr.f.type(a.get("ct", a.get("t", -1)))
            if t["k"] == "ptr" and fr.f.type(t.get("e", -1)).get("q"):
                return False
            return True
        return False

    def callers(self, l):
        """The location belongs to the caller, the object or the program, or is a field of what a parameter points to."""
        if l[0] == "v":
            return l[1] == 0 and len(l) == 3 and l[2] in self.params
        if l[0] == "d":
            return l[1][0] == "in" and l[1][1][0] == "v" and self.callers(l[1][1])
        return l[0] in ("this", "g", "cap")

    def release(self, fr, st, n, t, kinds):
        if t[0] == "in" and "'[]'" in repr(t):
            return            # some element of an array
        tok = self.find(st, t)
        if tok is None:
            if t[0] in ("s", "in"):
                if t[0] == "in" and t[1][0] in ("v", "d"):
                    self.made_wrapper = True
                if not (fr.it.const_of(st, t) in (0, -1)):
                    if t[0] == "in" and not self.assume_escape_heap and self.callers(t[1]):
                        st.cl = st.cl | {(("done", t[1]), kinds[0], "D", (fr.f.file, n.get("l", 0), n.get("n") or n["k"]), ())}
                    st.cl = st.cl | {(t, kinds[0], "R", (fr.f.file, n.get("l", 0), n.get("n") or n["k"]), ())}
            elif t[0] == "addr" and kinds[0] in HEAPKINDS and t[1][0] == "v" and t[1][1] == fr.depth and len(t[1]) == 3:
                self.report(fr, n, "release-of-non-heap", (t, kinds[0], "L", (fr.f.file, n.get("l", 0), "?"), ()), "releases memory that was not allocated")
            elif t[0] == "str" and kinds[0] in HEAPKINDS:
                self.report(fr, n, "release-of-non-heap", (t, kinds[0], "L", (fr.f.file, n.get("l", 0), "?"), ()), "releases a literal")
            return
        if fr.it.const_of(st, t) == 0:
            return
        if tok[2] == "R":
            self.report(fr, n, "double-release", tok, "released again")
            return
        if tok[1] not in kinds and tok[2] == "L":
            self.report(fr, n, "mismatched-release", tok, "acquired as %s, released with %s" % (tok[1], n.get("n") or ("delete[]" if n.get("arr") else "delete")))
        self.setst(st, tok, "R")

    def nonlocal_loc(self, fr, loc):
        if loc[0] in ("v", "t", "ret"):
            return False
        if loc[0] == "this":
            return True
        if loc[0] == "cap":
            return True
        if loc[0] == "d":
            # through an object that is itself tracked: stays with that object
            return True
        return True

    def store(self, fr, st, n, loc, t):
        if not st.cl:
            return
        tok = self.find(st, t)
        if tok is None and t[0] == "op":
            tok = self.find(st, t[2]) or self.find(st, t[3])
        if tok is None or tok[2] != "L":
            return
        if loc[0] == "d":
            own = self.find(st, loc[1])
            if own is not None and own[2] == "L":
                return       # owned by a tracked object; handled when that object dies or escapes
        if self.nonlocal_loc(fr, loc):
            if loc[0] == "this" and len(loc) == 2:
                r = fr
                self.fields.setdefault((fr.f.cls, loc[1], tok[1]), (tok[3], r.f.name))
            elif loc[0] == "d":
                self.made_wrapper = True
            self.setst(st, tok, "E")

    def elem(self, fr, st, n):
        if st.cl and any(x[2] == "R" for x in st.cl):
            k, b = n["k"], None
            if k == "Member" and n.get("arrow") or k == "Un" and n["op"] == "*" or k == "Index":
                b = fr.f.kid(n, 0)
                if b is not None and fr.f.ntype(b)["k"] == "ptr":
                    t = fr.it.value(fr, st, b)
                    while t[0] == "op":
                        t = t[2]
                    tok = self.find(st, t)
                    if tok is not None and tok[2] == "R" and tok[1] in HEAPKINDS | {"vmem", "lmem", "gmem", "envstr", "view"}:
                        self.report(fr, n, "use-after-release", tok, "dereferenced")
        if n["k"] == "Lambda":
            for cp in n.get("caps", ()):
                if "v" in cp:
                    l = fr.it.var_loc(fr, cp["v"])
                    self.escape_under(st, l)

    def ret(self, fr, st, n, t):
        if t is not None and fr.depth == 0:
            x = self.find(st, t)
            if x is not None and x[2] == "L" and x[0] == t:
                self.rets.add(x[1])
            elif not (fr.it.rng(st, t)[:2] == (0, 0) or x is not None and self.known_bad(fr.it, st, x)):
                self.rets.add("other")
        if t is not None:
            tok = self.find(st, t)
            if tok is None and t[0] == "op":
                tok = self.find(st, t[2]) or self.find(st, t[3])
            if tok is not None:
                if tok[2] == "R" and (fr.depth == 0 or tok[1] in HEAPKINDS) and not self.known_bad(fr.it, st, tok):
                    self.report(fr, n, "use-after-release", tok, "returned")
                if tok[2] == "L":
                    if fr.depth == 0:
                        self.made_wrapper = True
                        self.setst(st, tok, "E")
            if t[0] == "addr" and fr.depth == 0:
                self.escape_under(st, t[1])
        for x in fr.f.deep(n):
            if x["k"] in ("InitList", "Construct"):
                for a in fr.f.args(x):
                    if a is not None and fr.f.ntype(a)["k"] != "rec":
                        tk = self.find(st, fr.it.value(fr, st, a))
                        if tk is not None and tk[2] == "L":
                            self.setst(st, tk, "E")
        rt = st.env.get(("ret", 0))
        if rt is not None and rt[0] == "addr":
            self.escape_under(st, rt[1])

    def invalid(self, fr, st, tok):
        return self.known_bad(fr.it, st, tok)

    def known_bad(self, it, st, tok):
        lo, hi, ex = it.rng(st, tok[0])
        if lo == hi == 0:
            return True
        return (lo == hi and (lo in (0, -1) or lo in tok[4])) or (hi < 0 and -1 in tok[4])

    def exit(self, fr, st, t):
        if fr.depth == 0 and not self.seed and fr.f.usr in self.releasers | self.wrappers:
            self.exits.append((st.copy(), t, fr.it.trace_lines()))
        if not fr.f.has("dtor"):
            for tok in st.cl:
                x = tok[0]
                if tok[2] == "R" and x[0] == "in" and (x[1][0] in ("this", "g") or x[1][0] == "d" and self.callers(x[1]) and fr.depth == 0) and "'[]'" not in repr(x) and fr.it.read(st, x[1]) == x \
                        and not self.known_bad(fr.it, st, tok):
                    self.report(fr, None, "dangling", tok, "%s still holds the released value when %s returns" % (x[1][-1].lstrip(".").split("`")[0], fr.f.name))
        for tok in st.cl:
            if tok[2] == "L" and not self.invalid(fr, st, tok):
                if tok[3][2].endswith(HELD) and fr.it.read(st, tok[0][1]) == tok[0]:
                    continue          # not overwritten
                if self.held_by_escaped(st, tok):
                    continue
                self.report(fr, None, "leak", tok, "still held when %s returns" % fr.f.name)

    def held_by_escaped(self, st, tok):
        for p, t in st.env.items():
            if t == tok[0] and p[0] == "d":
                own = self.find(st, p[1])
                if own is not None and own[2] in ("E",):
                    return True
                if own is None:
                    return True
        return False


FALLBACK_OS = ((60, 60), (0, 60), (0, 12), (0, 0))
FALLBACK_HEAP = ((20, 20), (0, 20), (0, 6), (0, 0))
_W = None


class Worker:
    def __init__(self, prog, kinds):
        self.prog = prog
        self.findings = {}
        self.cl = ResourceClient(prog, kinds, self.report)
        self.it = Interp(prog, self.cl)
        self.fallback = FALLBACK_HEAP if set(kinds) & HEAPKINDS else FALLBACK_OS

    def report(self, fr, n, what, tok, msg):
        root = fr
        while root.parent is not None:
            root = root.parent
        key = (what, tok[1], tok[3][0], tok[3][2], root.f.name)
        if key not in self.findings:
            self.findings[key] = {"what": what, "kind": tok[1], "origin": tok[3], "func": root.f.name, "file": root.f.file,
                                  "where": fr.f.file, "line": (n.get("l") if n else None) or tok[3][1], "msg": msg,
                                  "path": fr.it.trace_lines(), "stack": fr.stack()}

    def partial(self, f):
        """What the caller or the object owned at entry is released on every path or on none, unless it is known to hold nothing."""
        cl, it = self.cl, self.it
        locs = {}
        n = f.name.rsplit("::", 1)[-1]
        if n in REL and n[:1].isupper():
            return                # a thin forwarder that fails when the library is missing
        for st, t, tr in cl.exits:
            for x in st.cl:
                if x[2] == "D":
                    locs.setdefault(x[0][1], x)
        for loc, tok in sorted(locs.items(), key=str):
            for st, t, tr in cl.exits:
                if any(x[2] == "D" and x[0][1] == loc for x in st.cl):
                    continue
                v = ("in", loc, ())
                if cl.known_bad(it, st, (v, tok[1], "L", tok[3], (0, -1))):
                    continue
                nm = loc[-1]
                nm = f.vars[nm]["n"] if loc[0] == "v" else str(nm).lstrip(".").split("`")[0]
                self.findings.setdefault(("partial", tok[1], f.file, nm, f.name), {
                    "what": "partial-release", "kind": tok[1], "origin": tok[3][:2] + (nm,), "func": f.name, "file": f.file, "where": f.file,
                    "line": tok[3][1], "msg": "released on some paths through %s, kept on others where it may be valid" % f.name, "path": tr, "stack": []})
                break

    def one(self, u, seed=None):
        cl, f = self.cl, self.prog.funcs[u]
        cl.seed, cl.rootcls, cl.made_wrapper = seed, f.cls, False
        cl.params, cl.keep = f.d["params"], []
        ok = False
        cl.rets = set()
        for cl.max_inline, cl.wrap_inline in self.fallback:
            cl.exits = []
            if self.it.analyze(f):
                ok = True
                cl.keep = sorted({("in", x[0][1], ()) for st, t, tr in cl.exits for x in st.cl if x[2] == "D"}, key=str)
                if cl.keep:
                    cl.exits = []
                    if not self.it.analyze(f):
                        cl.exits = []
                break
        if not seed:
            self.partial(f)
        return ok, cl.made_wrapper


def _task(a):
    u, wrappers, seed, summ = a
    _W.cl.wrappers, _W.cl.summ = wrappers, summ
    _W.findings.clear(); _W.cl.sites.clear(); _W.cl.rsites.clear(); _W.cl.fields.clear()
    ok, mw = _W.one(u, seed)
    rk = next(iter(_W.cl.rets)) if ok and len(_W.cl.rets) == 1 else None
    return u, ok, (mw, rk if rk != "other" else None), dict(_W.findings), set(_W.cl.sites), set(_W.cl.rsites), dict(_W.cl.fields)


def overwrites(prog, f, fld):
    """The method assigns the field of its own object (or passes its address on)."""
    name = fld.lstrip(".").split("`")[0]
    def own(n):
        n = f.strip(n)
        return n is not None and n["k"] == "Member" and n.get("m") == name and f.kid(n, 0) is not None and f.kid(n, 0)["k"] == "This"
    return any(n and (n["k"] == "Asg" and n["op"] == "=" and own(f.kid(n, 0)) or n["k"] == "Un" and n["op"] == "&" and own(f.kid(n, 0))) for n in f.nodes)


def run(prog, kinds, funcs=None, jobs=8, dtors=True):
    """Returns (findings, stats)."""
    global _W
    import multiprocessing
    _W = Worker(prog, kinds)
    callers = prog.callers()
    findings, over, fields, sites, rsites = {}, [], {}, set(), set()
    wrappers, done, ndtor, nover, summ = set(), set(), 0, 0, {}
    todo = [u for u in _W.cl.direct if funcs is None or funcs(prog.funcs[u])]
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        while todo:
            todo.sort(key=lambda u: (-len(prog.funcs[u].blocks), u))
            done |= set(todo)
            nxt, nsumm = set(), {}
            for u, ok, mw, fs, s1, s2, fl in pool.imap_unordered(_task, [(u, wrappers, None, summ) for u in todo]):
                mw, rk = mw
                if rk and u not in summ and not prog.funcs[u].has("virtual"):
                    nsumm[u] = rk
                findings.update({k: v for k, v in fs.items() if k not in findings})
                sites |= s1
                rsites |= s2
                for k, v in fl.items():
                    fields.setdefault(k, v)
                if not ok:
                    over.append(prog.funcs[u].name)
                if mw and u not in wrappers:
                    wrappers = wrappers | {u}
                    nxt |= callers.get(u, set())
            for u in nsumm:
                nxt |= callers.get(u, set())
            summ = {**summ, **nsumm}
            todo = [u for u in nxt if (u not in done or summ) and (funcs is None or funcs(prog.funcs[u]))]
        owners = []
        if dtors:
            tasks = []
            for (cls, fld, kind), (origin, fn) in sorted(fields.items(), key=str):
                ds = [f for f in prog.funcs.values() if f.cls == cls and f.has("dtor") and f.blocks]
                owners.append((cls, fld.split("`")[0], kind, origin, fn, bool(ds)))
                for d in ds[:1]:
                    t = ("in", ("this", fld), ())
                    tasks.append((d.usr, wrappers, frozenset([(t, kind, "L", (origin[0], origin[1], "%s stored in %s%s" % (origin[2], cls, fld.split("`")[0])), (0, -1))]), summ))
                    ndtor += 1
                if not ds:
                    continue
                for m in prog.funcs.values():
                    if m.cls == cls and m.blocks and not m.has("dtor") and not m.has("ctor") and overwrites(prog, m, fld):
                        t = ("in", ("this", fld), ())
                        tasks.append((m.usr, wrappers, frozenset([(t, kind, "L", (origin[0], origin[1], "%s held by %s%s%s" % (origin[2], cls, fld.split("`")[0], HELD)), (0, -1))]), summ))
                        nover += 1
            for u, ok, mw, fs, s1, s2, fl in pool.imap_unordered(_task, tasks):
                for k, v in fs.items():
                    findings.setdefault(k, v)
    return findings, {"functions": len(done), "acquire_sites": sites, "release_sites": rsites, "incomplete": sorted(over),
                      "owners": owners, "destructors": ndtor, "overwriters": nover, "summaries": sorted("%s:%s" % (prog.funcs[u].name, k) for u, k in summ.items()), "wrappers": sorted(prog.funcs[u].name for u in wrappers)}
