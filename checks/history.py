"""P17: the history files of concurrent sessions.

Rules over history_db.cpp, on every path of every function:
  exclusive   a write_lock holds an exclusive lock on every handle it owns, a bank_lock locks master lines first, and
              releases what it locked
  position    file contents are changed only through a write_lock, after positioning the same handle in that function
              (at the end to append, at the line's offset to overwrite one byte, at the start to truncate)
  order       no lock on the master bank is taken while a lock on a session bank is held
  tag         emptying the master bank is followed by writing a newly generated tag as its first line; the tag the
              object remembers is read again after the bank is rewritten
  guard       a line is removed by an id from outside the lock only after comparing the bank's tag
  reap        a session's files are deleted only when the session is gone, and after appending its lines to the master
              bank under both locks and applying its removals (or when they are empty, or not to be kept)
  close       the destructor merges after giving up the alive file and the session bank, and before closing the master
"""
import ir, protocol
from protocol import C
from check import Check
from extract import AnalysisBroken

FILE = "clink/lib/src/history_db.cpp"
FILE_BEGIN, FILE_CURRENT, FILE_END = 0, 1, 2


def here(f):
    return f.file == FILE


def last(loc):
    return loc[-1].split("::")[-1] if loc and isinstance(loc[-1], str) else None


def fld(t):
    """Name of the field a handle was read from: its last component."""
    return None


def name_of(at, i):
    """Canonical name of the handle expression: the member or variable it denotes."""
    n = at.arg(i)
    p = at.f.path(n) if n is not None else None
    return p


def excludes_zero(r):
    return r[0] > 0 or r[1] < 0 or 0 in r[2]


def other_bank(at):
    """Does the path know that the bank at hand is not the master bank (a bank index that is not 0)?"""
    for t, r in at.known(lambda t: t[0] == "in"):
        l = t[1]
        if str(l[-1]).endswith(".bank_index") and excludes_zero(r):
            return True
        if len(l) == 3 and l[0] == "v" and "bank_index" in at.root.vars[l[2]]["n"] if l[1] == 0 and isinstance(l[2], int) and l[2] < len(at.root.vars) else False:
            if excludes_zero(r):
                return True
    p = at.param(0)
    if p is not None and at.root.has("lambda") and at.truth(("cmp", "==", p, C(0))) is False:
        return True
    return None


# --- exclusive ------------------------------------------------------------------
def rule_exclusive(prog, c):
    def locking(at):
        h = at.arg(0)
        what = h.get("m") if h is not None and h["k"] == "Member" else at.text(0)
        if at.name == "LockFileEx":
            at.count("lock_calls")
            v = at.const(at.args[1])
            excl = None if v is None else bool(v & 2)
            if excl is None:
                at.report("%s|flags" % at.f.name, "%s: the lock flags are not known on this path" % at.f.name)
            if what == "m_handle_removals" and not any(x[0] == "L" and x[1] == "m_handle_lines" for x in at.st.cl):
                at.report("%s|first" % at.f.name, "%s locks the removals before the lines" % at.f.name)
            at.add(("L", what, bool(excl)))
        else:
            at.count("unlock_calls")
            at.add(("U", what))
        return [(C(1), ())]

    def leave(at, t):
        f = at.f
        for h in ("m_handle_lines", "m_handle_removals"):
            fl = prog.fcomp("bank_lock", h)
            v = at.fr.it.read(at.st, ("this", fl))
            isnull = at.truth(("cmp", "==", v, C(0)))
            if h == "m_handle_removals":
                v2 = at.fr.it.read(at.st, ("this", prog.fcomp("bank_lock", "m_handle_lines")))
                if at.truth(("cmp", "==", v2, C(0))) is True:
                    continue
            if isnull is True:
                continue
            if f.d.get("dtor"):
                if not at.has(("U", h)):
                    at.report("%s|%s|unlock" % (f.name, h), "%s may leave without unlocking %s" % (f.name, h))
                continue
            held = [x for x in at.st.cl if x[0] == "L" and x[1] == h]
            if not held:
                at.report("%s|%s|locked" % (f.name, h), "%s may leave %s unlocked although it is open" % (f.name, h))
            elif f.cls == "write_lock" and not any(x[2] for x in held):
                at.report("%s|%s|exclusive" % (f.name, h), "%s takes only a shared lock on %s" % (f.name, h))

    def roots(f):
        if not here(f) or not f.blocks or f.cls not in ("bank_lock", "write_lock", "read_lock"):
            return False
        if f.d.get("ctor"):
            return "handles" in [v["n"] for v in f.vars] or any(f.vtype(p).get("s", "").find("bank_handles") >= 0 for p in f.d["params"])
        return bool(f.d.get("dtor")) and f.cls == "bank_lock"
    res = protocol.run(prog, locking, {"LockFileEx", "UnlockFileEx"}, here, roots=roots, on_exit=leave)
    protocol.judge(c, res, [("lock_calls", 1), ("unlock_calls", 1)])
    if not any(n.startswith("write_lock::write_lock") for n in res[2]):
        raise AnalysisBroken("P17: the constructor of write_lock was not found")


# --- position -------------------------------------------------------------------
def rule_position(prog, c):
    def h(at):
        own = at.arg(0)
        t = at.args[0]
        k = t[1][-1] if t[0] == "in" and "m_handle" in str(t[1][-1]) else repr(name_of(at, 0))
        nm = at.name.split("::")[-1]
        mine = "bank_lock.m_handle" in k or (own is not None and own["k"] == "Member" and own.get("cls") == "bank_lock")
        if nm in ("open_file", "make_removals_file"):
            return None
        if nm == "SetFilePointer":
            at.dropif(lambda x: x[0] == "pos" and x[1] == k)
            m = at.const(at.args[3])
            if m == FILE_END:
                at.add(("pos", k, "end"))
            elif m == FILE_BEGIN:
                z = at.const(at.args[1])
                at.add(("pos", k, "start" if z == 0 else "at"))
            return None
        at.count("file_changes")
        pos = [x[2] for x in at.st.cl if x[0] == "pos" and x[1] == k]
        local = own is not None and own["k"] == "Ref" and own.get("dk") == "v"
        who = at.f.name
        if not mine and not local:
            at.report("%s|%s|through" % (who, nm), "%s changes a history file other than through a lock it holds" % who)
        elif mine and "write_lock" not in at.root.name and at.f.cls != "write_lock":
            at.report("%s|%s|exclusive" % (who, nm), "%s changes a history file without holding a write_lock" % who)
        elif mine:
            if not pos:
                at.report("%s|%s|position" % (who, nm), "%s may change the file at a position another session's lock left" % who)
            elif nm == "SetEndOfFile" and pos[0] != "start":
                at.report("%s|%s|truncate" % (who, nm), "%s truncates the file elsewhere than at its start" % who)
            elif nm == "WriteFile":
                n = at.const(at.args[2])
                if pos[0] == "at" and n != 1:
                    at.report("%s|%s|overwrite" % (who, nm), "%s overwrites more than the first byte of a line" % who)
                elif pos[0] == "start":
                    at.report("%s|%s|start" % (who, nm), "%s writes over the start of the file" % who)
        else:
            # a file the function opened itself: only through make_removals_file, while the master bank is locked
            if nm == "SetEndOfFile" and not at.has(("wrote", k)) and not any(x[0] == "wrote" for x in at.st.cl):
                src = origin(at.f, own["d"])
                if src != "make_removals_file":
                    at.report("%s|%s|truncate" % (who, nm), "%s truncates a history file before writing its tag" % who)
        if nm == "WriteFile":
            at.add(("wrote", k))
        return None

    def origin(f, v):
        for x in f.nodes:
            if x and x["k"] == "DeclStmt":
                for d in x["ds"]:
                    if d["v"] == v and d["i"] >= 0:
                        y = f.strip(f.nodes[d["i"]])
                        if y["k"] == "Call":
                            return y.get("n")
        return None
    api = {"write_lock::" + x for x in ("clear", "add", "remove", "append")}
    res = protocol.run(prog, h, {"SetFilePointer", "WriteFile", "SetEndOfFile"}, here, boundary=lambda f: f.name in api or f.name.startswith("read_lock::") or f.cls == "history_db",
                       residual=lambda x: x[0] == "pos")
    protocol.judge(c, res, [("file_changes", 8)])


# --- order ----------------------------------------------------------------------
LOCKS = ("bank_lock", "read_lock", "write_lock")


def bank_of(f, a):
    """'master', 'session' or None (either) for the bank_handles expression a lock is constructed from."""
    a = f.strip(a)
    for _ in range(4):
        if a is None:
            return None
        if a["k"] == "Construct" and a.get("c"):
            a = f.strip(f.kid(a, 0))
            continue
        if a["k"] == "Call" and (a.get("n") or "").endswith("::get_bank"):
            v = f.strip(f.args(a)[0]).get("v")
            return {0: "master", 1: "session"}.get(v)
        if a["k"] == "Ref" and a.get("dk") == "v":
            got = None
            for x in f.nodes:
                if x and x["k"] == "DeclStmt":
                    for d in x["ds"]:
                        if d["v"] == a["d"] and d["i"] >= 0:
                            y = f.strip(f.nodes[d["i"]])
                            if y is not None and (y["k"] == "Call" or (y["k"] == "Construct" and y.get("c"))):
                                got = y
            if got is not None:
                a = got
                continue
            return "session"
        return None
    return None


def rule_order(prog, c):
    def h(at):
        n = at.n
        if n["k"] == "Dtor":
            l = at.args[0][1] if at.args[0][0] == "addr" else None
            at.dropif(lambda x: x[0] == "held" and x[1] == repr(l))
            return None
        if "::~" in at.name:
            # explicit destructor call, to construct another lock in its place
            at.dropif(lambda x: x[0] == "held" and not x[1].startswith("('v'"))
            return None
        if n["k"] != "Construct" or at.f.cls in LOCKS:
            return None
        a = at.f.args(n)
        if not a or "bank_handles" not in (at.f.ntype(at.f.strip(a[0])).get("s") or at.f.type(at.f.strip(a[0]).get("t", 0)).get("s") or ""):
            return None
        b = bank_of(at.f, a[0])
        at.count("locks_taken")
        if b != "session":
            for x in at.st.cl:
                if x[0] == "held" and x[2] != "master":
                    at.report("%s|order" % at.f.name, "%s locks the master bank while it holds a lock on a session bank" % at.f.name)
                elif x[0] == "held" and b == "master":
                    at.report("%s|twice" % at.f.name, "%s locks the master bank twice" % at.f.name)
        at.add(("held", repr(at.obj()), b or "any"))
        return None
    names = set()
    for l in LOCKS:
        names |= {"%s::%s" % (l, l), "%s::~%s" % (l, l)}
    res = protocol.run(prog, h, names, here)
    protocol.judge(c, res, [("locks_taken", 8)])


# --- tag ------------------------------------------------------------------------
def rule_tag(prog, c):
    def tagvar(at, node):
        """The concurrency_tag whose text an argument is."""
        node = at.f.strip(node)
        if node is not None and node["k"] == "Call" and (node.get("n") or "") == "concurrency_tag::get":
            return repr(at.fr.it.obj_loc(at.fr, at.st, node))
        return None

    def h(at):
        nm = at.name
        if nm == "concurrency_tag::generate_new_tag":
            at.add(("fresh", repr(at.obj())))
            return None
        if nm in ("concurrency_tag::clear", "concurrency_tag::set"):
            k = repr(at.obj())
            at.dropif(lambda x: x == ("fresh", k))
            return None
        if nm == "write_lock::clear":
            at.count("banks_emptied")
            at.add(("emptied",))
            return None
        if nm == "read_lock::line_iter::next" and at.has(("emptied",)) and at.root.short != "load_internal":
            at.report("%s|read" % at.f.name, "%s reads lines of a bank it has emptied" % at.f.name)
        if nm == "write_lock::add" and at.has(("emptied",)):
            k = tagvar(at, at.arg(0))
            if k is None or not at.has(("fresh", k)):
                at.report("%s|first line" % at.f.name, "%s: the first line written to an emptied bank is not a newly generated tag" % at.f.name)
            at.drop(("emptied",))
            at.add(("stale",))
            if k is not None and "m_master_ctag" in k:
                at.drop(("stale",))
            return None
        if nm == "make_removals_file":
            at.count("removals_files_tagged")
            if at.has(("stale",)):
                at.report("%s|removals tag" % at.f.name, "%s gives a removals file the tag the master bank had before it was rewritten" % at.f.name)
            return None
        if nm == "extract_ctag":
            t = at.argloc(1)
            if t is not None and any("m_master_ctag" in str(x) for x in t):
                at.drop(("stale",))
            return [(C(1), ()), (C(0), ())]
        return None

    def leave(at, t):
        f = at.f
        if at.has(("emptied",)):
            if at.memo("other bank"):
                return
            at.report("%s|no tag" % f.name, "%s may leave the master bank without a tag" % f.name)
        if at.has(("stale",)) and f.cls == "history_db":
            at.report("%s|stale tag" % f.name, "%s may leave the remembered tag different from the one it gave the master bank" % f.name)
    res = protocol.run(prog, h, {"concurrency_tag::generate_new_tag", "concurrency_tag::clear", "concurrency_tag::set", "write_lock::clear", "write_lock::add", "extract_ctag", "make_removals_file", "read_lock::line_iter::next"}, here, budget=1000000, on_exit=leave, memos={"other bank": other_bank}, residual=lambda x: x[0] in ("emptied", "stale"))
    protocol.judge(c, res, [("banks_emptied", 3), ("removals_files_tagged", 2)])


# --- guard ----------------------------------------------------------------------
def rule_guard(prog, c):
    def no_guard(at):
        p = at.param(1) if at.root.name == "history_db::remove_internal" else None
        return True if p is not None and at.truth(p) is False else None

    def h(at):
        nm = at.name
        if nm == "extract_ctag":
            return [(C(1), [("tag", repr(at.argloc(1)))]), (C(0), ())]
        if nm in ("strcmp", "stricmp", "_stricmp"):
            ks = []
            for i in (0, 1):
                a = at.arg(i)
                if a is not None and a["k"] == "Call" and a.get("n") == "concurrency_tag::get":
                    ks.append(repr(at.fr.it.obj_loc(at.fr, at.st, a)))
            if len(ks) == 2 and any(("tag", k) in at.st.cl for k in ks) and any("m_master_ctag" in k for k in ks):
                return [(C(0), [("same",)]), (C(1), ()), (C(-1), ())]
            return None
        if nm == "write_lock::remove":
            at.count("removals")
            if at.has(("same",)) or at.root.has("lambda"):
                return None
            # the id's bank is not the master's, or the caller vouches for the id
            if at.memo("no guard") or at.memo("other bank"):
                return None
            at.report("%s|guard" % at.f.name, "%s removes a line by an id that may belong to an earlier layout of the master bank" % at.f.name)
        return None
    res = protocol.run(prog, h, {"extract_ctag", "strcmp", "stricmp", "_stricmp", "write_lock::remove"}, here, residual=lambda x: x[0] == "same", memos={"other bank": other_bank, "no guard": no_guard})
    protocol.judge(c, res, [("removals", 3)])
    # whoever removes without the guard
    for f in prog.funcs.values():
        for n in f.calls({"history_db::remove_internal"}):
            c.count("removal_requests")
            v = f.strip(f.args(n)[1]).get("v")
            if v != 1:
                c.violation("%s|unguarded" % f.name, f.file, n["l"], "%s removes a history line without checking the tag" % f.name)
    c.need("removal_requests", 1)


# --- reap -----------------------------------------------------------------------
def rule_reap(prog, c):
    type_file = None
    for f in prog.funcs.values():
        for x in f.nodes if type_file is None else ():
            if x and x["k"] == "Ref" and x.get("dk") == "ec" and x.get("n", "").endswith("path_type_file"):
                type_file = x["v"]
    if type_file is None:
        raise AnalysisBroken("P17: the value of os::path_type_file was not found")

    def h(at):
        nm = at.name
        if nm == "write_lock::append":
            at.add(("appended",))
            if not at.has(("open",)):
                at.report("%s|append" % at.f.name, "%s appends from a session file it has not opened" % at.f.name)
        elif nm == "read_lock::apply_removals":
            if not at.has(("appended",)):
                pass
            at.add(("applied",))
        elif nm == "open_file":
            at.add(("open",))
        elif nm == "bank_handles::close":
            at.drop(("open",))
        elif nm == "os::get_path_type":
            return [(C(type_file), [("alive file",)]), (C(0), ())] if at.has(("suffix",)) else None
        elif nm == "os::get_file_size":
            return [(C(0), [("empty", at.f.text(at.arg(0))[:40])]), (C(1), ())]
        elif nm == "os::unlink":
            at.count("deletions")
            if at.has(("suffix",)):
                return [(C(1), [("alive deleted",)]), (C(0), [("alive kept",)])]
            if at.has(("alive file",)) and not at.has(("alive deleted",)):
                at.report("%s|alive" % at.f.name, "%s deletes the files of a session that is still alive" % at.f.name)
            if at.memo("local") or at.memo("private"):
                return None
            if len([x for x in at.st.cl if x[0] == "empty"]) >= 2 and not at.has(("open",)):
                return None
            if not at.has(("appended",), ("applied",)):
                at.report("%s|merge" % at.f.name, "%s may delete a session's history without merging it into the master history" % at.f.name)
        return None

    def local(at):
        p = at.param(1)
        ps = at.root.d["params"]
        return True if p is not None and at.root.vtype(ps[1])["k"] == "bool" and at.truth(p) is True else None

    def private(at):
        m = [t for t, r in at.known(lambda t: t[0] == "in" and str(t[1][-1]).endswith("m_use_master_bank")) if r[0] == 0 and r[1] == 0]
        return True if m else None

    def h2(at):
        # str_base::operator<< and truncate on the lambda's path parameter
        nm = at.name.split("::")[-1]
        if nm in ("operator<<", "concat"):
            for i in (0, 1):
                a = at.arg(i) if i < len(at.f.args(at.n)) else None
                if a is not None and a["k"] == "Str":
                    if a["s"] == "~":
                        at.add(("suffix",))
                    elif a["s"] == ".removals":
                        pass
            return None
        if nm == "truncate":
            at.drop(("suffix",))
            return None
        return h(at)
    names = {"write_lock::append", "read_lock::apply_removals", "open_file", "bank_handles::close", "os::get_path_type", "os::get_file_size", "os::unlink", "operator<<", "concat", "truncate"}
    res = protocol.run(prog, h2, names, here, memos={"local": local, "private": private}, residual=lambda x: x[0] in ("appended", "applied", "open") or x[0].startswith("alive"))
    protocol.judge(c, res, [("deletions", 3)])


# --- direct ---------------------------------------------------------------------
def rule_direct(prog, c):
    rem = prog.fcomp("bank_handles", "m_handle_removals")

    def h(at):
        if at.name == "write_lock::write_lock":
            a = at.argloc(0)
            if a is not None and at.f.args(at.n) and at.truth(("cmp", "==", at.fr.it.read(at.st, a + (rem,)), C(0))) is True:
                at.add(("direct", repr(at.obj())))
            return None
        at.count("removals_applied")
        if not at.has(("direct", repr(at.argloc(0)))):
            at.report("%s|direct" % at.f.name, "%s applies removals through a lock that redirects them to a removals file" % at.f.name)
        return None
    res = protocol.run(prog, h, {"write_lock::write_lock", "read_lock::apply_removals"}, here, residual=lambda x: False)
    protocol.judge(c, res, [("removals_applied", 1)])


# --- close ----------------------------------------------------------------------
def rule_close(prog, c):
    h_lines = prog.fcomp("bank_handles", "m_handle_lines")

    def h(at):
        nm = at.name
        if nm == "CloseHandle":
            t = at.args[0]
            if t[0] == "in" and str(t[1][-1]).endswith("m_alive_file"):
                at.add(("given up",))
        elif nm == "bank_handles::close":
            l = at.obj()
            if l is not None and "m_bank_handles" in repr(l):
                k = l[-1]
                at.add(("closed", k))
        elif nm == "history_db::reap":
            at.count("merges_on_exit")
            if not at.has(("given up",)) and at.memo("not alive") is not True:
                at.report("%s|alive" % at.f.name, "%s merges while its own alive file still exists" % at.f.name)
            if at.has(("closed", "[0]")):
                at.report("%s|master" % at.f.name, "%s merges after closing the master bank" % at.f.name)
            if not at.has(("closed", "[1]")):
                at.report("%s|session" % at.f.name, "%s merges while the session bank is still open" % at.f.name)
            at.add(("merged",))
        return None

    def not_alive(at):
        return True if any(r[0] == 0 == r[1] for t, r in at.known(lambda t: t[0] == "in" and str(t[1][-1]).endswith("m_alive_file"))) else None

    def leave(at, t):
        if not at.has(("merged",)):
            at.report("%s|merged" % at.f.name, "%s may leave without merging the session into the master history" % at.f.name)
    res = protocol.run(prog, h, {"CloseHandle", "bank_handles::close", "history_db::reap"}, lambda f: here(f) and f.cls == "history_db" and f.short not in ("compact", "initialise", "reap"), roots=lambda f: f.name == "history_db::~history_db",
                       memos={"not alive": not_alive}, on_exit=leave)
    protocol.judge(c, res, [("merges_on_exit", 1)])
    # the file that shows other sessions this one is alive
    for f in prog.funcs.values():
        if not here(f):
            continue
        for x in f.nodes:
            if x and x["k"] == "Asg" and f.path(f.kid(x, 0)) and "m_alive_file" in repr(f.path(f.kid(x, 0))):
                y = f.strip(f.kid(x, 1))
                if y is not None and y["k"] == "Call" and (y.get("n") or "").startswith("CreateFile"):
                    c.count("alive_files")
                    a = f.args(y)
                    share = f.strip(a[2]).get("v")
                    flags = const_value(f, a[5])
                    if share != 0:
                        c.violation("%s|alive share" % f.name, f.file, y["l"], "%s lets other sessions delete the file that shows this one is alive" % f.name)
                    if flags is not None and not flags & 0x04000000:
                        c.violation("%s|alive delete" % f.name, f.file, y["l"], "%s creates an alive file that outlives the session" % f.name)
    c.need("alive_files", 1)


def const_value(f, n):
    n = f.strip(n)
    if n is None:
        return None
    if n.get("v") is not None:
        return n["v"]
    if n["k"] == "Ref" and n.get("dk") == "v":
        for x in f.nodes:
            if x and x["k"] == "DeclStmt":
                for d in x["ds"]:
                    if d["v"] == n["d"] and d["i"] >= 0:
                        return f.nodes[d["i"]].get("v", (f.strip(f.nodes[d["i"]]) or {}).get("v"))
    return None


def history():
    c = Check("P17", "history files: exclusive locks for writers, positions set under the lock, master locked before session, tag first and remembered, removals guarded by the tag, sessions merged before their files are deleted")
    prog = ir.load()
    for r in (rule_exclusive, rule_position, rule_order, rule_tag, rule_guard, rule_reap, rule_direct, rule_close):
        r(prog, c)
    return c
