"""P09: operations that must be undone are undone on every path."""
import ir, pairs
from pairs import Op
from check import Check


def _pause(fr, n, args):
    if not args or args[0][0] != "c":
        return Op("target process paused", 1)
    return Op("target process paused", 1 if args[0][1] else -1)


U = "edit undo group"
OPS = {
    "line_buffer::begin_undo_group": Op(U, 1), "line_buffer::end_undo_group": Op(U, -1),
    "rl_buffer::begin_undo_group": Op(U, 1), "rl_buffer::end_undo_group": Op(U, -1),
    "rl_begin_undo_group": Op(U, 1), "rl_end_undo_group": Op(U, -1),
    "OpenClipboard": Op("clipboard open", 1, "bool"), "CloseClipboard": Op("clipboard open", -1),
    "GlobalLock": Op("global memory locked", 1, None, 0), "GlobalUnlock": Op("global memory locked", -1, None, 0),
    "CoInitialize": Op("COM initialised", 1, "hresult"), "CoInitializeEx": Op("COM initialised", 1, "hresult"),
    "CoUninitialize": Op("COM initialised", -1),
    "GetDC": Op("device context held", 1), "ReleaseDC": Op("device context held", -1),
    "EnterCriticalSection": Op("critical section held", 1, None, 0), "LeaveCriticalSection": Op("critical section held", -1, None, 0),
    "DetourTransactionBegin": Op("detour transaction open", 1, "err"), "DetourTransactionCommit": Op("detour transaction open", -1),
    "DetourTransactionAbort": Op("detour transaction open", -1),
    "terminal_in::begin": Op("terminal input mode changed", 1), "terminal_in::end": Op("terminal input mode changed", -1),
    "process::pause": _pause, "process::unpause": Op("target process paused", -1),
    "save_history_expansion_state": Op("history expansion state saved", 1), "restore_history_expansion_state": Op("history expansion state saved", -1),
    "rl_set_signals": Op("signal handlers set", 1), "rl_clear_signals": Op("signal handlers set", -1),
}
# (class, kind): the class keeps track of an operation that spans several calls from outside
CLASS_EXC = {
    ("rl_buffer_lua", U): "a script may begin a group and return; the object counts them and its destructor ends the rest",
    ("line_editor_impl", "terminal input mode changed"): "begin_line/end_line span an edited line; the editing flag pairs them and the destructor ends the line",
}
# (function, kind): an event callback that is called before and after
FUNC_EXC = {
    ("cua_selection_event_hook", U): "the before event begins the group and sets s_cleanup, which makes the after event end it",
}


def balanced():
    c = Check("P09", "every begin-like operation has its end on every path of the function that began it, through helpers and scope objects")
    prog = ir.load()
    res, wr, sites, bad = pairs.run(prog, OPS, exempt=lambda f: any(x == f.cls for x, _ in CLASS_EXC) or any(x == f.name for x, _ in FUNC_EXC))
    callers = prog.callers()
    c.count("functions", len(res))
    c.count("operation_sites", len(sites))
    kinds = set()
    unb = {}
    for u, ex in res.items():
        f = prog.funcs[u]
        if f.name in OPS:
            continue
        if any(net for net, _ in ex):
            unb[u] = ex
    for u, ex in sorted(unb.items()):
        f = prog.funcs[u]
        for kind in sorted({k[0] for net, _ in ex for k, _ in net}):
            if (f.cls, kind) in CLASS_EXC or (f.name, kind) in FUNC_EXC:
                c.count("class_spanning")
                continue
            nets = {}
            for (net, r), tr in ex.items():
                v = sum(d for k, d in net if k[0] == kind)
                nets.setdefault(r, {})[v] = tr
            allv = {v for m in nets.values() for v in m}
            if allv == {0}:
                # begun and ended on different objects
                c.violation("%s %s mismatch" % (f.name, kind), f.file, f.line, "%s: %s is ended for something else than it was begun for" % (f.name, kind))
                continue
            up = [x for x in callers.get(u, ()) if x in res or not f.cls]
            mixed = any(len(m) > 1 for m in nets.values()) or ("?" in nets and len(allv) > 1)
            if f.cls and up and not (mixed and both_directions(f, kind)):
                c.count("scope_members")       # judged in the functions that use the object
                continue
            if up and not (mixed and both_directions(f, kind)) and not any(x in bad for x in up):
                c.count("helpers")             # its effect is judged in its callers
                continue
            v = max(allv, key=abs)
            path = next(m[v] for m in nets.values() if v in m)
            c.violation("%s %s" % (f.name, kind), f.file, f.line,
                        "%s leaves %s %s on a path" % (f.name, kind, "without ending it" if v > 0 else "ended without having begun it"), path)
    for u in bad:
        c.count("incomplete")
    c.need("functions", 15)
    c.need("operation_sites", 20)
    return c


def both_directions(f, kind):
    """Does the function itself begin and end, so that it has to balance?"""
    ds = set()
    for n in f.calls(set(OPS)):
        op = OPS[n["n"]]
        if callable(op):
            a = f.args(n)
            ds.add(-1 if a and a[0] is not None and a[0].get("v") == 0 else 1)
        elif op.kind == kind:
            ds.add(1 if op.delta > 0 else -1)
    return len(ds) == 2
