"""P10: scoped overrides end with the scope."""
import collections
import ir, restore
from check import Check

# variable -> (files in which every change is for the duration of an operation (None: everywhere), values that mean "at rest")
L, R, S = "clink/lib/src/", "clink/lib/src/rl/", "clink/"
SCOPED = {
    "line_editor_impl::m_in_matches_ready": (None, (0,)), "line_editor_impl::m_in_maybe_send_oncommand_event": (None, (0,)),
    "line_editor_impl::m_in_try_suggest": (None, (0,)), "line_editor_impl::m_pending_binding": (None, (0,)),
    "standalone_input::m_pending_binding": (None, (0,)), "line_editor_impl::m_dispatching": (None, (0,)),
    "standalone_input::m_dispatching": (None, (0,)),
    "_rl_caught_signal": ((L + "textlist_impl.cpp",), ()), "_rl_completion_prefix_display_length": ((L + "selectcomplete_impl.cpp",), ()),
    "_rl_emacs_mode_str": ((R,), ()), "_rl_emacs_modestr_len": ((R,), ()), "_rl_vi_ins_mode_str": ((R,), ()), "_rl_vi_ins_modestr_len": ((R,), ()),
    "_rl_vi_cmd_mode_str": ((R,), ()), "_rl_vi_cmd_modestr_len": ((R,), ()), "_rl_mark_modified_lines": ((R,), ()),
    "_rl_load_user_init_file": ((R,), ()), "g_display_manager_no_comment_row": ((R,), ()),
    "g_filtering_in_progress": (None, (0,)), "g_loaded_settings": (None, ()), "g_printer": (None, ()),
    "g_suggestion_includes_hint": (None, (0,)), "g_suggestion_offset": (None, (-1,)),
    "lua_state::s_in_luafunc": (None, (0,)), "lua_state::s_in_onfiltermatches": (None, (0,)),
    "prompt_filter::s_filtering": (None, (0,)), "prompt_filter::s_transient_filtering": (None, (0,)),
    "rl_arg_sign": ((R,), ()), "rl_explicit_arg": ((R,), ()), "rl_numeric_arg": ((R,), ()),
    "rl_completion_type": ((L + "line_editor_impl.cpp",), ()), "rl_end": ((R + "rl_module.cpp", L + "line_editor_impl.cpp"), ()),
    "rl_line_buffer": ((R + "rl_module.cpp",), ()), "rl_line_buffer_len": ((R + "rl_module.cpp",), ()),
    "rl_redisplay_function": ((R,), ()), "s_input_more": (None, ()), "s_sending_terminal_request": (None, (0,)), "s_force_raw_esc": (None, (0,)),
    "s_transient_prompt_context": (None, (0,)), "hook_display::s_busy": (None, (0,)), "s_puts_face": (None, (0,)),
    "_rl_last_c_pos": ((L + "selectcomplete_impl.cpp",), ()),
}
# (function, variable): changes it for good, on purpose
PERSIST = {
    ("get_loaded_map", "g_loaded_settings"): "creates the map on first use",
    ("lua_state::restore_global_states", "lua_state::s_in_luafunc"): "puts back the states the coroutine was suspended with",
    ("lua_state::restore_global_states", "lua_state::s_in_onfiltermatches"): "puts back the states the coroutine was suspended with",
    ("glob_complete_word", "rl_explicit_arg"): "Readline command that turns the completion it delegates to into glob completion",
    ("init_readline_hooks", "rl_redisplay_function"): "installs Clink's display function at start",
}


def restored():
    c = Check("P10", "a variable overridden for the duration of an operation holds its earlier (or resting) value at every exit of the function that overrode it")
    prog = ir.load()
    decl = {}            # watched key -> name in the table
    for nm in SCOPED:
        cls, _, m = nm.rpartition("::")
        if cls in prog.records and m in prog.records[cls].fields:
            decl[("f", prog.fcomp(cls, m))] = nm
        else:
            decl[("g", nm)] = nm
    resting = {w: SCOPED[nm][1] for w, nm in decl.items()}

    def watch(f):
        return frozenset(w for w, nm in decl.items() if SCOPED[nm][0] is None or f.file.startswith(SCOPED[nm][0]))

    todo, written, used, direct = set(), {}, {}, collections.Counter()
    for f in prog.funcs.values():
        if not f.file.startswith("clink/") or f.cls == "rollback":
            continue
        ws = None
        for n in f.nodes:
            if not n:
                continue
            t = None
            if n["k"] == "Asg" or n["k"] == "Un" and n["op"] in ("++", "--"):
                t = f.kid(n, 0)
            elif n["k"] == "Construct" and n.get("cls") == "rollback" and f.args(n):
                t = f.args(n)[0]
            elif n["k"] in ("Ref", "Member"):
                w = wname(prog, f, n)
                if w in decl:
                    used.setdefault(decl[w], set()).add(f.name)
                continue
            t = f.strip(t) if t else None
            w = wname(prog, f, t) if t else None
            if w in decl:
                if ws is None:
                    ws = watch(f)
                if w in ws:
                    todo.add(f.usr)
                    direct[(f.usr, w)] += 2 if n["k"] == "Construct" else 1
                    written.setdefault(decl[w], set()).add(f.name)
    res, helpers, writes, bad = restore.run(prog, todo, watch, resting,
                                             exempt=lambda f, w: (f.name, decl[w]) in PERSIST or f.has("ctor") and scope_class(prog, f.cls))
    callers = prog.callers()
    for u, ex in sorted(res.items()):
        f = prog.funcs[u]
        for w, path in sorted(ex.items(), key=str):
            nm = decl[w]
            if (f.name, nm) in PERSIST:
                c.count("persistent_by_design")
                continue
            if f.has("ctor") and scope_class(prog, f.cls):
                c.count("scope_objects")
                continue
            up = [x for x in callers.get(u, ()) if x in res and w in watch(prog.funcs[x])]
            if up and direct[(u, w)] < 2:
                c.count("helpers")       # judged in the callers, where it is followed
                continue
            c.violation("%s %s" % (f.name, nm), f.file, f.line, "%s can return with %s still overridden" % (f.name, nm), path)
    # a guard that is tested but never set guards nothing
    for nm, (fs, rest) in sorted(SCOPED.items()):
        if nm in used and rest and nm not in written:
            c.violation("unset %s" % nm, "clink", 0, "%s is consulted by %s but no longer set by anything" % (nm, sorted(used[nm])[0]))
    c.cov["functions"] = len(res)
    c.cov["writes"] = len(writes)
    c.cov["variables"] = sorted(written)
    c.cov["incomplete"] = sorted(prog.funcs[u].name for u in bad)
    c.need("functions", 20)
    c.need("variables", 25)
    return c


def scope_class(prog, cls):
    """A class that puts the variable back when it is destroyed: it owns a rollback, or its destructor restores."""
    r = prog.records.get(cls)
    return r is not None and any("rollback<" in (r.ftype(x).get("s") or "") for x in r.fields)


def wname(prog, f, t):
    if t["k"] in ("Ref", "Member") and t.get("dk") == "g":
        return ("g", t["n"])
    if t["k"] == "Member" and t.get("dk") != "fn":
        return ("f", prog.fcomp(t.get("cls"), t["m"]))
    if t["k"] == "Ref" and t.get("dk") == "v" and f.vars[t["d"]].get("st"):
        return ("g", f.name + "::" + f.vars[t["d"]]["n"])
    return None
