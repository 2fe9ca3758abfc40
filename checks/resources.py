"""P01 / P02: path-sensitive ownership of operating system resources and heap blocks."""
import allockind
import ir
import restrack
from check import Check

# (function, API) -> why the reported construct is not a violation of the property
OS_EXCEPT = {
    ("loader_main_impl", "CommandLineToArgvW"): "argument vector lives until the process exits",
    ("testbed_hook_loop", "LocalAlloc"): "the hooked ReadConsole loop of the interactive testbed runs until the process exits",
    ("handle::close", "CloseHandle"): "draw_test diagnostic tool: close() is called only by the destructor and by operator=, which overwrites the value",
    ("vm::free_region", "base"): "a process that could not be opened has no region to free",
    ("pipe_pair::init", "local"): "init() is called once, straight after construction, and releases only what it just made",
    ("pipe_pair::init", "remote"): "init() is called once, straight after construction, and releases only what it just made",
    ("recognizer::~recognizer", "CreateEventA stored in recognizer.m_event"): "static singleton; shutdown() closes the event and is run on every shutdown path (asserted by the destructor)",
}
HEAP_EXCEPT = {
    ("str_impl<char>::free_data", "free"): "private helper; every caller overwrites or abandons m_data straight away",
    ("str_impl<wchar_t>::free_data", "free"): "private helper; every caller overwrites or abandons m_data straight away",
}
# blocks that live on without anybody this analysis can name
LEAK_EXCEPT = {
    ("loader_main_impl", "calloc"): "argument vector lives until the process exits",
    ("loader_main_impl", "malloc"): "argument vector lives until the process exits",
    ("loader_main_thunk", "calloc"): "argument vector lives until the process exits",
    ("loader_main_thunk", "malloc"): "argument vector lives until the process exits",
    ("init_column_info", "malloc"): "parcelled out to the rows that are new, of which there is at least one",
    ("match_adapter::filter_matches", "_rl_savestring"): "first element of the match list, which _rl_free_match_list frees",
    ("display_matches", "_rl_savestring"): "first element of the match list, which _rl_free_match_list frees",
    ("alternative_matches", "malloc"): "stored in the match list that is returned",
    ("collect_keymap", "_rl_untranslate_macro_value"): "stored in the entry of the list that is returned",
    ("collect_keymap", "translate_keyseq"): "stored in the entry of the list that is returned",
    ("testbed", "New"): "terminal of a diagnostic verb: lives until the process exits",
    ("collect_functions", "calloc"): "stored in the entry of the list that is returned",
    ("collect_functions", "xmalloc"): "stored in the entry of the list that is returned",
    ("save_restore_initial_state", "xmalloc"): "stored through the entry of a static table",
    ("initialise_clink", "New"): "app_context: a singleton registered by its constructor, lives as long as the DLL",
    ("dispatch_verb", "New"): "app_context: a singleton registered by its constructor, lives as long as the process",
    ("inject", "New"): "file_logger: a singleton registered by its constructor, lives as long as the process",
    ("interpreter", "New"): "file_logger: a singleton registered by its constructor, lives as long as the process",
    ("update", "New"): "terminal and file_logger of a command verb: live until the process exits",
    ("config", "New"): "terminal of a command verb: lives until the process exits",
    ("set", "New"): "terminal of a command verb: lives until the process exits",
    ("editline", "New"): "terminal of a command verb: lives until the process exits",
    ("runner::ecma48_test", "New"): "terminal of a diagnostic verb: lives until the process exits",
    ("app_context::start_logger", "New"): "file_logger: a singleton registered by its constructor",
    ("command_line_states::get_linestate", "New"): "made once, kept by the function's static result",
    ("command_line_states::get_linestates", "New"): "made once, kept by the function's static result",
}
# destructors whose owning field is released by something else than that destructor
OWNER_EXCEPT = {
    ("str_impl", ".m_data"): "released by the derived classes' destructors, which know whether the buffer is inline",
    ("str_stream", ".m_end"): "interior pointer into m_start's block",
    ("tagged_prompt", ".m_data"): "released by the base class destructor",
    ("test_editor", "*"): "loader diagnostic; explicit start()/end() protocol",
    ("history_scope", ".m_history"): "owned only when history_scope created it; correlation between two fields",
    ("auto_closure", ".m_head"): "linked list: the loop deletes nodes by their next pointers",
    ("word_collector", ".m_word_tokeniser"): "ownership depends on m_delete_word_tokeniser",
}


# fields that a method fills without first releasing what they held, and why they hold nothing then
FILL_EXCEPT = {
    ("errfile_reader", ".m_file"): "open() is called once per reader (asserted)",
    ("pipe_pair", ".local"): "init() is called once, straight after construction; transfer_local() hands the value to the caller's out parameters",
    ("pipe_pair", ".remote"): "init() is called once, straight after construction",
    ("popen_buffering", ".m_stat_event"): "createthread() is called once, straight after construction",
    ("popen_buffering", ".m_process_handle"): "go() is called once",
    ("yield_thread", ".m_ready_event"): "createthread() is called once, straight after construction",
    ("yield_thread", ".m_thread_handle"): "createthread() is called once, straight after construction",
    ("command_link_dialog", ".m_hfont_bold"): "WM_INITDIALOG is sent once per dialog",
    ("command_link_dialog", ".m_hfont_normal"): "WM_INITDIALOG is sent once per dialog",
    ("history_infos", ".m_history"): "make() is called once per object",
    ("history_infos", ".m_infos"): "make() is called once per object",
    ("httprequest_async_lua_task", ".m_result_buffer"): "do_work() runs once per task (asserted)",
    ("str_impl", ".m_data"): "free_data() releases it if owned; ownership depends on m_owns_ptr",
    ("str_stream", ".m_end"): "interior pointer into m_start's block",
    ("tagged_prompt", ".m_data"): "tag() calls clear(), which the base class defines",
    ("matches_impl", ".m_dedup"): "the destination of transfer() is not being built: done_building() has released it",
    ("test_editor", "*"): "loader diagnostic; explicit start()/end() protocol",
}


def _run(pid, rule, kinds, pick, exc):
    c = Check(pid, rule)
    prog = ir.load()
    fs, st = restrack.run(prog, kinds)
    c.cov["functions_analysed"] = st["functions"]
    c.cov["acquire_sites"] = len(st["acquire_sites"])
    c.cov["release_sites"] = len(st["release_sites"])
    c.cov["owner_fields_with_destructor"] = sum(1 for o in st["owners"] if o[5])
    c.cov["destructors_checked"] = st["destructors"]
    c.cov["analysis_budget_exceeded_in"] = st["incomplete"]
    c.need("acquire_sites", 40)
    c.need("release_sites", 40)
    c.need("functions_analysed", 60)
    c.cov["methods_overwriting_owner_fields"] = st["overwriters"]
    used = set()
    for k, v in sorted(fs.items()):
        if not pick(v):
            continue
        e = (v["func"], v["origin"][2])
        if e in exc:
            used.add("%s/%s: %s" % (e + (exc[e],)))
            continue
        if "stored in" in v["origin"][2]:
            cls, _, fld = v["origin"][2].split("stored in ")[1].partition(".")
            w = OWNER_EXCEPT.get((cls, "." + fld)) or OWNER_EXCEPT.get((cls, "*"))
            if w:
                used.add("%s.%s: %s" % (cls, fld, w))
                continue
        if v["origin"][2].endswith(restrack.HELD):
            cls, _, fld = v["origin"][2][:-len(restrack.HELD)].split("held by ")[1].partition(".")
            w = FILL_EXCEPT.get((cls, "." + fld)) or FILL_EXCEPT.get((cls, "*"))
            if w:
                used.add("%s.%s: %s" % (cls, fld, w))
                continue
        if v["func"] == "test_editor::end" or v["func"] == "show_key_bindings" and v["what"] == "double-release":
            used.add("%s %s: array elements compacted in place / diagnostic tool" % (v["func"], v["what"]))
            continue
        c.violation("%s|%s|%s|%s" % (v["what"], v["kind"], v["func"], v["origin"][2]), v["where"], v["line"],
                    "%s of %s obtained at %s:%s (%s) in %s: %s" % ((v["what"], v["kind"]) + v["origin"][:2] + (v["origin"][2], v["func"], v["msg"])),
                    ["line %s" % x for x in v["path"]] + ["inlined: %s" % s for s in v["stack"][1:]])
    for o in st["owners"]:
        if not o[5]:
            c.violation("no-destructor|%s%s" % (o[0], o[1]), o[3][0], o[3][1], "%s%s holds a %s (obtained by %s) but its class has no destructor to release it"
                        % (o[0], o[1], o[2], o[3][2]))
    c.cov["exceptions_applied"] = used
    c.assumptions = ["API ownership table (acquire, release, failure value) is that of the documented Win32/CRT contracts",
                     "at most 4 levels of helper calls are followed; deeper transfers are treated as escaping"]
    return c


def p01():
    return _run("P01", "interprocedural path-sensitive typestate: every acquire reaches exactly one matching release, an owner whose destructor releases it, or the caller, on every feasible path",
                restrack.OSKINDS, lambda v: True, OS_EXCEPT)


def p02():
    c = _run("P02", "interprocedural path-sensitive typestate on heap blocks: no block is released twice, used after release, released by the wrong deallocator, dropped by the function that alone refers to it or by the destructor of the object that owns it; allocator of every released expression inferred by flow-insensitive propagation",
             restrack.HEAPKINDS, lambda v: True, {**HEAP_EXCEPT, **LEAK_EXCEPT})
    prog = ir.load()
    k = allockind.Kinds(prog, lambda f: f.file.startswith("clink/") and not f.file.startswith("clink/test/"))
    c.cov["allocation_flows"] = k.allocs
    c.cov["release_expressions"] = len(k.frees)
    c.cov["release_expressions_with_known_allocator"] = sum(1 for x in k.frees if k.of(x[4]))
    c.need("release_expressions_with_known_allocator", 60)
    for f, n, op, what, msg in allockind.mismatches(k):
        c.violation("mismatch|%s|%s|%s" % (f.name, op, what), f.file, n["l"], "%s: %s" % (f.name, msg))
    return c
