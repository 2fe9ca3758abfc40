"""Per-property section of DESIGN.md."""
SEC = {}
def sec(p, how, oracle, limits): SEC[p] = (how, oracle, limits)

sec("P01", "Ownership typestate on the path-sensitive engine. A table gives for ~90 Win32/CRT calls what they acquire, where (result, out parameter, field of an out structure) and the value that means failure, and what each release call releases. Tokens are followed through locals, helpers (wrappers are discovered and inlined at their callers, up to 4 deep; APIs reached through function pointers or load-on-demand classes are recognised by the member name; a helper that releases what its caller, object or module owns must do so on every path where the value may be valid), out parameters and fields. At every exit a live token must have been released, returned, stored in an owner or given to a callee that keeps it. Fields (and constructor parameters stored in fields) that receive a token become owner fields: the destructor is then analysed with the field holding a live token, and every method that overwrites the field likewise.",
    "the documented contracts of the APIs (the table in lib/restrack.py)",
    "The elements of arrays of handles are not told apart. Objects only reachable from globals live until the process ends and are not tracked; ownership handed on through heap structures is trusted after the escape.")
sec("P02", "The same typestate with heap blocks (malloc family, new, new[]): double release, use or return after release, wrong deallocator, a field still holding a released block at exit, an owner field not released by the destructor or overwritten while it owns, a local block that no exit path frees or hands on. Functions that always return a fresh block (or handle) are summarised and act as allocators at their callers. In addition lib/allockind.py propagates, flow-insensitively over every assignment, argument, return, container element and initialiser, which allocators a released expression can come from; a release by another allocator is reported, as is free() of a class with a destructor.",
    "C/C++ rules for matching allocation and release",
    "Blocks kept in elements of arrays are not followed one by one; 26 named local allocations that live as long as the process or end up in a returned list are excepted by function, each with its reason. Blocks from allocators behind unknown external calls are not judged by the mismatch rule (30 of 175 release expressions).")
sec("P03", "Every call of a printf-style function (C library names, plus Clink's own formatters found by their signature and the functions forwarding to them) is listed; the format is resolved to constants through conditionals, globals and parameters (to all callers); each conversion is parsed and compared with the type of the argument, including size and wide/narrow text. lua_pushfstring/luaL_error use their own restricted set.",
    "C11 7.21.6.1, the mingw/UCRT dialect, Lua 5.2 manual", "")
sec("P04", "Abstract interpretation of the Lua stack height (entry height symbolic) with a model of every lua_*/luaL_* call and of scope objects such as save_stack_top. A function must end at its entry height plus one fixed shift per distinguishable outcome (result constant, argument constant); the shift summary is then used at its callers, which must compensate.",
    "Lua 5.2 reference manual stack effects", "Three functions whose shift depends on data are excepted by name; functions reached only through Lua C functions are P05's.")
sec("P05", "Same analysis from the entry of each registered Lua C function: at every return the number of values above the entry is at least the returned count; no pop below the entry height; pushes inside loops must be matched or stored.",
    "Lua 5.2 manual", "")
sec("P06", "All resolved calls of functions whose name ends in A and that take narrow text, of narrow CRT file functions and of conversions: text arguments must be constants (parameters followed to all callers, locals to all their values), code pages CP_UTF8, and the static initialiser that selects the UTF-8 locale must exist in every binary.",
    "MSDN naming of ANSI functions", "")
sec("P07", "Interval analysis with relational facts for lengths: every index of an array of known size, and every (buffer, capacity) argument pair found from the callee's signature or model, must be within bounds for all values.",
    "declared array sizes", "16 named sites depend on invariants outside the domain, each listed with its reason.")
sec("P08", "Interval analysis of every divisor and shift count; type and interval analysis of every argument of is*/to* classification functions.",
    "C/C++ undefined behaviour rules", "")
sec("P09", "Begin/end counters on the path-sensitive engine, per operation, through helpers and scope objects (destructors); conditional begins are resolved by the tested result.",
    "table of pairs in checks/pairs_check.py", "")
sec("P10", "For each scoped variable (table), the value at every exit must be the entry value or a resting value; save/restore through locals, rollback objects and helpers is followed. A guard variable that is consulted must be set on the path that performs the guarded call.",
    "table of scoped variables in checks/restore_check.py", "")
sec("P11", "Path-sensitive nullness: results of library functions that may fail and of Clink functions that contain a `return nullptr` must be tested before dereference, pointer arithmetic, or being passed to a callee that dereferences its parameter untested (summaries).",
    "library contracts and callee summaries", "Memory exhaustion and violated preconditions are excepted by name.")
sec("P12", "Doc comments are parsed and compared with the registration tables (luaL_Reg, method tables, deprecations), the implementation they precede, the argument indices it reads and the number of results on each return (from the P05 analysis).",
    "the documentation itself", "Types and meaning of values are not compared.")
sec("P13", "Lua scripts are parsed and resolved: every global, method and API name used must be defined in native tables or scripts; every name native code pushes/calls must be defined with compatible arity; events are matched between senders and registrars; assignments to undeclared globals are reported.",
    "definitions in the tree", "")
sec("P14", "For each command: option string, option table, switch over the option character and usage text are extracted and compared.",
    "the usage text", "One known finding, see section 4.")
sec("P15", "Binding tables, command registrations, key tables and docs are extracted and compared; escape sequences are decoded and compared with what the terminal input tables send.",
    "key tables of the terminal layer, docs", "")
sec("P16", "Settings constructors, scripts' settings.add, migration tables, uses and the documentation tables are extracted and compared.",
    "docs/_includes settings tables", "")
sec("P17", "Ordering automata over history_db.cpp on every path (seven rules, listed in the check's docstring).",
    "the locking protocol described in history_db.cpp", "That the merged order is meaningful under all interleavings is a runtime quantity (see not applicable).")
sec("P18", "Piecewise evaluation of the width functions over all 0x110000 code points for each mode, compared with Unicode data in the tree; range tables checked sorted/disjoint/whole; wcwidth_iter by dataflow.",
    "EastAsianWidth/emoji data files in the tree and Python's unicodedata for categories", "")
sec("P19", "Liveness of modified copies (a modified by-value element, parameter or temporary must be read afterwards) and map insertions that keep the old value.",
    "language semantics", "")
sec("P20", "Flow-sensitive view validity with callee summaries (which parameters, fields, globals a call may move).",
    "container and Clink string invalidation rules", "")
sec("P21", "Piecewise evaluation of the character classes, extraction of the scanner's state tables and comparison with automata of CMD's rules over all strings (product of automata), and of the command tables.",
    "CMD's documented syntax (tables in checks/tokens.py)", "The whole tokeniser against CMD is not applicable, see below.")
sec("P22", "For every loop, every cyclic path of decisions is examined for something it changes that a decision depends on (fields, memory, calls with effects summarised).",
    "-", "Termination itself (ranking) is not claimed: it needs runtime quantities.")
sec("P23", "Thread roots are found from creation calls; locksets are computed interprocedurally for every access to data reachable from a root and elsewhere; completion hand-over, waits under locks, lock order, Lua calls on workers and closed handles are path rules.",
    "-", "Sharing by Lua objects is excluded (Lua runs on one thread, which is checked).")
sec("P24", "Functions that can run outside of a protected call are computed from the call graph (roots: no caller or address taken, not a Lua C function); raising API calls in them are violations. Stack slots left by an untested protected call are marked and reads of marked slots are violations. Throwing operations are looked up against enclosing handlers (facts carry the handler types). Lua scripts: the first result of pcall and friends must be tested.",
    "the Lua 5.2 manual's list of calls that can raise", "")
sec("P25", "lib/luatypes.py: a path-sensitive abstract stack, described from the top down so that unknown heights do not matter; type tests, copies of indexes, ++ on index variables, helper predicates, null-conditioned callee effects and requirements on callers are understood.",
    "raw table functions need a table (Lua 5.2 manual)", "")

sec("P26", "lib/uninit.py: the engine carries the set of locals (and fields of local structures) without a value along every path; 60 Win32 and C calls, and internal functions by computed summaries, set their outputs always or only when they return something true, and both outcomes are followed.",
    "a value is read only after it was set", "Three variables whose two conditions always agree are named with the reason in checks/initial.py.")

sec("P27", "lib/luanil.py walks every function of the scripts with a state of access paths that may be missing (grouped by the call that delivers them) or are known to be present; tests, uses and assertions refine it, loops run to a fixpoint, and which results of a function may be missing and which parameters it uses untested are computed to a fixpoint over all scripts. Required arguments of 126 native functions are read from their checkstring/checkinteger calls.",
    "nil (or false) raises a script error when indexed, called, concatenated or computed with (Lua 5.2 manual)", "Sixteen correlations no local rule sees are named with the reason in checks/scriptnil.py.")

sec("P28", "lib/ordering.py evaluates each comparator abstractly: what it reads from an item is an opaque term, comparing two terms asks for a sign, testing one asks for a truth value, and every combination of answers consistent with each kind of comparison being an order of its own is followed (internal functions given both items are looked into, loops become terms of what they read). The laws of a strict weak order are then read off for one, two and three items. Comparators are found from the calls and classes that use them (qsort, std:: algorithms, functors of maps, table.sort).",
    "irreflexivity, asymmetry, transitivity and transitivity of equivalence (C++ [alg.sorting], Lua's table.sort)", "A comparison that fails (CompareStringW returning 0) is not modelled. map_cmp_str, whose loop returns, is listed as not decided in the evidence.")

sec("P29", "checks/trust.py walks every path of every function of update.lua, remembering which variables are known true or false, which value came from which call, and which calls are known to have answered with success. Summaries computed to a fixpoint say which functions answer only after verifying a parameter or holding the mutex, and which pass a parameter to something that runs or unpacks it; an obligation that a function does not meet goes to its callers. The native functions are evaluated over every combination of answers (lib/ordering.py): none may return or push success unless WinVerifyTrust returned 0.",
    "a file is used only in state verified-or-excused with the mutex held", "Which functions fetch is a table (globfiles, _https_get); a parameter whose name contains verify is the user's request.")

MUT = {
    "P29": "21 hand written changes (dropped or inverted tests, another file verified, extra excuses, mutex ignored, wrong status): all caught but two that change nothing; 19 refactorings (helpers for verifying, locking, running) quiet after summaries replaced patterns",
    "P28": "24 hand written changes (wrong operand, dropped < 0, <=, one-sided guards, swapped lengths, stale buffer): all caught but one that is equivalent; a comparator that never orders anything was missed at first",
    "P27": "a removed test per function (114 'if not x' tests and 40 'or' defaults): those whose value comes from a source of the statement caught; led to requirements of called functions and of native functions",
    "P26": "110 initialisers removed at random: all that leave a read uninitialised caught; led to branch conditions, declarations and reference arguments being seen as reads",
    "P24": "11 dropped outcome tests, lua_call for pcall and narrowed handlers: all caught",
    "P25": "11 weakened type tests: all caught but one that a second test makes harmless",
    "P01": "24 random deletions of release calls: all caught but one whose handle lives in a global; led to owners filled by constructors, FormatMessage buffers and overwritten owner fields (which found the attribute buffer leak of win_screen_buffer)",
    "P02": "24 random double frees, deletions and deallocator swaps: led to the allocator propagation and the overwrite rule; deleting the release of a plain local is outside the statement",
    "P03": "24 random conversion and argument changes: all compiled ones caught",
    "P04": "24 random stack mutations: all in scope caught; the remaining ones were in Lua C functions and led to P05's removal rule",
    "P05": "24 random mutations: all caught",
    "P06": "14 random narrowings (most do not compile): led to the rule for text parameters declared void*",
    "P07": "24 random capacity and bound changes: all that reach an access caught",
    "P22": "random loop mutations over 60 loops: all that stop progress caught",
    "P23": "15 of 15 hand written lock removals, reorderings and early announcements caught",
}
