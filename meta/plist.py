from props import prop, na

prop("P01", "Every operating system resource is released exactly once",
     """Every file, process, thread, event, pipe, registry, directory-search, memory-mapping and virtual-memory handle that Clink
     obtains is released exactly once, with the matching release operation, on every path including failure paths, or handed to an owner
     whose destruction releases it. No handle is used or kept for later use after it has been released.""",
     "inputs fault_sequences", "Every path through every function that obtains or releases a resource, for every combination of success and failure of the calls on it.",
     "Leaks and double closes appear only on paths where some later call fails; the tests exercise the success paths and never inspect handle counts.",
     "clink/core/src/os.cpp clink/core/src/settings.cpp clink/core/src/globber.cpp clink/process/src/process.cpp clink/process/src/vm.cpp clink/lua/src/io_api.cpp clink/lua/src/lua_exec.cpp clink/lua/src/internal_api.cpp clink/lib/src/history_db.cpp clink/lib/src/recognizer.cpp clink/lua/src/yield.cpp clink/app/src/loader/inject.cpp",
     [("directory search handle owner", "clink/core/src/globber.cpp"), ("history bank file handles", "clink/lib/src/history_db.cpp"), ("child process pipes and threads", "clink/lua/src/io_api.cpp")],
     "interprocedural path-sensitive typestate over the clang CFG", "Covers every acquire/release site in the product sources; helper calls are followed up to four levels, destructor ownership is checked per field.")

prop("P02", "Heap blocks are freed once, by their own deallocator, and not used after",
     """A heap block is never freed twice, never freed by a deallocator that does not match its allocation, and never read, written, passed on or returned
     after it was freed. An object that stores the only reference to a heap block frees it before it stores another one in its place, and when it is destroyed; a block that only a function's local variables refer to is freed before that function returns, on every path; and a pointer that outlives the function is not left pointing to a freed block.""",
     "inputs fault_sequences", "Every path through every function that allocates, reallocates or frees, including out-of-memory paths.",
     "Use-after-free needs a specific order of reallocation, failure and reuse; the tests run without a heap checker and do not inject allocation failure.",
     "clink/lib/src clink/lua/src clink/core/src clink/app/src clink/terminal/src",
     [("growable display buffers", "clink/lib/src/display_readline.cpp"), ("history rewriting", "clink/lib/src/history_db.cpp"), ("match storage", "clink/lib/src/matches_impl.cpp"), ("session streams", "clink/lua/src/sessionstream.cpp")],
     "interprocedural path-sensitive typestate over the clang CFG", "Element-wise ownership inside arrays is not tracked; blocks meant to live as long as the process are listed by function with the reason.")

prop("P03", "Format strings are constants that agree with their arguments",
     """At every call of a printf-style function (the C library's, Clink's own formatters and loggers, lua_pushfstring and luaL_error) the format is a constant string, never
     text that came from a user, file or script, and its conversions agree with the arguments passed in number, order, kind, integer size and character width;
     conversions the callee does not support are not used.""",
     "inputs", "Every call site of a variadic formatter, whatever text or number reaches its arguments.",
     "Most of these calls are log lines, error messages and rarely printed diagnostics that no test reaches; a mismatch only misbehaves for particular argument values or on one architecture.",
     "clink/app/src clink/core/src clink/lib/src clink/lua/src clink/process/src clink/terminal/src",
     [("printf-style formatters", "clink/core/include/core/str.h"), ("logging", "clink/core/include/core/log.h"), ("Lua error messages", "clink/lua/src")],
     "call-site query over the typed AST: constant evaluation of the format, conversion-by-conversion comparison with the promoted argument types", "Formats reached through a variable are resolved to all the literals assigned to it; formats taken from a fixed named table are listed as exceptions in checks/formats.py.")

prop("P04", "Native code leaves the Lua stack balanced",
     """Every native function that is not itself a Lua C function leaves the Lua stack at the height it found it on every path, including when a script fails, or shifts it by one fixed
     amount (determined by its arguments and its result) that every caller makes good; so sending events, generating matches, filtering prompts and loading scripts any number of
     times never accumulates or eats values on the Lua stack.""",
     "inputs histories fault_sequences", "Every path through every native function that reaches the Lua API, for success and failure of each protected call.",
     "An imbalance only shows after thousands of prompts or when a script raises an error; tests run a handful of successful calls and never inspect the height.",
     "clink/lua/src clink/app/src/host/host.cpp clink/app/src/host/host_lua.cpp clink/app/src/host/prompt.cpp clink/lib/src/suggestions.cpp",
     [("protected call wrapper", "clink/lua/src/lua_state.cpp"), ("event dispatch", "clink/lua/src/lua_state.cpp"), ("match generation", "clink/lua/src/lua_match_generator.cpp")],
     "interprocedural path-sensitive dataflow of the stack height as a linear expression over parameters (effect system for the Lua API)", "lua.c- and liolib.c-derived files are excluded by name (see SKIP in lib/luaheight.py); errors that unwind through lua_error are not exits.")

prop("P05", "Lua functions return only results they pushed",
     """Every function that Clink exposes to Lua has, on every path, pushed at least as many values as the number of results it returns, so a script never receives
     its own arguments or stale values as results; and no such function pushes an unbounded number of values, or removes values that it did not push.""",
     "inputs", "Every return of every native function callable from Lua.",
     "Wrong counts sit on rarely taken failure returns, and reading a stale stack slot usually yields something plausible.",
     "clink/lua/src clink/app/src/host clink/app/src/loader",
     [("os, io, path, settings, clink, rl, console APIs", "clink/lua/src"), ("object methods", "clink/lua/src/lua_bindable.h")],
     "path-sensitive dataflow: pushed height minus returned count, as linear expressions, at every exit", "Four liolib-derived stream readers and lua.c are excluded by name; returning more than was intended but still pushed is not covered.")

prop("P06", "Text reaches the operating system as Unicode",
     """File names, command lines, environment values, registry values, window and console text that can hold arbitrary user text are passed to and obtained from Windows only through the
     wide-character functions; narrow (ANSI) variants are given only constant ASCII text. Conversions between the two forms use UTF-8, and C runtime functions that take narrow names are
     used only because every Clink binary selects the UTF-8 locale while it loads. The only exceptions are functions whose purpose is another code page.""",
     "inputs", "Every call of a Windows or C runtime function that takes or returns narrow text, for any text outside ASCII.",
     "The tests run with ASCII names in one code page; the wrong variant only fails for names that code page cannot represent.",
     "clink/app/src clink/core/src clink/lib/src clink/lua/src clink/process/src clink/terminal/src",
     [("file and process API wrappers", "clink/core/src/os.cpp"), ("process launch from Lua", "clink/lua/src/io_api.cpp"), ("UTF-8 locale initialiser", "clink/core/src/os.cpp"), ("string conversion", "clink/core/src/str_convert.cpp")],
     "call-site query over the typed AST with interprocedural constant propagation of string arguments", "Exceptions are listed by file and function in checks/queries.py with the reason; the embedded lua.c interpreter is outside.")

prop("P07", "Fixed-size arrays are never indexed or filled past their end",
     """Every access to an array of fixed size uses an index inside the array for every input, and every length or capacity that is passed along with a fixed-size buffer to Windows, the C
     runtime or another function is initialised and no larger than that buffer, counted in the unit (characters or bytes) the callee expects.""",
     "inputs histories", "Every index expression on a fixed-size array and every (buffer, length) argument pair in the product sources, for all values the index or length can take.",
     "An off-by-one is only visible when a table, key sequence, path or option list has exactly the boundary length.",
     "clink/app/src clink/core/src clink/lib/src clink/lua/src clink/process/src clink/terminal/src getopt",
     [("key sequence buffers", "clink/terminal/src/win_terminal_in.cpp"), ("attribute lists from Lua", "clink/lua/src/console_api.cpp"), ("binding resolver", "clink/lib/src/bind_resolver.cpp"), ("escape code parameters", "clink/terminal/src/ecma48_iter.cpp")],
     "whole-program interval analysis (abstract interpretation) with branch refinement and per-field, per-parameter, per-return summaries", "Heap buffers and writes through moving pointers are outside; thirteen arrays whose bound is relational are listed as exceptions in checks/bounds.py.")

prop("P08", "Arithmetic and character classification are defined for every operand",
     """No integer division or remainder can have a zero divisor, no shift count can be negative or as large as the operand, and the character classification functions of the C library
     are only given EOF or values of unsigned char, also for text outside ASCII.""",
     "inputs", "Every integer division, remainder, shift and character classification call in the product sources.",
     "They go wrong only for empty lists, zero-sized windows or non-ASCII bytes, which the tests do not combine.",
     "clink/app/src clink/core/src clink/lib/src clink/lua/src clink/process/src clink/terminal/src getopt",
     [("column layout", "clink/lib/src/column_widths.cpp"), ("settings parser", "clink/core/src/settings.cpp"), ("display", "clink/lib/src/display_readline.cpp")],
     "whole-program interval analysis (abstract interpretation)", "Signed overflow is not covered; divisors that are only excluded from the middle of a range are listed as exceptions in checks/arith.py.")

prop("P09", "Everything that is begun is ended on every path",
     """Undo groups, the clipboard, COM initialisation, device contexts, the pausing of the target process, Detours transactions, the terminal input mode and the saved history expansion
     state are begun and ended in balance: whatever way a function is left, and whichever helpers or scope objects it uses, each operation it began has been ended exactly once.""",
     "histories fault_sequences", "Every function that performs one of the operations (78 call sites of 24 operations), on every path including those where an API fails.",
     "The unbalanced path is an early return, a failing API or an unusual combination of flags, and its effect appears only later (an undo that removes too much, a clipboard other programs cannot open, a frozen cmd.exe).",
     "clink/lib/src/rl/rl_commands.cpp clink/lib/src/suggestions.cpp clink/lib/src/selectcomplete_impl.cpp clink/core/src/os.cpp clink/process/src/process.cpp clink/app/src/utils/hook_setter.cpp",
     [("suggestion insertion", "clink/lib/src/suggestions.cpp"), ("clipboard and zip extraction", "clink/core/src/os.cpp"), ("remote call", "clink/process/src/process.cpp"), ("paste", "clink/lib/src/rl/rl_commands.cpp")],
     "path-sensitive typestate analysis (net count of begin/end operations) with inlining of helpers and scope objects", "Pairs kept across calls by a class (rl_buffer_lua, line_editor_impl) or by an event callback are listed as exceptions in checks/pairs_check.py.")

prop("P10", "State overridden for an operation is put back when the operation ends",
     """Variables that are changed only for the duration of an operation (reentrancy guards such as the one around filtering matches or trying suggestions, Readline's line buffer and mode
     strings while Clink draws with substituted ones, the printer output is sent to, the settings map while another one is loaded) have their earlier or resting value again however the
     operation is left; and a guard that is consulted is set by the operation it guards.""",
     "histories", "Every function that changes one of 42 such variables, on every path to every exit.",
     "A guard left set disables a feature for the rest of the session, and only after a particular early return or error; tests start from fresh state each time.",
     "clink/lib/src/line_editor_impl.cpp clink/lib/src/rl/rl_module.cpp clink/lib/src/selectcomplete_impl.cpp clink/lua/src/lua_state.cpp clink/lua/src/prompt.cpp clink/core/src/settings.cpp clink/terminal/src/win_terminal_in.cpp",
     [("display hook", "clink/lib/src/rl/rl_module.cpp"), ("key dispatch", "clink/lib/src/line_editor_impl.cpp"), ("Lua callback guards", "clink/lua/src/lua_state.cpp"), ("terminal queries", "clink/terminal/src/win_terminal_in.cpp")],
     "path-sensitive abstract interpretation tracking which watched variables hold an overriding value; rollback objects are modelled, helpers inlined", "The set of scoped variables and the functions that change them for good are tables in checks/restore_check.py.")

prop("P11", "A result that may be missing is not used as if it were present",
     """A pointer that stands for something that may be missing (a failed C library search, file open or environment lookup, a Lua value of another type, a null returned by one of Clink's own
     lookup functions) is tested on every path before it is dereferenced, used in pointer arithmetic, or handed to a function that requires an object.""",
     "inputs", "Every call of a nullable function in the product sources (more than 500 calls, including about 90 of Clink's own functions), on every path to every use.",
     "The crash needs the lookup to fail at that place: a missing file, a script argument of another type, a line without the separator.",
     "clink/app/src clink/core/src clink/lib/src clink/lua/src clink/process/src clink/terminal/src",
     [("settings parser", "clink/core/src/settings.cpp"), ("settings.add", "clink/lua/src/settings_api.cpp"), ("find_line", "clink/terminal/src/find_line.cpp"), ("Lua arguments", "clink/lua/src/os_api.cpp")],
     "path-sensitive dataflow analysis of nullable results with computed nullable-return and must-dereference summaries", "Memory exhaustion and lookups whose null means a broken precondition (index out of range) are excluded by the table in checks/nullable.py; pointers kept in fields across calls are not covered.")

prop("P12", "The scripting API is what its documentation says",
     """Every documented Lua function, method and value exists under exactly its documented name, is bound to the implementation that carries the documentation (a deprecated name to the same one as
     its replacement), uses no undocumented arguments, and can return as many values as are documented.""",
     "inputs", "All 314 documented functions and values, native and scripted, against the registration tables and the implementations.",
     "Tests exercise a small part of the API; a swapped table entry or a missing return value shows only in scripts written by users.",
     "clink/lua/src clink/lua/scripts clink/app/scripts clink/app/src/host",
     [("os API", "clink/lua/src/os_api.cpp"), ("clink API", "clink/lua/src/clink_api.cpp"), ("line_state", "clink/lua/src/line_state_lua.cpp"), ("events", "clink/lua/scripts/events.lua")],
     "query over the type-checked registration tables, the documentation comments and the function bodies (native facts and a Lua syntax tree)", "Whether the values have the documented meaning is not decided.")

prop("P13", "Scripts and native code agree on the names they use from each other",
     """Whatever a bundled script uses from the native code or another script (API functions, internal imports, methods, globals) is defined; whatever the native code calls in a script is
     defined and takes and returns at least what is passed and expected; every event that scripts can register for is sent, every event sent can be registered for, through mechanisms that
     exist; and scripts assign no undeclared globals.""",
     "inputs", "All 24 bundled scripts (4000 uses of global names, 900 method calls), all calls from native code into scripts, all events.",
     "Lua reports a misspelt name only when the line runs, and much of the script code runs only in rare situations (updates, debugging switches, errors).",
     "clink/lua/scripts clink/app/scripts clink/lua/src clink/app/src clink/lib/src",
     [("import_internal", "clink/lua/src/internal_api.cpp"), ("events", "clink/lua/scripts/events.lua"), ("send_event", "clink/lua/src/lua_state.cpp"), ("updater", "clink/app/scripts/update.lua")],
     "name resolution over Lua syntax trees (own front end, scopes and aliases resolved) joined with the native registration tables and call sites", "Names built at run time are outside; the third-party debugger script may define globals.")

prop("P14", "Every command line option does what the usage text says",
     """For every Clink command, the short option string, the table of long options, the code that handles the options and the usage text agree: each documented option exists, both of its forms are
     one option, it takes an argument exactly when documented, and each accepted option is handled.""",
     "inputs", "All 12 option parsers, 53 options, 46 long names, 47 lines of usage text.",
     "An option that is parsed without its argument crashes or swallows the next word; no test runs the commands with their options.",
     "clink/app/src/loader",
     [("inject", "clink/app/src/loader/inject.cpp"), ("set", "clink/app/src/loader/set.cpp"), ("drawtest", "clink/app/src/loader/draw_test.cpp"), ("lua", "clink/app/src/loader/interpreter.cpp")],
     "query over the type-checked program: option strings, long option tables, switch cases, uses of optarg and usage tables are extracted and compared", "What the handling code then does with the option is not decided.")

prop("P15", "Every default key binding works and is the documented one",
     """Each default binding, in every key map and input module, names a registered command (or an id the module handles, each handled id being bound) and a key sequence that the terminal layer
     really sends for some key; the key tables send for each key and modifier the sequence that encodes them, and display names match; every Clink command is registered once, with category and
     description, under the name of the function that implements it; every documented command exists and its documented default key invokes it.""",
     "inputs", "All 205 sequences of the key tables, 186 bindings in 10 tables, 93 module bindings, 237 commands, 113 documented default keys.",
     "A binding to a misspelt command or to a sequence no key sends is silently ignored; tests feed sequences directly, not keys.",
     "clink/terminal/src/win_terminal_in.cpp clink/lib/src/rl clink/lib/src clink/app/scripts docs/clink.md",
     [("key tables", "clink/terminal/src/win_terminal_in.cpp"), ("default bindings", "clink/lib/src/rl/rl_module.cpp"), ("commands", "clink/lib/src/rl/rl_help.cpp"), ("module bindings", "clink/lib/src/selectcomplete_impl.cpp")],
     "query over the type-checked program: key tables, binding tables, registrations, module switches and the documentation tables are extracted and compared through the terminal key encoding", "Keys the user binds in an inputrc are outside.")

prop("P16", "Settings are consistent wherever they appear",
     """Setting names are unique, valid and not cut off; the default of an enumeration is one of its options; every setting that native code, a script, the migration table or the enhanced defaults refer
     to exists and is compared with and set to options it has, constants named after options having the right number; and the documented settings are the existing ones with their actual
     defaults.""",
     "inputs", "All 136 settings (126 native, 10 scripted), 133 uses by name, 29 comparisons and 5 switches on options, 136 documented defaults.",
     "A misspelt name yields a default silently, and an option added to the list shifts the meaning of the following ones.",
     "clink/core/src/settings.cpp clink/lib/src clink/lua clink/app _default_settings docs/clink.md",
     [("settings store and migration", "clink/core/src/settings.cpp"), ("enum options", "clink/lib/src/rl/rl_commands.cpp"), ("script settings", "clink/app/scripts"), ("documentation", "docs/clink.md")],
     "query over the type-checked program, the Lua syntax trees, the enhanced default settings and the documentation table", "Whether each option has its described effect is not decided.")

prop("P17", "History of concurrent sessions is neither lost nor corrupted",
     """History files are changed only under an exclusive lock on every handle involved, at a position set under that lock (appending at the end, marking one byte, truncating at the start); the
     master bank is locked before a session's, so sessions cannot deadlock; a master bank that is emptied gets a newly generated tag as its first line, and the tag a session remembers, and
     the one in removals files, follow it; a line is removed by a remembered id only after the tag was found unchanged; the files of a session are deleted only when it has ended and its lines
     and removals have been merged into the master bank (or there are none, or they are not to be kept); and a session merges after giving up its alive file and before closing the
     master.""",
     "schedules", "Every function of history_db.cpp that locks, writes, truncates, tags, removes or deletes, on every path.",
     "The damage needs several sessions in a particular interleaving, or a file that cannot be opened at one moment; tests run a single process.",
     "clink/lib/src/history_db.cpp",
     [("locks", "clink/lib/src/history_db.cpp"), ("reap", "clink/lib/src/history_db.cpp"), ("rewrite_master_bank", "clink/lib/src/history_db.cpp"), ("compact", "clink/lib/src/history_db.cpp")],
     "path-sensitive ordering rules (must-happen-before facts over all paths, followed through helpers, lambdas judged on their own)", "That LockFileEx succeeds is assumed; the code ignores its result. Parsing of the files is not covered.")

prop("P18", "Characters have the column width their Unicode class gives them",
     """For every code point the width functions (wcwidth and its CJK and UCS2 variants) answer 0 for NUL, -1 for control characters, 1 for printable ASCII, the combining mark width in effect for
     combining marks and format characters, 2 for East Asian wide and full width characters and 1 for neutral, narrow and half width ones; with color emoji enabled, 2 for the emoji of emoji-test.txt
     that emoji-filter.txt does not exclude, but 1 for those in emoji-fe0f.txt; East Asian ambiguous characters follow the terminal.east_asian_ambiguous setting exactly when the CJK variant is
     in effect; and the UCS2 variants, used exactly when the console is limited to UCS2, count 2 beyond the basic plane. Each range table is sorted, free of overlap and searched from its first
     to its last row, the search finds every character of every row and no other, and the generated tables equal the lists they are generated from. The end of a run in wcwidth_iter is moved over each
     character it consumes, and a control character counts 0, 1 or 2 columns as the caller asked.""",
     "inputs", "All 1,114,112 code points, every combination of color emoji, Windows version, UCS2 and ambiguous width modes.",
     "Tests try a few dozen characters in one mode; one wrong range bound misplaces the cursor for a handful of characters only.",
     "clink/terminal/src/wcwidth.cpp clink/terminal/src/wcwidth_iter.cpp clink/terminal/src/emoji-test.i clink/terminal/include/terminal/wcwidth.h",
     [("width functions", "clink/terminal/src/wcwidth.cpp"), ("generated emoji tables", "clink/terminal/src/emoji-test.i"), ("runs", "clink/terminal/src/wcwidth_iter.cpp")],
     "abstract interpretation over unions of code point intervals (complete piecewise relation per function) compared with Unicode 3.2/15 classes and the emoji lists; induction over the paths of the bisection loop", "Classes are those of Unicode 3.2 (what the tables were made from) where later versions reassigned them. Which characters form one emoji sequence is not covered.")

prop("P19", "Updates to stored items reach the stored item",
     """Code that changes an item of a list, table or cache changes the stored item and not a copy: no function modifies a copy of an element, field or parameter (a loop variable taken by value, a local copy,
     a temporary returned by value) whose change is then never used; and no function puts a new value under a key of a map in a way that silently keeps the old value, unless the key is known to be absent
     or the outcome is looked at.""",
     "inputs histories", "Every local copy, value parameter and map insertion of the product sources, on every path.",
     "The operation succeeds and looks right; the loss shows only when the same item is updated a second time, or read back later.",
     "clink/core/src clink/lib/src clink/lua/src clink/app/src clink/terminal/src",
     [("settings", "clink/core/src/settings.cpp"), ("word classifications", "clink/lib/src/word_classifications.cpp"), ("match state", "clink/lib/src/matches_impl.cpp"), ("recognizer cache", "clink/lib/src/recognizer.cpp")],
     "dataflow over the clang CFG: copies are tracked from their initialisation to every later use (field sensitive), map insertions must be dominated by a lookup, removal or clearing of the same map", "Nine map insertions whose value is determined by the key, or whose key is unique, are listed as exceptions in checks/updates.py.")

prop("P20", "No use of pointers into strings or containers after the storage moved",
     """A pointer, reference, iterator or string iterator that refers into the storage of a growable string, standard container or arena is never read after an operation, made directly or inside a called
     function, that may move or destroy that storage on the path taken; and an operation that rewrites a string is never handed a pointer into that same string which it still reads after changing it.""",
     "inputs", "Every local pointer, reference and iterator into a string, container or arena of the product sources, on every path, with the effects of called functions.",
     "The storage moves only when the content outgrows the capacity, which the short inputs of a test do not reach; the stale memory usually still holds the old text.",
     "clink/core/src clink/lib/src clink/lua/src clink/app/src clink/terminal/src",
     [("recognizer", "clink/lib/src/recognizer.cpp"), ("settings", "clink/core/src/settings.cpp"), ("word collector", "clink/lib/src/word_collector.cpp"), ("suggestion list", "clink/lib/src/suggestionlist_impl.cpp")],
     "forward dataflow over the clang CFG (view validity as typestate), with per-function summaries of which parameters, fields and globals a call may move and which parameters a returned pointer derives from", "Views held in fields of objects are not tracked; a guard of the form x.equals(p) or p != x.c_str() is understood.")

prop("P21", "Command lines are split with CMD's characters, redirections and command names",
     """When a command line is split into commands and words, every character is classified as CMD does: tab, space and end of line are space; the decimal digits, <, >, & and | are special; everything else is text.
     From any start, the scanner recognises exactly the redirections [digit](< | << | > | >>), their arguments, handle duplication (&digit after a redirection that names its handle) and the separators & and |, and
     flags what is malformed. The internal commands known are exactly CMD's, each with its word breaking rule, none is cut off by the length limit, "rem" ends the line, and a command name is ended by exactly
     the characters CMD accepts there.""",
     "inputs", "Every code point, every state and character class of the scanner, every listed command name and delimiter set.",
     "One wrong cell or character of the tables matters only for one unusual sequence of characters; tests sample a few dozen lines.",
     "clink/lib/src/cmd_tokenisers.cpp",
     [("tables and scanner", "clink/lib/src/cmd_tokenisers.cpp")],
     "piecewise evaluation of the character classification over all code points; the transition table is read from its initialiser and compared with a reference automaton by bisimulation; name lists, flags and delimiter sets are compared with CMD's", "The loops of the two tokenisers around the table (quotes, carets, aliases, parentheses) are not modelled.")

prop("P22", "Loops make progress whatever the input",
     """No loop can go round forever without changing anything: every way around a loop (from its start back to its start, along branches that can be taken together) changes a variable, field, buffer or outside state
     that some decision taken on that way depends on; and a for loop, or a loop whose condition is a comparison, changes something its own condition depends on. So no input, text or buffer content can park the shell
     in a loop whose decisions come out the same every time.""",
     "inputs", "Every loop of the product sources and of the bundled Readline, and every simple way around it up to a limit, with the effects of called functions.",
     "Tests only go around loops in the ways their samples take; the missing step is usually in the branch for an empty item, a stray separator or a skipped entry, where the shell then hangs.",
     "clink readline",
     [("word scanning", "clink/lib/src/cmd_tokenisers.cpp"), ("environment expansion", "clink/core/src/os.cpp"), ("text lists", "clink/lib/src/textlist_impl.cpp"), ("readline", "readline/readline/readline.c")],
     "enumeration of the simple cycles of every loop of the clang CFG; read and write effects with summaries over the call graph; a path is dropped when its decisions, taken twice, contradict each other", "Progress, not termination: a loop that changes what it decides on, but the wrong way, is not reported. Three loops with more ways than the limit are examined up to it.")

prop("P23", "Data shared with background threads is never accessed without protection",
     """Every field and global that a background thread (command recognition, asynchronous tasks, yielding pipes, command timeouts, Ctrl-C handling) shares with other code is accessed by every function with one and the same
     lock held; or it is a flag that is only set to constants; or it is only set before the thread exists; or it is a result that other code reads only after it tested that the thread completed, which the thread
     announces after its work is done and before it wakes anyone. Background threads never call into Lua or Readline, no code waits for a thread or event while it holds a lock, locks are taken in one order, and
     nothing uses what a thread has closed.""",
     "schedules", "All interleavings of the background threads with the main thread: every access, wait, lock acquisition and call reachable from a thread entry function or from anything else.",
     "A data race or deadlock needs an unlucky schedule; tests run the code on one thread or with one schedule.",
     "clink/lib/src/recognizer.cpp clink/lua/src",
     [("recognizer", "clink/lib/src/recognizer.cpp"), ("async tasks", "clink/lua/src/async_lua_task.cpp"), ("yielding threads", "clink/lua/src/yield.cpp"), ("network shares", "clink/lua/src/os_api.cpp"), ("path types, unzip", "clink/lua/src/internal_api.cpp"), ("http requests", "clink/lua/src/http_api.cpp")],
     "lockset analysis: must and may locksets by forward dataflow over scoped guards, propagated through the call graph separately from thread entries and from everything else; completion tests flow as facts; may locksets decide waits and lock order", "Fields are told apart by class, not by object. Sixteen locations with another discipline (event handles made once, results handed over through Lua, delay loaded DLL tables) are listed in checks/threads.py with the reason.")

prop("P24", "Errors in scripts and patterns never escape into the shell or pass for results",
     """A Lua API call that can raise an error only runs in functions that scripts call, inside a protected call; every other function uses only calls that cannot raise. What a protected call leaves on the stack is read as
     its result only after its outcome was tested, because when it failed that value is the error message; in the bundled scripts the outcome of every pcall, xpcall, coroutine.resume and load is tested. A regular expression
     that a user or script supplies is compiled and matched only inside a handler for the exception that a malformed expression raises.""",
     "inputs", "Every script error and malformed pattern: all native functions that can run outside of a protected call, every protected call, every operation that throws.",
     "An error that escapes ends the host process, since it has no handler for it; tests would need each script call to fail.",
     "clink/lua/src/lua_state.cpp clink/lua/src",
     [("protected calls", "clink/lua/src/lua_state.cpp"), ("callers", "clink/lua/src/suggest.cpp"), ("updater", "clink/app/src/loader/update.cpp"), ("patterns", "clink/terminal/src/find_line.cpp"), ("scripts", "clink/lua/scripts/coroutines.lua")],
     "effect analysis over the call graph (what can run outside of a protected call), a path-sensitive dataflow over stack slots that marks error messages, and exception handlers taken from the syntax tree", "Calls through the metamethods of library tables that a script replaced are not covered.")
prop("P25", "A Lua value is used as a table only where it is known to be one",
     """Native code indexes, traverses or stores into a Lua value with the raw table functions only when the value is a table on every path that leads there: it was just created, it comes from the registry, or its type was
     tested, in the function or in every caller. While native code traverses a table it does not convert a key, which would break the traversal.""",
     "inputs", "Every value a script can pass or return: all raw table accesses of native code on all paths.",
     "Raw accesses do not check the type, so that an unexpected value from a script crashes the shell; tests pass values of the expected types.",
     "clink/lua/src",
     [("match filtering", "clink/lua/src/lua_match_generator.cpp"), ("popup lists", "clink/lua/src/clink_api.cpp"), ("suggestions", "clink/lua/src/internal_api.cpp"), ("match builder", "clink/lua/src/match_builder_lua.cpp"), ("http.request", "clink/lua/src/http_api.cpp"), ("globbing", "clink/lua/src/os_api.cpp")],
     "type-state analysis of Lua stack slots along every path, with requirements on callers propagated through the call graph", "The standard library tables (clink, os, string, ...) and clink._internal are taken to still be tables.")

prop("P26", "No variable is read before it has been given a value",
     """On every path through native code a local variable, or a field of a local structure, has been given a value before it is read: by an assignment, by a call that always sets it, or by a call that sets it only when it
     succeeds and whose success was tested. Results that a console, file or process query could not provide are never used.""",
     "inputs", "Every failure of a query and every path: all local variables without an initialiser and all calls that fill one.",
     "What an uninitialised variable holds depends on earlier calls, so a wrong read seldom shows up, and tests run where the queries succeed.",
     "clink/core/src clink/terminal/src clink/lib/src clink/lua/src clink/app/src",
     [("console queries", "clink/terminal/src/win_screen_buffer.cpp"), ("cursor style", "clink/terminal/src/terminal_helpers.cpp"), ("script call results", "clink/lib/src/line_editor_impl.cpp"), ("console modes", "clink/lua/src/lua_state.cpp")],
     "path-sensitive dataflow over the syntax tree's control flow graph, with the outcomes of Win32 calls split into success and failure, and computed summaries of which outputs each internal function fills on which returns",
     "Arrays and heap objects are not covered; fields are covered for local structures without a constructor.")

prop("P27", "Bundled scripts never use a missing value as if it were present",
     """In the Lua scripts Clink ships (other than the interactive debugger), a value that may be missing is never indexed, called, concatenated, measured, computed with, compared by order, iterated or passed to a function that insists on it,
     on any path on which it has not been found to be present. That covers results of io.open and the other functions documented as possibly returning nil, results of script functions that on some path return nothing or nil,
     text that may not match a pattern or be a number, and variables the same function tests for nil. Methods of an opened file are called on that file.""",
     "inputs", "Every outcome of every query a script makes: missing files, programs that do not start, malformed files, unset variables, text that does not parse.",
     "Tests run where the files exist and the text is well formed; a missing value raises a script error that disables the prompt, completion or update it happens in.",
     "clink/app/scripts clink/lua/scripts",
     [("git prompt information", "clink/app/scripts/git.lua"), ("updater", "clink/app/scripts/update.lua"), ("argument matchers", "clink/lua/scripts/arguments.lua"), ("themes and prompts", "clink/app/scripts/loader_config.lua")],
     "flow-sensitive nil analysis over the scripts' syntax trees with computed summaries: which results of each script function may be missing and which parameters it uses untested; required arguments of native functions are read from their C++ code",
     "Values kept in tables under computed keys and results of line_state:getwordinfo() are not followed.")

prop("P28", "Sort comparisons give a consistent order",
     """Every comparison function given to a sort, a search or an ordered container (completion matches, key binding listings, case-insensitive maps, executable extensions, prompt filters and other prioritised Lua objects)
     is a strict weak order whatever the items are: no item comes before itself, two items never each come before the other, three-way comparisons of swapped items give opposite signs, and the answers for any three items agree.
     Every step of a comparison compares one item with the other, a comparison depends on nothing left over from an earlier one, and it tells some items apart. Equality functions of hash containers are equivalences.""",
     "inputs", "Every pair and triple of items: names differing only by case, leading minus signs, directories with and without a trailing separator, equal keys.",
     "An inconsistent order is undefined behaviour in std::sort and raises 'invalid order function' in table.sort, but only for particular collections of items in a particular arrangement.",
     "clink/lib/src/match_pipeline.cpp clink/lib/src/rl/rl_help.cpp clink/lua/scripts clink/app/scripts",
     [("completion matches", "clink/lib/src/match_pipeline.cpp"), ("key binding listings", "clink/lib/src/rl/rl_help.cpp"), ("maps", "clink/core/include/core/str_map.h"), ("prioritised Lua objects", "clink/app/scripts/prompt.lua")],
     "abstract evaluation of every comparator over all consistent outcomes of its own comparison steps, for one, two and three items, against the laws of a strict weak order",
     "Whether the order is the intended one (ascending, folders first) is not decided. A comparison that itself fails is not modelled.")

prop("P29", "Updates are verified before they are used",
     """The updater never runs a downloaded setup program and never unpacks a downloaded zip file unless checking the digital signature of that very file succeeded, or the user asked not to verify:
     on every path the verification's result is tested, its failure ends the update, and the request not to verify is only passed on, never made up.
     An update is applied only while the updater mutex is held (by this process, or by the parent of an elevated one). The verification functions report success only when WinVerifyTrust did.""",
     "inputs", "A tampered download, a download whose catalog is missing, an elevated second process, a verification that is not available, two sessions updating at once.",
     "Tests do not download or sign anything; a path that skips the verification behaves the same for a genuine update.",
     "clink/app/scripts/update.lua clink/lua/src/internal_api.cpp",
     [("applying updates", "clink/app/scripts/update.lua"), ("verification", "clink/lua/src/internal_api.cpp")],
     "path-sensitive typestate analysis of the updater script (verified, excused, mutex held), with summaries of its functions, and abstract evaluation of the native verification functions",
     "That the publisher is the expected one, and that the file is not replaced between verification and use, are not decided. The elevated process trusts its parent to hold the mutex.")

na("N01", "What is displayed matches the edited line",
   "After any sequence of edits, resizes and redisplays, what the terminal shows for the input line, and where it puts the cursor, is what the line buffer and cursor position say.",
   "histories", "Every sequence of edits, wrappings, widths and terminal sizes.",
   "Tests compare a few rendered lines at fixed sizes.",
   "clink/lib/src/display_readline.cpp clink/terminal/src/wcwidth.cpp", [("incremental redisplay", "clink/lib/src/display_readline.cpp")],
   "It relates the text in memory to a screen reached by differences to what was shown before; both are unbounded run time values, and no static abstraction in reach relates them precisely enough to accept the correct code. The memory safety, index and pairing aspects of that code are decided by other properties.")
na("N02", "Command lines are divided into words as the command processor does",
   "For every input line, the commands, words and argument positions Clink completes and colours are those cmd.exe would see, whatever quotes, carets, redirections, parentheses and separators it has.",
   "inputs", "Every input line.",
   "Tests have a table of examples; the grammar of the command processor is unbounded and undocumented.",
   "clink/lib/src/cmd_tokenisers.cpp clink/lib/src/word_collector.cpp", [("tokeniser", "clink/lib/src/cmd_tokenisers.cpp")],
   "There is no specification to compare with: the oracle is the behaviour of a closed program. Agreement of the tokeniser's own tables and the bounds of the words it makes are decided by other properties.")
na("N03", "Concurrent sessions never lose or duplicate history lines",
   "When sessions add to, compact and read the shared history at the same time, or end abnormally, every line entered in a session is in the history afterwards exactly once unless removed or a limit applies.",
   "schedules", "Every interleaving of sessions and every point at which one ends.",
   "Tests use one process.",
   "clink/lib/src/history_db.cpp", [("bank locks and reaping", "clink/lib/src/history_db.cpp")],
   "That each bank is read and written only under its lock is decided statically by another property; that the result of merging is right depends on file contents and interleavings of separate processes, which needs model checking or execution.")
na("N04", "Text survives conversion between encodings",
   "Converting any text from UTF-16 to UTF-8 and back gives the same text, in pieces of any size, and invalid input becomes replacement characters without losing what surrounds it.",
   "inputs", "Every sequence of code units and every division into pieces.",
   "Tests convert a few strings.",
   "clink/core/src/str_iter.cpp clink/core/src/str_transform.cpp", [("decoders", "clink/core/src/str_iter.cpp")],
   "The decoders are arithmetic on code units in loops over the input; equality of the composition of two such loops with the identity is a question for a solver or for execution over their (small) domains, not for static analysis. Bounds of what they read are decided by other properties.")
na("N05", "A match is offered exactly when it matches what was typed",
   "For every word typed and every set of generated matches, the matches shown and inserted are those whose text agrees with the word under the case, accent, wildcard, substring and fuzzy settings.",
   "inputs", "Every word, match and combination of settings.",
   "Tests have examples per setting.",
   "clink/lib/src/match_pipeline.cpp clink/core/src/str_compare.cpp wildmatch", [("selectors", "clink/lib/src/match_pipeline.cpp")],
   "It quantifies over pairs of strings whose comparison loops have no static bound, and its specification is the comparison itself. That comparisons are consistent orders is decided by another property.")
na("N06", "Interactive input is answered promptly",
   "No key, script or prompt filter makes the prompt wait without bound: background work is suspended while it waits, and a redisplay or completion ends.",
   "schedules", "Every script, directory size and key sequence.",
   "Tests do not measure time and run small inputs.",
   "clink/lib/src/line_editor_impl.cpp clink/lua/scripts/coroutines.lua", [("coroutine scheduling", "clink/lua/scripts/coroutines.lua")],
   "Running time depends on user scripts, file systems and the terminal; no static bound exists for them.")
