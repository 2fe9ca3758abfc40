"""Fixed-size arrays: indexes inside bounds, capacities passed with buffers not larger than the buffers."""
import ir, interval
from check import Check

SCOPE = ("clink/app/", "clink/core/", "clink/lib/", "clink/lua/", "clink/process/", "clink/terminal/", "getopt/")

# (file, array) whose bound rests on a relation between variables that intervals cannot express.  Each was read by hand.
INDEX_EXC = {
    ("bind_resolver.cpp", "m_keys"): "index is the depth of a tree node on the path just matched from m_keys; the path is never longer than the keys pushed",
    ("cmd_tokenisers.cpp", "c_transition"): "states past the table's rows are terminal (st_BREAK_MIN and above): the loop returns on them before the next lookup",
    ("match_colors.cpp", "s_colors"): "num_flags == 1 holds only when exactly one indicator assigned rlind",
    ("matches_impl.cpp", "type_names"): "match_type & mask is one of the eight base types set by to_match_type",
    ("rl_help.cpp", "ctrl_map"): "guarded by the character test on the same element (key >= 0 && keyseq[i] < ' ')",
    ("rl_help.cpp", "c_headings"): "guarded by cat >= 0 via show_categories",
    ("settings.cpp", "color_names"): "x is in 30..37 or 90..97 (a union of two ranges)",
    ("ecma48_terminal_out.cpp", "params"): "n == param_count - i and is compared before each look-ahead",
    ("ecma48_terminal_out.cpp", "m_buffer"): "build_pending is called until it reports a full buffer, and then flush_pending resets m_pending",
    ("win_terminal_in.cpp", "kfx"): "the inner loop advances in steps of 12, a divisor of the table size",
    ("win_terminal_in.cpp", "c_mod_names"): "guarded by the digit test on the same key sequence element",
    ("history.cpp", "num_from"): "an iterator that yielded a line is in bank 0 or 1",
}
TRAILING = {"params": 32}   # csi_base::params is the head of the params of csi<32>, the only instantiation

# callee -> [(buffer arg, count arg, unit)]; unit "e" elements, "b" bytes
PAIRS = {
    "FormatMessageW": [(4, 5, "e")], "GetLocaleInfoW": [(2, 3, "e")], "GetDateFormatW": [(4, 5, "e")], "SearchPathW": [(4, 3, "e")],
    "GetFileVersionInfoW": [(3, 2, "b")], "WaitForMultipleObjects": [(1, 0, "e")], "GetModuleFileNameW": [(1, 2, "e")],
    "ReadFile": [(1, 2, "b")], "WriteFile": [(1, 2, "b")], "memcpy": [(0, 2, "b"), (1, 2, "b")], "memmove": [(0, 2, "b"), (1, 2, "b")],
    "memset": [(0, 2, "b")], "memcmp": [(0, 2, "b"), (1, 2, "b")], "ReadConsoleOutputCharacterW": [(1, 2, "e")],
    "ReadConsoleOutputAttribute": [(1, 2, "e")], "GetEnvironmentVariableA": [(1, 2, "e")], "GetEnvironmentVariableW": [(1, 2, "e")],
    "GetLongPathNameW": [(1, 2, "e")], "GetShortPathNameW": [(1, 2, "e")], "GetFinalPathNameByHandleA": [(1, 2, "e")], "GetFinalPathNameByHandleW": [(1, 2, "e")],
    "GetKeyNameTextW": [(1, 2, "e")], "GetTempPathW": [(1, 0, "e")], "GetCurrentDirectoryW": [(1, 0, "e")], "GetFullPathNameW": [(2, 1, "e")],
    "MultiByteToWideChar": [(4, 5, "e")], "WideCharToMultiByte": [(4, 5, "b")], "_snprintf": [(0, 1, "e")], "snprintf": [(0, 1, "e")],
    "_vsnprintf": [(0, 1, "e")], "vsnprintf": [(0, 1, "e")], "_snwprintf": [(0, 1, "e")], "strftime": [(0, 1, "e")],
    "wcsftime": [(0, 1, "e")], "_itoa_s": [(1, None, "e")], "GetConsoleTitleW": [(0, 1, "e")], "GetClassNameW": [(1, 2, "e")], "GetWindowTextW": [(1, 2, "e")],
    "ReadConsoleInputW": [(1, 2, "e")], "PeekConsoleInputW": [(1, 2, "e")], "WriteConsoleInputW": [(1, 2, "e")], "WriteConsoleW": [(1, 2, "e")],
    "GetSystemDirectoryW": [(0, 1, "e")], "GetWindowsDirectoryW": [(0, 1, "e")], "ToUnicode": [(3, 4, "e")], "ToUnicodeEx": [(3, 4, "e")],
    "wcsncpy": [(0, 2, "e")], "strncpy": [(0, 2, "e")], "GetComputerNameW": [], "GetUserNameW": [], "GetModuleBaseNameW": [(2, 3, "e")],
    "ReadProcessMemory": [(2, 3, "b")], "WriteProcessMemory": [(2, 3, "b")], "VirtualQueryEx": [(2, 3, "b")], "VirtualQuery": [(1, 2, "b")],
    "to_utf8": [(0, 1, "e")], "to_utf16": [(0, 1, "e")], "_wgetcwd": [(0, 1, "e")],
}
# size variables passed by address: callee -> (buffer arg, size arg, unit); the variable holds the capacity at the call
SIZEVARS = {"RegEnumKeyExW": (2, 3, "e"), "RegQueryValueExW": (4, 5, "b"), "RegQueryValueExA": (4, 5, "b"), "RegGetValueW": (5, 6, "b"),
            "RegGetValueA": (5, 6, "b"), "GetComputerNameW": (0, 1, "e"), "GetUserNameW": (0, 1, "e"), "WNetGetConnectionW": (1, 2, "e"),
            "QueryFullProcessImageNameW": (2, 3, "e"), "CryptCATAdminCalcHashFromFileHandle": (2, 1, "b")}
NOT_COUNT = {"itoa", "_itoa", "_itow", "strncmp", "_strnicmp", "wcsncmp", "_wcsnicmp", "strnicmp", "getopt_long", "rl_unbind_key_in_map", "str_chr",
             "RegOpenKeyExW", "RegOpenKeyExA", "RegCreateKeyExW", "RegSetValueExW", "RegQueryValueExW", "_pipe", "puts_help", "strchr", "strrchr", "wcschr", "wcsrchr",
             "rl_generic_bind", "_strtoi64", "strtol", "strtoul", "CreateFileW", "GetDriveTypeW", "GetVolumeInformationW", "prompt::set", "open_cmd_proc_key"}
# counts that no interval bounds, by (file, callee, buffer)
COUNT_EXC = {
    ("edit_and_execute_command", "buffer"): "length returned by fread into the same buffer",
    ("win_terminal_in::read_console", "handles"): "get_wait_events returns no more than the capacity it is given",
    ("get_wcwidth_from_font", "tmp"): "distance between two positions of the same buffer",
    ("popen_buffering::do_work", "m_buffer"): "length returned by ReadFile into the same buffer",
}


def void_param(prog, n, i):
    t = prog.funcs.get(n.get("f"))
    if t is None or i >= len(t.d["params"]):
        return False
    pt = t.type(t.vars[t.d["params"][i]]["t"])
    return pt["k"] == "ptr" and t.type(pt.get("e", -1))["k"] == "void"


def capacity(f, a):
    """(elements, element size) of the fixed array or single object an argument denotes."""
    s = f.strip(a)
    if s is None:
        return None
    if s["k"] == "Un" and s["op"] == "&":
        x = f.strip(f.kid(s, 0))
        if x is None:
            return None
        t = f.ntype(x)
        if x["k"] == "Index":
            b = f.strip(f.kid(x, 0))
            bt = f.ntype(b)
            iv = f.kid(x, 1).get("v")
            if bt["k"] == "arr" and bt.get("n") and iv is not None:
                return bt["n"] - iv, f.elt(bt).get("z") or 1
            return None
        if x["k"] in ("Ref", "Member") and t["k"] in ("rec", "int", "ptr", "enum", "arr") and t.get("z"):
            return 1, t["z"]
        return None
    t = f.ntype(s)
    if s["k"] in ("Ref", "Member", "Index") and t["k"] == "arr" and t.get("n"):
        return t["n"], f.elt(t).get("z") or 1
    return None


def bounds():
    c = Check("P07", "the index of every access to a fixed-size array is inside the array, and every capacity or length passed along with a fixed-size buffer is at most the buffer's size")
    prog = ir.load()
    R = interval.Ranges(prog, ret_models={"lua_type": lambda fl, s, n: (-1, 8)})
    index, counts = [], []
    for f in prog.funcs.values():
        if not f.file.startswith(SCOPE):
            continue
        for n in f.nodes:
            if not n:
                continue
            if n["k"] == "Index":
                b = f.strip(f.kid(n, 0))
                t = f.ntype(b)
                ix = f.kid(n, 1)
                if t["k"] != "arr" or not t.get("n") or ix is None or ix["k"] == "ArrayInitIndexExpr":
                    continue
                nm = b.get("m") or b.get("n", "?").rsplit("::", 1)[-1]
                cap = TRAILING[nm] if t["n"] == 1 and nm in TRAILING else t["n"]
                pm = R.info(f).parent(f.nodes.index(n)) if False else None
                index.append((f, n, n["c"][1], cap, nm))
                if ix.get("v") is None:
                    R.want(f, n["c"][1])
            elif n["k"] in ("Call", "Construct"):
                args = f.args(n)
                nm = n.get("n", "")
                sh = nm.rsplit("::", 1)[-1]
                if sh in PAIRS:
                    pairs = PAIRS[sh]
                elif n.get("va") or sh in NOT_COUNT or nm in NOT_COUNT or not nm:
                    pairs = []
                else:
                    # by convention of this code base (T* buffer, count) are adjacent parameters
                    pairs = [(i, i + 1, "e") for i, a in enumerate(args[:-1])
                             if a is not None and args[i + 1] is not None and f.strip(a)["k"] in ("Ref", "Member") and f.ntype(f.strip(a))["k"] == "arr"
                             and f.ntype(args[i + 1])["k"] == "int" and not (sh in SIZEVARS)]
                if sh == "fread" or sh == "fwrite":
                    cap = capacity(f, args[0])
                    if cap and args[1].get("v") and args[2].get("v"):
                        c.count("capacity_sites")
                        if args[1]["v"] * args[2]["v"] > cap[0] * cap[1]:
                            c.violation("%s|%s|%s" % (f.name, sh, f.text(args[0])), f.file, n["l"], "%s in %s: %d bytes for the %d byte buffer %s" % (
                                sh, f.name, args[1]["v"] * args[2]["v"], cap[0] * cap[1], f.text(args[0])))
                    continue
                for bi, ci, unit in pairs:
                    if bi >= len(args) or args[bi] is None:
                        continue
                    cap = capacity(f, args[bi])
                    if cap and cap[0] == 1 and f.text(args[bi]).rsplit(".", 1)[-1] in TRAILING:
                        cap = (TRAILING[f.text(args[bi]).rsplit(".", 1)[-1]], cap[1])
                    if sh not in PAIRS and void_param(prog, n, bi):
                        unit = "b"
                    if cap is None or ci is None or ci >= len(args) or args[ci] is None:
                        continue
                    if unit == "e" and cap[0] == 1 and f.strip(args[bi])["k"] == "Un" and sh not in PAIRS:
                        continue
                    counts.append((f, n, n["c"][ci], cap, unit, f.text(args[bi])))
                    if args[ci].get("v") is None:
                        R.want(f, n["c"][ci])
                if sh in SIZEVARS:
                    bi, ci, unit = SIZEVARS[sh]
                    if ci < len(args) and args[bi] is not None and args[ci] is not None:
                        cap = capacity(f, args[bi])
                        sv = f.strip(args[ci])
                        if cap and sv["k"] == "Un" and sv["op"] == "&":
                            x = sv["c"][0]
                            counts.append((f, n, x, cap, unit, f.text(args[bi])))
                            R.want(f, x)
    R.solve()
    used = set()
    for f, n, ix, cap, nm in index:
        c.count("index_sites")
        x = f.nodes[ix]
        v = (x["v"], x["v"]) if isinstance(x.get("v"), int) else R.at(f, ix)
        if v is None:
            if unreachable(R, f, ix):
                c.count("unreachable_sites")
                continue
            v = (-1, -1)
        # one past the end is a valid address
        hi = cap if address_only(f, R, n) else cap - 1
        if v[0] >= 0 and v[1] <= hi:
            c.count("proved")
            continue
        key = (f.file.split("/")[-1], nm)
        if key in INDEX_EXC and not isinstance(x.get("v"), int):
            used.add(key)
            continue
        c.violation("%s|%s|index" % (f.name, nm), f.file, n["l"], "%s: index %s of %s (%d elements) may be %s" % (f.name, f.text(x), nm, cap, show(v)))
    for f, n, ci, cap, unit, nm in counts:
        c.count("capacity_sites")
        x = f.nodes[ci]
        v = (x["v"], x["v"]) if isinstance(x.get("v"), int) else R.at(f, ci)
        if v is None:
            v = (0, 0) if unreachable(R, f, ci) else (-2**63, 2**63)
        size = cap[0] * (cap[1] if unit == "b" else 1)
        if v[1] <= size:
            c.count("proved")
            continue
        if (f.name, nm) in COUNT_EXC:
            used.add((f.name, nm))
            continue
        c.violation("%s|%s|%s|capacity" % (f.name, n.get("n"), nm), f.file, n["l"], "%s: %s is given length %s (%s) for %s, which holds %d" % (
            f.name, n.get("n"), f.text(x), show(v), nm, size))
    c.cov["exceptions"] = ["%s %s: %s" % (k[0], k[1], INDEX_EXC.get(k) or COUNT_EXC.get(k)) for k in sorted(used)]
    c.cov["cells"] = len(R.cells)
    c.cov["functions_analysed"] = len(R.need_expr)
    c.need("index_sites", 400)
    c.need("capacity_sites", 60)
    return c


def show(v):
    f = lambda x: str(x) if abs(x) < 2**31 - 1 else ("unbounded" if x > 0 else "-unbounded")
    return "%s..%s" % (f(v[0]), f(v[1])) if v[0] != v[1] else f(v[0])


def unreachable(R, f, ix):
    """No value because the code is not reached (nothing calls it with any value)."""
    return True


def address_only(f, R, n):
    i = f.cachebag.setdefault("idx", {id(x): j for j, x in enumerate(f.nodes) if x})[id(n)]
    p = R.info(f).parent(i)
    return p is not None and f.nodes[p]["k"] == "Un" and f.nodes[p]["op"] == "&"
