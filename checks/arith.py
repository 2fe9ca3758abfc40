"""Divisors are non-zero, shift counts are smaller than the operand, character classification gets unsigned character values."""
import ir, interval
from check import Check
from bounds import SCOPE, show

CTYPE = set("isalpha isdigit isalnum isspace ispunct isupper islower isxdigit iscntrl isprint isgraph tolower toupper".split())

# (file, divisor as named in the source) -> why it cannot be zero; intervals cannot exclude zero from the middle of a range
EXC = {
    ("column_widths.cpp", "j + 1"): "j counts from zero below a column count, so j + 1 cannot wrap",
    ("column_widths.cpp", "count + j / j + 1"): "count is non-zero inside the loop over count entries",
    ("column_widths.cpp", "column_info_growth"): "the new allocation is larger than the old one on this path",
    ("display_matches.cpp", "limit"): "number of columns computed by calculate_columns, at least one",
    ("display_matches.cpp", "_rl_screenwidth"): "Readline keeps the screen width positive",
    ("rl_help.cpp", "max_width"): "screen width, positive",
    ("rl_help.cpp", "g_printer.get_columns()"): "screen width, positive",
    ("rl_help.cpp", "longest.$lambda(0)"): "sum that includes positive constants",
    ("selectcomplete_impl.cpp", "m_screen_cols"): "screen width, positive",
    ("selectcomplete_impl.cpp", "m_match_rows"): "count / columns rounded up, computed with at least one match",
    ("selectcomplete_impl.cpp", "m_match_cols"): "max(1, ...)",
    ("selectcomplete_impl.cpp", "major"): "m_match_rows or m_match_cols",
    ("textlist_impl.cpp", "divisor"): "loop condition / explicit test immediately before",
    ("vm.cpp", "get_page_size()"): "the system page size",
    ("wcwidth.cpp", "s_cell"): "tested non-zero at the top of the function",
}


def arith():
    c = Check("P08", "integer divisors cannot be zero, shift counts are within the operand's width, and <ctype.h> functions receive EOF or an unsigned char value")
    prog = ir.load()
    R = interval.Ranges(prog)
    L = []
    for f in prog.funcs.values():
        if not f.file.startswith(SCOPE):
            continue
        for n in f.nodes:
            if not n:
                continue
            if n["k"] in ("Bin", "Asg"):
                op = n["op"][:-1] if n["k"] == "Asg" else n["op"]
                if op in ("/", "%", "<<", ">>") and f.ntype(n)["k"] in ("int", "enum") and f.ntype(f.kid(n, 1))["k"] in ("int", "enum", "bool") and "v" not in n:
                    L.append((f, n, op, n["c"][1]))
                    R.want(f, n["c"][1])
            elif n["k"] == "Call" and n.get("n") in CTYPE and n.get("c"):
                L.append((f, n, "ctype", n["c"][0]))
                R.want(f, n["c"][0])
    R.solve()
    used = set()
    for f, n, op, x in L:
        c.count({"/": "divisions", "%": "divisions", "ctype": "ctype_calls"}.get(op, "shifts"))
        nd = f.nodes[x]
        v = (nd["v"], nd["v"]) if isinstance(nd.get("v"), int) else R.at(f, x)
        if v is None:
            continue    # not reached with any value
        txt = f.text(nd)
        if op in "/%":
            ok, what = v[0] > 0 or v[1] < 0, "the divisor %s may be %s" % (txt, show(v))
        elif op == "ctype":
            ok, what = v[0] >= -1 and v[1] <= 255, "%s is given %s, which may be %s" % (n["n"], txt, show(v))
        else:
            w = max(f.ntype(f.kid(n, 0)).get("z", 4) * 8, 32)
            ok, what = 0 <= v[0] and v[1] < w, "the shift count %s may be %s for a %d bit operand" % (txt, show(v), w)
        if ok:
            c.count("proved")
            continue
        key = (f.file.split("/")[-1], txt)
        if op in "/%" and key in EXC:
            used.add(key)
            continue
        c.violation("%s|%s|%s" % (f.name, op, txt), f.file, n["l"], "%s: %s" % (f.name, what))
    c.cov["exceptions"] = ["%s %s: %s" % (a, b, EXC[(a, b)]) for a, b in sorted(used)]
    c.need("divisions", 40)
    c.need("shifts", 30)
    c.need("ctype_calls", 20)
    return c
