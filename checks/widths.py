"""P18: column widths of characters."""
import os, re, unicodedata
import ir, extract, protocol
import pointsets as ps
from pointsets import elems
from check import Check
from extract import AnalysisBroken

U3 = unicodedata.ucd_3_2_0
DIR = "clink/terminal/src/"


def emoji_file(name):
    s = set()
    p = os.path.join(extract.REPO, DIR, name)
    for line in open(p, encoding="utf-8", errors="replace"):
        m = re.match(r"([0-9A-Fa-f]+) ", line)
        if m:
            s.add(int(m.group(1), 16))
    if not s:
        raise AnalysisBroken("no characters in " + name)
    return ps.norm([(x, x) for x in s])


def uni(pred):
    return ps.norm([(c, c) for c in range(0x110000) if pred(chr(c))])


def tables(c, prog):
    T, where = {}, {}
    for g in ir.globals_of(prog):
        i = g.d.get("i")
        if i is not None and i >= 0 and g.file.startswith(DIR):
            r = ps.table_of(g, g.n(i))
            if r and pairs_of_chars(g, g.type(g.d["t"])):
                T[g.name] = r
                where[g.name] = (g.name, g.file, g.line)
    for f in prog.in_files(DIR):
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for d in n.get("ds", ()):
                    i = d.get("i")
                    if i is not None and i >= 0 and pairs_of_chars(f, f.vtype(d["v"])):
                        r = ps.table_of(f, f.n(i))
                        if r:
                            T[(f.usr, d["v"])] = r
                            where[(f.usr, d["v"])] = (f.vars[d["v"]]["n"], f.file, n["l"])
    return T, where


def pairs_of_chars(f, t):
    e = f.elt(t)
    return e is not None and e.get("k") == "rec" and e.get("s", "").split()[-1].endswith("interval")


def lin(f, n, env):
    """(symbol, constant) of an index expression."""
    n = f.strip(n)
    if n is None:
        return None
    if isinstance(n.get("v"), int):
        return ("", n["v"])
    if n["k"] == "Ref" and "d" in n:
        return env.get(n["d"], (n["n"], 0))
    if n["k"] == "Bin" and n["op"] in "+-":
        a, b = lin(f, f.kid(n, 0), env), lin(f, f.kid(n, 1), env)
        if a and b and b[0] == "":
            return (a[0], a[1] + (b[1] if n["op"] == "+" else -b[1]))
        if a and b and a[0] == "" and n["op"] == "+":
            return (b[0], a[1] + b[1])
    return None


def search(c, f):
    """The loop of a bisection: bounds move past the probed row only in the direction the comparison allows."""
    vs = f.vars
    ps_ = f.d.get("params", ())
    x = [v for v in ps_ if f.vtype(v)["k"] == "int" and "char32" in f.vtype(v).get("c", f.vtype(v)["s"]) + f.vtype(v)["s"]]
    if len(x) != 1:
        return
    x = x[0]

    def probe(n):
        """(field, index symbol) of table[i].first"""
        n = f.strip(n)
        if n is not None and n["k"] == "Member" and n.get("m") in ("first", "last"):
            b = f.strip(f.kid(n, 0))
            if b is not None and b["k"] == "Index":
                return n["m"], f.kid(b, 1)
        return None
    heads = set()
    color = {}

    def dfs(b):
        color[b] = 1
        for s in f.blocks[b]["s"]:
            if s is None or s < 0:
                continue
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                dfs(s)
        color[b] = 2
    dfs(f.entry)
    if len(heads) != 1:
        return
    head = heads.pop()
    paths = []

    def walk(b, env, facts, upd, first, depth):
        if depth > 40 or len(paths) > 200:
            return
        if b == head and not first:
            paths.append(("back", facts, upd, None))
            return
        bl = f.blocks[b]
        env, upd = dict(env), dict(upd)
        for e in elems(bl):
            n = f.n(e)
            if n is None:
                continue
            if n["k"] == "Return":
                r = f.strip(f.kid(n, 0))
                paths.append(("ret", facts, upd, r.get("v") if r is not None else None))
                return
            if n["k"] == "Asg" and n["op"] == "=":
                l = f.strip(f.kid(n, 0))
                if l is not None and l["k"] == "Ref" and "d" in l:
                    t = lin(f, f.kid(n, 1), env)
                    r = f.strip(f.kid(n, 1))
                    env[l["d"]] = t if t else (vs[l["d"]]["n"], 0)
                    if t is None:
                        env[l["d"]] = ("mid" if "/" in f.text(r) or ">>" in f.text(r) else "?", 0)
                    upd[l["d"]] = env[l["d"]]
            if n["k"] == "DeclStmt":
                for d in n.get("ds", ()):
                    if d.get("i") is not None and d["i"] >= 0:
                        t = lin(f, f.n(d["i"]), env)
                        tx = f.text(f.strip(f.n(d["i"])))
                        env[d["v"]] = t if t else (("mid" if "/" in tx or ">>" in tx else "?"), 0)
        suc = [s for s in bl["s"]]
        tc = bl.get("tc")
        if len(suc) == 1 or tc is None:
            for s in suc:
                if s is not None and s >= 0:
                    walk(s, env, facts, upd, False, depth + 1)
            return
        n = f.strip(f.n(tc))
        for s, t in zip(suc, (True, False)):
            if s is None or s < 0:
                continue
            fa = facts
            if n is not None and n["k"] == "Bin" and n["op"] in ("<", "<=", ">", ">="):
                op = n["op"]
                a, b_ = f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1))
                pa, pb = probe(a), probe(b_)
                if pa and b_["k"] == "Ref" and b_.get("d") == x:
                    a, b_, pa, pb, op = b_, a, pb, pa, ps.SWAP[op]
                if not t:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
                if pb and a["k"] == "Ref" and a.get("d") == x:
                    fa = facts | {("x", op, pb[0], lin(f, pb[1], env))}
                else:
                    la, lb = lin(f, a, env), lin(f, b_, env)
                    if la and lb:
                        fa = facts | {("i", op, la, lb)}
            walk(s, env, fa, upd, False, depth + 1)
    walk(head, {}, frozenset(), {}, True, 0)
    mids = {k[3] for _, fs, _, _ in paths for k in fs if k[0] == "x"}
    if not paths or not mids or any(m is None or m[0] != "mid" for m in mids):
        return              # not a bisection this rule knows: nothing is claimed about it
    c.count("searches")
    for kind, fs, upd, ret in paths:
        above = any(k[0] == "x" and k[2] == "last" and k[1] == ">" for k in fs)
        below = any(k[0] == "x" and k[2] == "first" and k[1] == "<" for k in fs)
        c.count("search_paths")
        bad = None
        if kind == "ret" and ret == 1:
            if not any(k[:3] == ("x", "<=", "last") for k in fs) or not any(k[:3] == ("x", ">=", "first") for k in fs):
                bad = "reports a hit without having found the character between first and last of the probed row"
        elif kind == "ret" and ret == 0 and not any(k[0] == "x" for k in fs):
            cmp = [k for k in fs if k[0] == "i"]
            if cmp and any(k[1] in ("<=", ">=") for k in cmp):
                bad = "gives up while a row is still unexamined"
        elif kind == "back":
            for v, t in upd.items():
                if t[0] != "mid" or t[1] == 0 and above + below == 0:
                    continue
                if t[1] == 0 and (above or below):
                    if vs[v]["n"] not in ("mid",) and any(u != v and upd[u][0] == "mid" for u in upd):
                        bad = "moves a bound onto the probed row instead of past it"
                elif above and t[1] != 1 or below and t[1] != -1 or not above and not below:
                    bad = "moves a bound to a row other than the one next to the probed row"
        if bad:
            c.violation("search %s" % f.name, f.file, f.line, "%s: %s" % (f.name, bad))


def table_rules(c, T, where):
    for k, rows in T.items():
        nm, file, line = where[k]
        c.count("tables")
        c.count("rows", len(rows))
        last = -1
        for a, b in rows:
            if a > b:
                c.violation("row %s %x" % (nm, a), file, line, "%s: range %X..%X ends before it starts, so the search never matches it" % (nm, a, b))
            elif a <= last:
                c.violation("order %s %x" % (nm, a), file, line, "%s: range %X..%X is not above the one before it (the table is searched by bisection)" % (nm, a, b))
            last = max(last, b)


def widths():
    c = Check("P18", "piecewise evaluation of the width functions over all code points, compared with the Unicode data and the emoji lists; range tables sorted, disjoint and searched whole")
    prog = ir.load()
    T, where = tables(c, prog)
    table_rules(c, T, where)
    c.need("tables", 5)
    rows_name = {id(v): where[k] for k, v in T.items()}
    searchers = set()

    def on_lookup(f, n, g, rows, cnt):
        c.count("lookups")
        searchers.add(g.usr)
        nm, file, line = rows_name[id(rows)]
        if cnt is not None and cnt != len(rows) - 1 and cnt != len(rows):
            c.violation("extent %s %s" % (f.name, nm), f.file, n["l"], "%s: the search of %s is told its last row is %d, but it has %d rows" % (f.name, nm, cnt, len(rows)))
        elif cnt is not None and cnt == len(rows) and probes_last(g):
            c.violation("extent %s %s" % (f.name, nm), f.file, n["l"], "%s: the search of %s starts past its last row" % (f.name, nm))

    def piece(name, **kw):
        f = prog.fn(name)
        ev = ps.Eval(prog, T, opaque={"resolve_ambiguous_wcwidth"}, on_lookup=on_lookup, **kw)
        try:
            outs = ev.function(f, ((0, 0x10ffff),), [("x", 0)], frozenset())
        except ps.Unknown as e:
            c.count("unmodelled")
            c.notes.append(str(e))
            c.cov.setdefault("incomplete", []).append(str(e))
            return f, None
        c.count("pieces", len(outs))
        c.count("functions")
        return f, outs

    lists = {n: emoji_file("emoji-%s.txt" % n) for n in ("test", "filter", "fe0f", "mono")}
    emojis = ps.minus(lists["test"], lists["filter"])
    comb3 = ps.minus(uni(lambda ch: U3.category(ch) in ("Mn", "Me", "Cf")), ((0, 0xff), (0x180e, 0x180e)))
    combany = ps.norm(list(uni(lambda ch: unicodedata.category(ch) in ("Mn", "Me", "Cf"))) + list(uni(lambda ch: U3.category(ch) in ("Mn", "Me", "Cf"))) + [(0x1160, 0x11ff), (0x6dd, 0x6de), (0x1f3fb, 0x1f3ff)])
    wide3 = ps.minus(uni(lambda ch: U3.category(ch) != "Cn" and U3.east_asian_width(ch) in "WF"), combany)
    narrow = ps.minus(uni(lambda ch: unicodedata.category(ch) != "Cn" and unicodedata.east_asian_width(ch) in ("N", "Na", "H")), combany)
    narrow = ps.inter(narrow, ((0xa0, 0x10ffff),))
    ambig = ps.minus(uni(lambda ch: unicodedata.east_asian_width(ch) == "A"), combany)
    amb3 = ps.minus(uni(lambda ch: U3.category(ch) != "Cn" and U3.east_asian_width(ch) == "A"), ps.norm(list(comb3) + [(0xad, 0xad)]))
    CTRL, ASCII, NUL = ((1, 0x1f), (0x7f, 0x9f)), ((0x20, 0x7e),), ((0, 0),)
    bmp, beyond = ((0, 0xffff),), ((0x10000, 0x10ffff),)

    def expect(f, outs, pts, val, what, env=()):
        """Every character of pts gets one of the values in val under assumptions compatible with env."""
        c.count("obligations")
        val = val if isinstance(val, (tuple, set)) else (val,)
        for o in outs:
            if any((k, not t) in o.env for k, t in env) or o.val in val:
                continue
            hit = ps.inter(o.pts, pts)
            if hit:
                w = {"s_combining_mark_width": "that of a combining mark", "resolve_ambiguous_wcwidth": "that of an ambiguous character"}.get(o.val, o.val)
                under = ", ".join("%s=%s" % (k, str(t).lower()) for k, t in sorted(o.env))
                c.violation("%s %s" % (f.name, what), f.file, f.line, "%s: the width of %s (%s) is %s%s, not %s" % (f.name, what, ps.show(hit), w, " when " + under if under else "", "/".join(map(str, val))))
                return

    COMB, AMB = "s_combining_mark_width", "resolve_ambiguous_wcwidth"
    for name in ("mk_wcwidth", "mk_wcwidth_cjk", "mk_wcwidth_ucs2", "mk_wcwidth_cjk_ucs2"):
        f, outs = piece(name)
        if outs is None:
            continue
        cjk, ucs2 = "cjk" in name, "ucs2" in name
        off = () if ucs2 else (("g_color_emoji", False),)
        on = (("g_color_emoji", True),)
        expect(f, outs, NUL, 0, "NUL")
        expect(f, outs, CTRL, -1, "control characters")
        expect(f, outs, ASCII, 1, "printable ASCII")
        noamb = (lambda s: ps.minus(s, ps.norm(list(ambig) + [(0x2614, 0x2615)]))) if cjk else (lambda s: s)
        if cjk:
            expect(f, outs, amb3, AMB, "East Asian ambiguous characters")
            for o in outs:
                if o.val == AMB:
                    x = ps.minus(o.pts, ps.norm(list(uni(lambda ch: unicodedata.east_asian_width(ch) == "A")) + [(0x2614, 0x2615)]))
                    if x:
                        c.violation("%s ambiguous" % name, f.file, f.line, "%s: %s are not East Asian ambiguous characters" % (name, ps.show(x)))
        else:
            for o in outs:
                if o.val == AMB:
                    c.violation("%s ambiguous" % name, f.file, f.line, "%s: ambiguous characters are resolved though ambiguous width is not in effect" % name)
        plain = ps.minus(comb3, emojis)
        expect(f, outs, noamb(plain), COMB, "combining and format characters", off)
        for o in outs:
            if o.val == COMB:
                x = ps.minus(o.pts, combany)
                if x:
                    c.violation("%s combining" % name, f.file, f.line, "%s: %s are neither combining marks nor format characters" % (name, ps.show(x)))
        if not ucs2:
            expect(f, outs, noamb(wide3), 2, "East Asian wide characters", off)
            expect(f, outs, noamb(narrow), (1, COMB), "narrow characters", off)
            em = ps.inter(emojis, ((0xa0, 0x10ffff),))
            expect(f, outs, noamb(ps.minus(em, lists["fe0f"])), 2, "emoji", on)
            expect(f, outs, noamb(ps.inter(lists["fe0f"], ((0xa0, 0x10ffff),))), 1, "emoji that are half width unless qualified", on)
            rest = ps.minus(noamb(narrow), ps.norm(list(emojis) + list(lists["fe0f"])))
            expect(f, outs, rest, (1, COMB), "narrow characters that are not emoji", on)
            expect(f, outs, ps.minus(noamb(wide3), lists["fe0f"]), 2, "East Asian wide characters that are not emoji", on)
            expect(f, outs, noamb(ps.minus(plain, lists["fe0f"])), COMB, "combining characters that are not emoji", on)
        else:
            w10, w11 = (("s_win10", True),), (("s_win10", True), ("s_win11", False))
            expect(f, outs, noamb(ps.minus(beyond, combany)), 2, "characters outside the basic plane")
            expect(f, outs, noamb(ps.inter(wide3, bmp)), 2, "East Asian wide characters", w10)
            expect(f, outs, noamb(ps.inter(narrow, bmp)), (1, COMB), "narrow characters", w11)
            expect(f, outs, ps.inter(ps.minus(noamb(narrow), emojis), bmp), (1, COMB), "narrow characters that are not emoji", w10)
            expect(f, outs, noamb(ps.minus(((0x100, 0xffff),), combany)), (1, COMB), "characters of the basic plane", (("s_win10", False),))
    for name, want in (("is_emoji", emojis), ("is_possible_unqualified_half_width", lists["fe0f"]), ("is_variant_selector", ((0xfe0f, 0xfe0f), (0x1f3fb, 0x1f3ff)))):
        f, outs = piece(name)
        if outs is None:
            continue
        for o in outs:
            c.count("obligations")
            if o.val not in (0, 1):
                continue
            x = ps.minus(o.pts, want) if o.val else ps.inter(o.pts, want)
            if x:
                c.violation("%s %s" % (name, o.val), f.file, f.line, "%s: answers %s for %s" % (name, "yes" if o.val else "no", ps.show(x)))
    # the generated tables are the lists
    for nm, want in (("emojis", emojis), ("possible_unqualified_half_width", lists["fe0f"]), ("mono_emojis", lists["mono"])):
        if nm not in T:
            continue
        c.count("generated_tables")
        got = ps.norm(T[nm])
        for d, how in ((ps.minus(want, got), "lacks"), (ps.minus(got, want), "has")):
            if d:
                c.violation("generated %s" % nm, where[nm][1], where[nm][2], "%s %s %s, unlike the list it is generated from" % (nm, how, ps.show(d)))
    # the resolution of ambiguous widths
    enums = {}
    for f in prog.in_files(DIR + "wcwidth.cpp"):
        for n in f.nodes:
            if n and n["k"] == "Ref" and n.get("dk") == "ec":
                enums[n["n"]] = n["v"]
    for en, want in (("EAA_one", 1), ("EAA_two", 2)):
        if en not in enums:
            raise AnalysisBroken(en + " not found")
        f = prog.fn("resolve_ambiguous_wcwidth")
        ev = ps.Eval(prog, T, bound={"s_resolve": enums[en]})
        try:
            outs = ev.function(f, ((0xa1, 0xa1),), [("x", 0)], frozenset())
        except ps.Unknown as e:
            c.cov.setdefault("incomplete", []).append(str(e))
            continue
        c.count("obligations")
        for o in outs:
            if o.val != want:
                c.violation("ambiguous %s" % en, f.file, f.line, "resolve_ambiguous_wcwidth: an ambiguous character has width %s when the setting asks for %d" % (o.val, want))
    for u in sorted(searchers):
        search(c, prog.funcs[u])
    for short, w in (("zeroctrl", 0), ("onectrl", 1), ("twoctrl", 2), ("signed", -1)):
        f = prog.fn("wcwidth_iter::character_wcwidth_" + short)
        for field, want in ((-1, w), (0, 0), (1, 1), (2, 2)):
            c.count("obligations")
            for o in ps.Eval(prog, T, bound={"m_chr_wcwidth": field}).function(f, ((0, 0),), [], frozenset()):
                if isinstance(o.val, int) and o.val != want:
                    c.violation("counts %s" % f.name, f.file, f.line, "%s: answers %d for a run of width %d" % (f.name, o.val, field))
    for name, short in (("clink_wcswidth", "onectrl"), ("clink_wcswidth_expandctrl", "twoctrl")):
        f = prog.fn(name)
        got = {n["n"].rsplit("_", 1)[1] for g in [f] + [prog.funcs[u] for u in prog.callees_of(f) if not prog.funcs[u].name.startswith("wcwidth_iter::")] for n in g.calls() if n.get("n", "").startswith("wcwidth_iter::character_wcwidth_")}
        c.count("obligations")
        if got and got != {short}:
            c.violation("counts %s" % name, f.file, f.line, "%s: adds up the %s widths, not the %s widths" % (name, "/".join(sorted(got)), short))
    selection(c, prog)
    runs(c, prog)
    c.need("functions", 6)
    c.need("lookups", 8)
    c.need("obligations", 50)
    return c


def probes_last(g):
    """Does the search read table[max] (so that max is the last row and not the count)?"""
    names = {g.vars[v]["n"]: v for v in g.d.get("params", ())}
    for n in g.nodes:
        if n and n["k"] == "Index":
            i = g.strip(g.kid(n, 1))
            if i is not None and i["k"] == "Ref" and i.get("d") in names.values():
                return True
    return False


def selection(c, prog):
    """Which of the four functions is installed."""
    names = {"mk_wcwidth": (0, 0), "mk_wcwidth_cjk": (1, 0), "mk_wcwidth_ucs2": (0, 1), "mk_wcwidth_cjk_ucs2": (1, 1)}
    f = prog.fn("reset_wcwidths")

    def pick(n, asm, out):
        n = f.strip(n)
        if n is None:
            return
        if n["k"] == "Cond":
            ks = f.kids(n)
            t = f.text(f.strip(ks[0]))
            neg = t.startswith("!")
            t = t.lstrip("!")
            if (t, neg) not in asm:
                pick(ks[1], asm | {(t, not neg)}, out)
            if (t, not neg) not in asm:
                pick(ks[2], asm | {(t, neg)}, out)
        elif n["k"] == "Un" and n.get("op") == "&":
            pick(f.kid(n, 0), asm, out)
        elif n["k"] == "Ref" and n.get("n") in names:
            out.append((n["n"], asm))
    got = []

    def walk(b, asm, seen):
        if b in seen or len(seen) > 60:
            return
        bl = f.blocks[b]
        for e in elems(bl):
            n = f.n(e)
            if n is not None and n["k"] == "Asg" and n["op"] == "=":
                l = f.strip(f.kid(n, 0))
                if l is not None and l["k"] == "Ref" and l.get("n") == "wcwidth":
                    pick(f.kid(n, 1), asm, got)
        suc, tc = bl["s"], bl.get("tc")
        n = f.strip(f.n(tc)) if tc is not None else None
        for i, s in enumerate(suc):
            if s is None or s < 0:
                continue
            a = asm
            if n is not None and len(suc) == 2 and n["k"] in ("Ref", "Un"):
                t = f.text(n)
                neg = t.startswith("!")
                a = asm | {(t.lstrip("!"), (i == 0) != neg)}
            walk(s, a, seen | {b})
    walk(f.entry, frozenset(), frozenset())
    for nm, asm in set(got):
        c.count("selections")
        cjk, ucs2 = names[nm]
        d = dict(asm)
        if d.get("s_only_ucs2") not in (None, bool(ucs2)):
            c.violation("selection %s" % nm, f.file, f.line, "reset_wcwidths: %s is installed when the console %s limited to UCS2" % (nm, "is not" if ucs2 else "is"))
        if d.get("use_cjk") not in (None, bool(cjk)):
            c.violation("selection %s" % nm, f.file, f.line, "reset_wcwidths: %s is installed when ambiguous width is %s in effect" % (nm, "not" if cjk else ""))


def runs(c, prog):
    """A run of wcwidth_iter ends exactly before the character held back for the next run."""
    def handler(at):
        if at.name == "str_iter_impl::get_pointer":
            return [("ptr", [])]
        return None
    fns = [f for f in prog.in_files(DIR + "wcwidth_iter.cpp") if f.cls == "wcwidth_iter" and f.blocks and not f.has("lambda")]
    for f in fns:
        ctor = f.short == "wcwidth_iter"
        for b in f.blocks.values():
            end = False
            for e in elems(b):
                n = f.n(e)
                if n is None or n["k"] != "Asg" or n["op"] != "=":
                    continue
                l, r = f.text(f.strip(f.kid(n, 0))), f.text(f.strip(f.kid(n, 1)))
                if l.endswith("m_chr_end"):
                    end = True
                if l.endswith("m_next"):
                    rn = f.strip(f.kid(n, 1))
                    if rn is None or rn["k"] != "Call" or not rn.get("n", "").endswith("::next"):
                        continue
                    c.count("advances")
                    if not end and not before(f, b["i"]):
                        c.violation("advance %s" % f.name, f.file, n["l"], "%s: reads the next character without first moving the end of the current run past the one it holds" % f.name)
                    end = False
    c.need("advances", 6)


def before(f, b):
    """m_chr_end is assigned on every path into block b after the last advance."""
    seen, work = set(), list(f.preds()[b])
    if not work:
        return False
    while work:
        p = work.pop()
        if p in seen:
            continue
        seen.add(p)
        state = None
        for e in elems(f.blocks[p]):
            n = f.n(e)
            if n is not None and n["k"] == "Asg" and n["op"] == "=":
                l = f.text(f.strip(f.kid(n, 0)))
                if l.endswith("m_chr_end"):
                    state = True
                if l.endswith("m_next"):
                    state = False
        if state is False:
            return False
        if state is None:
            if p == f.entry or not f.preds()[p]:
                return False
            work += f.preds()[p]
    return True
