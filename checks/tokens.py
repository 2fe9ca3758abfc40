"""P21: how command lines are split into commands, words and redirections."""
import ir, pointsets as ps
from check import Check
from extract import AnalysisBroken

FILE = "clink/lib/src/cmd_tokenisers.cpp"
INTERNAL = set("assoc break call cd chdir cls color copy date del dir dpath echo endlocal erase exit for ftype goto if md mkdir mklink move path pause popd prompt pushd rd rem ren rename rmdir "
               "set setlocal shift start time title type ver verify vol".split())
BASIC = set("assoc color ftype if set ver verify".split())     # these take word break characters as part of their input
DELIMS = set("&(=+[]\\|;:,.<>/ \t")
NAME = set("@ \t=;,(")
WORD = set(" \t\n'`=+;,()[]{}")
CLASSES = {"space": ((0, 0), (9, 9), (32, 32)), "digit": ((48, 57),), "in": ((60, 60),), "out": ((62, 62),), "amp": ((38, 38),), "pipe": ((124, 124),)}


# --- the reference: [digit] (< | << | > | >>) [& digit], a digit counting only at the start of a word ------------
def reference():
    R = {}
    R["Txt"] = dict(text="Txt", space="Spc", digit="Txt", out="O", amp="BREAK", pipe="BREAK")
    R["Txt"]["in"] = "I"
    R["Spc"] = dict(R["Txt"], digit="Dig")
    R["Dig"] = dict(R["Txt"], out="DO")
    R["Dig"]["in"] = "DI"
    for s, op in (("I", "in"), ("O", "out"), ("DI", "in"), ("DO", "out"), ("I2", None), ("O2", None), ("DI2", None), ("DO2", None)):
        r = dict(text="ARG", space="ARG", digit="ARG", out="BAD", amp="BAD", pipe="BAD")
        r["in"] = "BAD"
        if op:
            r[op] = s + "2"
        if s[0] == "D":
            r["amp"] = "ReAm"
        R[s] = r
    R["ReAm"] = {k: "BAD" for k in R["Txt"]}
    R["ReAm"]["digit"] = "AmDi"
    R["AmDi"] = {k: "VALID" for k in R["Txt"]}
    return R


OUTCOME = {"BREAK": "sBREAK", "ARG": "sARG", "VALID": "sVALID", "BAD": "sBAD"}
PLAIN = {"Txt": "sTxt", "Spc": "sSpc", "Dig": "sDig"}


def tokens():
    c = Check("P21", "characters are classified, redirections and separators recognised, and internal command names known, exactly as CMD has them")
    prog = ir.load()
    G = {g.name: g for g in ir.globals_of(prog) if g.file == FILE}
    classes(c, prog)
    table(c, prog, G)
    names(c, prog, G)
    delims(c, prog, G)
    c.need("characters", 0x110000)
    c.need("transitions", 91)
    c.need("names", 40)
    c.need("delimiter sets", 4)
    return c


def tables_of_ints(G):
    return {}


def classes(c, prog):
    """Every code point falls in the class of characters CMD puts it in."""
    fs = [f for f in prog.in_files(FILE) if f.type(f.d.get("ret", -1))["k"] == "enum" and len(f.d.get("params", ())) == 1 and f.vtype(f.d["params"][0])["k"] == "int" and f.type(f.d["ret"])["s"].endswith("input_type")]
    if len(fs) != 1:
        raise AnalysisBroken("the function that classifies characters of a command line")
    f = fs[0]
    full = ((0, 0x10ffff),)
    try:
        outs = ps.Eval(prog, {}).function(f, full, [("x", 0)], frozenset())
    except ps.Unknown as e:
        raise AnalysisBroken("classification of characters: %s" % e)
    of = {}
    for o in outs:
        if not isinstance(o.val, int):
            raise AnalysisBroken("classification of %s" % ps.show(o.pts))
        of[o.val] = ps.norm(of.get(o.val, ()) + o.pts)
    spec = dict(CLASSES)
    spec["text"] = ps.minus(full, ps.norm([x for v in CLASSES.values() for x in v]))
    c.column = {}
    for k, pts in spec.items():
        c.count("characters", ps.size(pts))
        vals = [v for v, q in of.items() if ps.inter(q, pts)]
        # the class a kind of character has, judged by a representative
        rep = pts[-1][1]
        v = [v for v, q in of.items() if ps.inter(q, ((rep, rep),))]
        c.column[k] = v[0]
        for w in vals:
            if w != v[0]:
                c.violation("class %s" % k, f.file, f.line, "%s is treated differently from other %s characters" % (ps.show(ps.inter(of[w], pts)), k))
    ks = sorted(c.column)
    for i, a in enumerate(ks):
        for b in ks[:i]:
            if c.column[a] == c.column[b]:
                c.violation("class %s %s" % (b, a), f.file, f.line, "%s and %s characters are not told apart" % (b, a))


def table(c, prog, G):
    """The transition table is the reference automaton (bisimulation from the state in which scanning starts)."""
    tabs = []
    for g in G.values():
        t = g.type(g.d["t"])
        i = g.d.get("i")
        if i is not None and i >= 0 and "tokeniser_state" in t["s"] and "[" in t["s"]:
            tabs.append((g, g.strip(g.n(i))))
    if len(tabs) != 1:
        raise AnalysisBroken("the transition table of the command line scanner")
    g, n = tabs[0]
    rows, name = [], {}
    for r in g.kids(n):
        r = g.strip(r)
        row = []
        for x in (g.kids(r) if r is not None and r["k"] == "InitList" else ()):
            x = g.strip(x)
            if x is None or x["k"] != "Ref" or x.get("dk") != "ec":
                row.append(None)
            else:
                row.append(x["v"])
                name[x["v"]] = x["n"].rsplit("::", 1)[-1]
        rows.append(row)
    val = {v: k for k, v in name.items()}
    for s in list(OUTCOME.values()) + list(PLAIN.values()):
        if s not in val:
            c.violation("state %s" % s, g.file, g.line, "no transition leads to %s" % s)
            return
    R = reference()
    seen, work = set(), [(val["sSpc"], "Spc", "")]
    while work:
        s, r, word = work.pop()
        if (s, r) in seen:
            continue
        seen.add((s, r))
        if r in PLAIN and name[s] != PLAIN[r] or r not in PLAIN and r not in OUTCOME and s <= val["sDig"]:
            c.violation("after %s" % word, g.file, g.line, "after \"%s\" the scanner is in state %s" % (word, name.get(s, s)))
            continue
        if r in OUTCOME:
            if name[s] != OUTCOME[r]:
                c.violation("after %s" % word, g.file, g.line, "\"%s\" is taken as %s instead of %s" % (word, name.get(s, s), OUTCOME[r]))
            continue
        if name[s] in OUTCOME.values():
            c.violation("after %s" % word, g.file, g.line, "\"%s\" is taken as %s" % (word, name.get(s, s)))
            continue
        if s >= len(rows):
            c.violation("row %s" % name[s], g.file, g.line, "the table has no row for state %s" % name[s])
            continue
        for k, col in c.column.items():
            c.count("transitions")
            t = rows[s][col] if col < len(rows[s]) else None
            ch = {"text": "a", "space": " ", "digit": "1", "in": "<", "out": ">", "amp": "&", "pipe": "|"}[k]
            if t is None:
                c.violation("cell %s %s" % (name[s], k), g.file, g.line, "the table has no entry for state %s and %s characters" % (name[s], k))
                continue
            work.append((t, R[r][k], word + ch))
    # the scanners compare states by order
    low = [val["sTxt"], val["sSpc"], val["sDig"]]
    if low != sorted(low) or any(v <= low[2] for k, v in val.items() if k not in PLAIN.values()):
        c.violation("state order", g.file, g.line, "text, space and digit states are not the first three, in this order")
    # scanning starts where nothing has been seen
    for f in prog.in_files(FILE):
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for d in n["ds"]:
                    if f.vtype(d["v"])["s"].endswith("tokeniser_state") and f.vtype(d["v"])["k"] == "enum" and d["i"] is not None and d["i"] >= 0:
                        x = f.strip(f.n(d["i"]))
                        if x is not None and x["k"] == "Ref" and x.get("dk") == "ec":
                            c.count("scanners")
                            if x["n"].rsplit("::", 1)[-1] != "sSpc":
                                c.violation("start %s" % f.name, f.file, n["l"], "%s starts scanning in state %s" % (f.name, x["n"]))


def strings(g):
    n = g.strip(g.n(g.d["i"]))
    if n is None:
        return None
    if n["k"] == "Str":
        return n["s"]
    if n["k"] == "InitList":
        out = []
        for k in g.kids(n):
            k = g.strip(k)
            out.append(k["s"] if k is not None and k["k"] == "Str" else None)
        return out
    return None


def names(c, prog, G):
    lists = {}
    for nm, g in G.items():
        if g.d.get("i", -1) is not None and g.d.get("i", -1) >= 0:
            v = strings(g)
            if isinstance(v, list) and any(isinstance(x, str) for x in v):
                lists[nm] = (g, v)
    for nm, (g, v) in lists.items():
        c.count("lists")
        if v[-1] is not None or None in v[:-1]:
            c.violation("end of %s" % nm, g.file, g.line, "%s does not end with a null pointer, and only there" % nm)
        for s in v:
            if s is not None and (s != s.lower() or not s.isalpha()):
                c.violation("name %s" % s, g.file, g.line, "\"%s\" is not a lower case command name" % s)
        c.count("names", len(v) - 1)
    basic = [x for n, x in lists.items() if "basicwordbreaks" in n]
    shell = [x for n, x in lists.items() if "shellwordbreaks" in n]
    if len(basic) != 1 or len(shell) != 1:
        raise AnalysisBroken("the lists of internal commands")
    for (g, v), want in ((basic[0], BASIC), (shell[0], INTERNAL - BASIC)):
        have = [s for s in v if s]
        for s in sorted(set(have) ^ want):
            c.violation("command %s" % s, g.file, g.line, "%s %s the internal command \"%s\"" % (g.name, "has" if s in have else "lacks", s))
        for s in sorted(set(have)):
            if have.count(s) > 1:
                c.violation("twice %s" % s, g.file, g.line, "\"%s\" is listed twice" % s)
    flags(c, prog, basic[0][0].name, shell[0][0].name)
    longest = max(len(s) for s in INTERNAL)
    for f in prog.in_files(FILE):
        if f.name != "cmd_state::test":
            continue
        for n in f.nodes:
            if n and n["k"] == "Bin" and n["op"] in ("<", "<=", ">", ">="):
                l, r = f.strip(f.kid(n, 0)), f.strip(f.kid(n, 1))
                if l is not None and r is not None and l["k"] == "Call" and l["n"].endswith("::length") and isinstance(r.get("v"), int) and r["v"] > 0:
                    c.count("length limits")
                    fails = {"<": lambda x: x < r["v"], "<=": lambda x: x <= r["v"], ">": lambda x: x > r["v"], ">=": lambda x: x >= r["v"]}[n["op"]]
                    if fails(longest) != fails(0):
                        c.violation("length limit", f.file, n["l"], "%s: names of %d characters are too long to be recognised" % (f.name, longest))


def flags(c, prog, basic, shell):
    fs = [f for f in prog.in_files(FILE) if f.name == "is_cmd_command"]
    if not fs:
        raise AnalysisBroken("is_cmd_command")
    f = fs[0]
    src = {}
    for n in f.nodes:
        if n and n["k"] == "DeclStmt":
            for d in n["ds"]:
                if d["i"] is not None and d["i"] >= 0:
                    x = f.strip(f.n(d["i"]))
                    while x is not None and x["k"] in ("Un", "Bin", "Index") and f.kids(x):
                        x = f.strip(f.kid(x, 0))
                    if x is not None and x["k"] == "Ref" and x.get("dk") == "g":
                        src[d["v"]] = x["n"]
    ec = {}
    for n in f.nodes:
        if n and n["k"] == "Ref" and n.get("dk") == "ec":
            ec[n["n"].rsplit("::", 1)[-1]] = n["v"]
    want = {"rem": 7, basic: 1, shell: 3}
    at = {}
    for n in f.nodes:
        if n and n["k"] == "Call" and n.get("n", "").rsplit("::", 1)[-1] in ("emplace", "insert", "try_emplace") and len(n.get("c", ())) == 2:
            k, v = [f.strip(x) for x in f.args(n)]
            while k is not None and k["k"] in ("Un", "Bin", "Index"):
                k = f.strip(f.kid(k, 0))
            key = k["s"] if k is not None and k["k"] == "Str" else src.get(k.get("d")) if k is not None and k["k"] == "Ref" else None
            at.setdefault(key, n)
            val = value(f, v)
            c.count("flag sets")
            if key in want and val is not None and val != want[key]:
                c.violation("flags %s" % key, f.file, n["l"], "%s: %s is registered with flags %d instead of %d" % (f.name, key, val, want[key]))
    if "rem" in at and shell in at:
        # the first registration of a name stands
        for bi, b in f.blocks.items():
            if b and any(isinstance(e, int) and f.n(e) is at[shell] for e in b.get("e", ())):
                if not dominated(f, at["rem"], bi):
                    c.violation("order rem", f.file, at["rem"]["l"], "%s: \"rem\" is registered with the flags of the other commands first" % f.name)


def dominated(f, node, bi):
    seen, work = set(), [f.entry]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(isinstance(e, int) and f.n(e) is node for e in f.blocks[b].get("e", ())):
            continue
        if b == bi:
            return False
        work += [s for s in f.blocks[b]["s"] if s is not None and s >= 0]
    return True


def value(f, n):
    n = f.strip(n)
    if n is None:
        return None
    if isinstance(n.get("v"), int):
        return n["v"]
    if n["k"] in ("Call", "Bin") and len(f.kids(n)) >= 2 and (n["k"] == "Bin" and n["op"] == "|" or n.get("n", "").endswith("operator|")):
        a, b = value(f, f.kids(n)[0]), value(f, f.kids(n)[1])
        return None if a is None or b is None else a | b
    if n["k"] in ("Cast", "Construct") and f.kids(n):
        return value(f, f.kids(n)[0])
    return None


def delims(c, prog, G):
    S = {nm: (g, strings(g)) for nm, g in G.items() if g.d.get("i", -1) is not None and g.d.get("i", -1) >= 0 and isinstance(strings(g), str)}
    d = [x for n, x in S.items() if n.endswith("c_command_delimiters")]
    if len(d) != 1:
        raise AnalysisBroken("the characters that end an internal command name")
    c.count("delimiter sets")
    diff(c, d[0][0], set(d[0][1]), DELIMS)
    fs = [f for f in prog.in_files(FILE) if f.name == "get_delims"]
    if len(fs) != 1:
        raise AnalysisBroken("get_delims")
    f = fs[0]
    for cw in (0, 1):
        for ra in (0, 1):
            for iw in (0, 1):
                want = NAME if ra or cw and not iw else NAME | {"/"} if cw else WORD
                try:
                    outs = ps.Eval(prog, {}).function(f, ((0, 0),), [cw, ra, iw], frozenset())
                except ps.Unknown as e:
                    raise AnalysisBroken("get_delims: %s" % e)
                for o in outs:
                    nm = str(o.val)
                    if nm not in S:
                        raise AnalysisBroken("get_delims returns %s" % nm)
                    c.count("delimiter sets")
                    have = set(S[nm][1])
                    if have != want:
                        c.violation("delimiters %d%d%d" % (cw, ra, iw), f.file, f.line, "word breaks %s are %s, expected %s" % (
                            "in a redirection argument" if ra else "in a command word" if cw and iw else "before a command word" if cw else "in an argument", "".join(sorted(have)).encode("unicode_escape").decode(), "".join(sorted(want)).encode("unicode_escape").decode()))


def diff(c, g, have, want):
    for x in sorted(have ^ want):
        c.violation("delimiter %r" % x, g.file, g.line, "%s %s %r" % (g.name, "has" if x in have else "lacks", x))
