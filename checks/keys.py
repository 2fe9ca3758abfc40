"""P15: key bindings, commands and key sequences."""
import re
import ir, formats
from check import Check
from extract import AnalysisBroken

MODS = [1, 2, 5, 6, 3, 4, 7, 8]     # xterm modifier number for each index of the modified key tables
CHORD = re.compile(r"^(?:\\C-\\M-.|\\M-\\C-.|\\[CM]-(?:\\\\|[^\\])|\\[edabfnrtv\\\"']|\\[0-7]{1,3}|\\x[0-9a-fA-F]{1,2}|[^\\])+$")
BIND = re.compile(r"^(?:\\[et r\"\\]|\\\\|\\C-.|\\M-.|\^.|[^\\])*\\?$")


def strs(g, n):
    return [(k["s"] if k is not None and k["k"] == "Str" else None) for k in map(g.strip, g.kids(n))]


def translate(ch):
    """Readline's notation to the characters it stands for."""
    out, i = "", 0
    esc = {"e": "\x1b", "d": "\x7f", "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
    while i < len(ch):
        if ch[i] == "\\" and i + 1 < len(ch):
            meta = ctrl = False
            while ch[i:i + 3] in ("\\C-", "\\M-"):
                ctrl |= ch[i + 1] == "C"
                meta |= ch[i + 1] == "M"
                i += 3
            if meta or ctrl:
                c = ch[i]
                i += 1
                if c == "\\":
                    c = ch[i]
                    i += 1
                if ctrl:
                    c = "\x7f" if c == "?" else chr(ord(c.upper()) & 0x1f)
                out += ("\x1b" if meta else "") + c
                continue
            out += esc.get(ch[i + 1], ch[i + 1])
            i += 2
        elif ch[i] == "^" and i + 1 < len(ch):
            out += chr(ord(ch[i + 1].upper()) & 0x1f)
            i += 2
        else:
            out += ch[i]
            i += 1
    return out


def terminal_tables(prog, c):
    """The sequences the terminal layer sends, and their slots."""
    seqs = {}
    for g in ir.globals_of(prog):
        if not g.file.endswith("win_terminal_in.cpp") or g.d.get("i", -1) < 0:
            continue
        n = g.strip(g.nodes[g.d["i"]])
        if n["k"] == "Str" and n["s"].startswith("\x1b"):
            seqs.setdefault(n["s"], []).append((g, 0, n["l"]))
            c.count("key_sequences")
            continue
        if n["k"] != "InitList":
            continue
        ss = strs(g, n)
        if len(ss) < 8 or any(s is None for s in ss) or not any(s.startswith("\x1b") for s in ss):
            continue
        c.count("key_tables")
        for i, s in enumerate(ss):
            if not s:
                continue
            c.count("key_sequences")
            seqs.setdefault(s, []).append((g, i, n["l"]))
            if len(ss) == 8:
                want = MODS[i]
                m = re.match(r"^\x1b\[(?:27;(\d+);\d+~|\d+;(\d+)[A-Z~])$", s)
                have = int(m.group(1) or m.group(2)) if m else None
                if m and have != want:
                    c.violation("%s[%d]" % (g.name, i), g.file, n["l"], "%s: the sequence for modifier index %d says modifier %d, but xterm's number for it is %d" % (g.name, i, have, want))
                base = re.sub(r"[0-9;]*", "", ss[0]) if ss[0] else None
                if m and base and base.startswith("\x1b[") and not m.group(1) and re.sub(r"[0-9;]*", "", s) != base:
                    c.violation("%s[%d]|final" % (g.name, i), g.file, n["l"], "%s: the sequence at modifier index %d belongs to another key than the unmodified one" % (g.name, i))
            elif len(ss) % 12 == 0:
                want = MODS[i // 12]
                alt = want in (3, 4, 7, 8)
                m = re.match(r"^(\x1b?)\x1b(?:\[(?:(\d+)(?:;(\d+))?~|1;(\d+)([PQRS]))|O([PQRS]))$", s)
                if not m:
                    c.violation("%s[%d]|form" % (g.name, i), g.file, n["l"], "%s: entry %d is not a function key sequence" % (g.name, i))
                    continue
                mod = int(m.group(3) or m.group(4) or 1)
                fin = m.group(5) or m.group(6) or m.group(2)
                exp = {3: 1, 4: 2, 7: 5, 8: 6}.get(want, want)
                if bool(m.group(1)) != alt or mod != exp:
                    c.violation("%s[%d]" % (g.name, i), g.file, n["l"], "%s: entry %d encodes other modifiers than its position" % (g.name, i))
                if fin != ["P", "Q", "R", "S", "15", "17", "18", "19", "20", "21", "23", "24"][i % 12]:
                    c.violation("%s[%d]|key" % (g.name, i), g.file, n["l"], "%s: entry %d encodes another function key than its position" % (g.name, i))
    for s, where in sorted(seqs.items()):
        slots = {(g.name, i) for g, i, _ in where}
        if len(slots) > 1 and s != "\x1b[Z":
            g, i, l = where[0]
            c.violation("sequence %r" % s, g.file, l, "two different keys send the same sequence %r: %s" % (s, ", ".join("%s[%d]" % x for x in sorted(slots))))
    names(prog, c)
    return set(seqs)


VK = {0x26: "Up", 0x28: "Down", 0x25: "Left", 0x27: "Right", 0x24: "Home", 0x23: "End", 0x2d: "Ins", 0x2e: "Del", 0x21: "PgUp", 0x22: "PgDn", 0x08: "Bkspc", 0x09: "Tab",
      0x20: "Space", 0x0d: "Enter"}


def names(prog, c):
    """The key whose table is sent for a virtual key code is the one it is displayed as."""
    tables = {g.name for g in ir.globals_of(prog) if g.file.endswith("win_terminal_in.cpp")}
    arrays = {g.name for g in ir.globals_of(prog) if g.name in tables and g.d.get("i", -1) >= 0 and g.strip(g.nodes[g.d["i"]])["k"] == "InitList" and len(strs(g, g.strip(g.nodes[g.d["i"]]))) == 8}
    shown, sent = {}, {}
    for f in prog.funcs.values():
        if not f.file.endswith("win_terminal_in.cpp"):
            continue
        for n in f.calls():
            a = f.args(n)
            if n["k"] == "Call" and len(a) >= 3 and a[0] is not None:
                t = [x["n"] for x in f.deep(a[0]) if x["k"] == "Ref" and x.get("n") in tables]
                lit = formats.literals(f, a[1]) if a[1] is not None else None
                if t and lit and len(lit) == 1:
                    shown.setdefault(t[0], []).append((lit[0], f, n))
        for b in f.blocks.values():
            tc = f.nodes[b["tc"]] if b.get("tc", -1) >= 0 else None
            if b.get("tk") != "SwitchStmt" or tc is None:
                continue
            for s in b["s"]:
                if s < 0:
                    continue
                vals = [f.nodes[q].get("v") for q in f.blocks[s].get("case", ())]
                for e in f.blocks[s].get("e", ()):
                    x = f.nodes[e] if isinstance(e, int) and e >= 0 else None
                    if x and x["k"] == "Asg":
                        r = f.strip(f.kid(x, 1))
                        if r is not None and r["k"] == "Ref" and r.get("n") in tables:
                            for v in vals:
                                sent.setdefault(r["n"], []).append((v, f, x))
        for x in f.nodes:
            if x and x["k"] == "InitList":
                ss = strs(f, x)
                if len(ss) == 8 and all(s is not None for s in ss) and any("C-" in s for s in ss):
                    c.count("modifier_name_tables")
                    # indexed like the key tables, or by xterm's modifier number
                    like_tables = any(y and y["k"] == "Ref" and y.get("n") in arrays for y in f.nodes)
                    want = [("A-" if i & 4 else "") + ("C-" if i & 2 else "") + ("S-" if i & 1 else "") for i in range(8)]
                    if not like_tables:
                        want = [("A-" if i & 2 else "") + ("C-" if i & 4 else "") + ("S-" if i & 1 else "") for i in range(8)]
                    for i, s in enumerate(ss):
                        if sorted(s) != sorted(want[i]):
                            c.violation("%s|modifier %d" % (f.name, i), f.file, x["l"], "%s: modifier index %d is displayed as \"%s\" instead of \"%s\"" % (f.name, i, s, want[i]))
    for t, e in sorted(sent.items()):
        for v, f, x in e:
            c.count("keys_sent")
            for nm, f2, n2 in shown.get(t, ()):
                if v in VK and nm != VK[v]:
                    c.violation("%s|%s" % (t, nm), f2.file, n2["l"], "%s is sent for the %s key but displayed as %s" % (t, VK[v], nm))
            if t not in shown:
                c.violation("%s|name" % t, f.file, x["l"], "%s is sent for a key but has no displayed name" % t)
    c.need("keys_sent", 11)
    c.need("modifier_name_tables", 2)


OEM = {"/": 191, "-": 189, "=": 187, ",": 188, ".": 190, ";": 186, "[": 219, "\\": 220, "]": 221, "'": 222, "`": 192}
# documented keys that are not sequences in a key map
DOC_EXC = {
    ("self-insert", ""): "stands for all printable characters",
    ("digit-argument", ""): "stands for ten keys",
    ("do-lowercase-version", ""): "stands for 26 keys",
    ("clink-exit", "Alt-F4"): "handled by the terminal layer (cmd.altf4_exits)",
}


def table_of_names(prog):
    """Display name -> sequences by modifier index."""
    out = {}
    arr = {g.name: [x or "" for x in strs(g, g.strip(g.nodes[g.d["i"]]))] for g in ir.globals_of(prog) if g.file.endswith("win_terminal_in.cpp") and g.d.get("i", -1) >= 0 and g.strip(g.nodes[g.d["i"]])["k"] == "InitList"}
    for f in prog.funcs.values():
        if f.file.endswith("win_terminal_in.cpp"):
            for n in f.calls():
                a = f.args(n)
                if n["k"] == "Call" and len(a) >= 3 and a[0] is not None:
                    t = [x["n"] for x in f.deep(a[0]) if x["k"] == "Ref" and len(arr.get(x.get("n"), ())) == 8]
                    lit = formats.literals(f, a[1]) if a[1] is not None else None
                    if t and lit and len(lit) == 1:
                        out[lit[0]] = arr[t[0]]
    for k, v in arr.items():
        if len(v) == 96:
            for i in range(12):
                out["F%d" % (i + 1)] = [v[m * 12 + i] for m in range(8)]
    return out


def candidates(key, tables):
    """The sequences one documented key may send."""
    mods = 0
    while True:
        m = re.match(r"^(Shift|Ctrl|Alt)-(.+)$", key)
        if not m:
            break
        mods |= {"Shift": 1, "Ctrl": 2, "Alt": 4}[m.group(1)]
        key = m.group(2)
    key = {"Backspace": "Bkspc", "Delete": "Del", "Insert": "Ins"}.get(key, key)
    out = set()
    if key in tables and tables[key][mods]:
        out.add(tables[key][mods])
    if key == "Esc":
        out |= {"\x1b", "\x1b[27;27~"}
    if key == "Enter":
        out.add("\r")
    if key == "Bkspc" and not mods:
        out |= {"\b", "\x7f"}
    if key == "Bkspc" and mods == 2:
        out |= {"\b", "\x7f"}
    if len(key) == 1:
        ch = key
        vk = OEM.get(ch, ord(ch.upper()))
        out.add("\x1b[27;%d;%d~" % (MODS[mods], vk))
        if ch.isalpha() and ch.isupper() and not mods & 1 and mods & 2:
            out.add("\x1b[27;%d;%d~" % (MODS[mods | 1], vk))      # Ctrl-H written with a capital letter: Shift is held
        if mods in (0, 1):
            out.add(ch)
        if mods & 2 and (ch.isalpha() or ch in "@[\\]^_?"):
            out.add(("\x1b" if mods & 4 else "") + ("\x7f" if ch == "?" else chr(ord(ch.upper()) & 0x1f)))
        if mods & 4 and not mods & 2:
            out.add("\x1b" + ch)
            for sh, un in (("?", 191),):
                if ch == sh:
                    out.add("\x1b[27;4;%d~" % un)
    return out


def documented_keys(prog, rl, c, bound, reg):
    import html, itertools, os
    import luascripts
    path = os.path.join(luascripts.root(), "docs", "clink.md")
    byfun = {}
    for g in ir.globals_of(rl):
        if g.name == "default_funmap" and g.d.get("i", -1) >= 0:
            for r in g.kids(g.nodes[g.d["i"]]):
                k = [g.strip(x) for x in g.kids(g.strip(r))]
                if len(k) == 2 and k[0] is not None and k[0]["k"] == "Str" and k[1] is not None:
                    byfun.setdefault(k[1].get("n"), set()).add(k[0]["s"])
    maps = 0
    for g in ir.globals_of(rl):
        pre = {"emacs_standard_keymap": "", "emacs_meta_keymap": "\x1b", "emacs_ctlx_keymap": "\x18", "vi_insertion_keymap": "", "vi_movement_keymap": ""}.get(g.name)
        if pre is None or g.d.get("i", -1) < 0:
            continue
        maps += 1
        for i, r in enumerate(g.kids(g.nodes[g.d["i"]])):
            for x in g.deep(r):
                if x["k"] == "Ref" and x.get("n") in byfun and i < 256:
                    bound.setdefault(pre + chr(i), set()).update(byfun[x["n"]])
    if maps < 3:
        raise AnalysisBroken("P15: Readline's default key maps not found")
    # Readline binds the arrow keys when it starts, unless something else is bound to them already
    late = {}
    for f, n in ((f, n) for f in rl.calling({"rl_bind_keyseq_if_unbound"}) for n in f.calls({"rl_bind_keyseq_if_unbound"})):
        a = [f.strip(x) for x in f.args(n)]
        if a[0] is not None and a[0]["k"] == "Str" and a[1] is not None and a[1].get("n") in byfun:
            late.setdefault(a[0]["s"], set()).update(byfun[a[1]["n"]])
    for k, v in late.items():
        bound.setdefault(k, v)
    # two names of one function are one command
    alias = {}
    for nm, (what, _, _) in reg.items():
        alias.setdefault(what, set()).add(nm)
    same = {nm: alias[what] for nm, (what, _, _) in reg.items()}
    tables = table_of_names(prog)
    for i, l in enumerate(open(path, encoding="utf-8", errors="replace"), 1):
        m = re.match(r'^<a name="rlcmd-([^"]*)"></a>`([^`]*)`\s*\|(.*)$', l)
        if not m:
            continue
        cmd = m.group(1)
        c.count("documented_commands")
        if cmd not in reg and cmd not in NOT_COMMANDS:
            c.violation("docs|%s" % cmd, "docs/clink.md", i, "the documented command %s is not registered" % cmd)
            continue
        cell = re.split(r"(?<!\\)\|", m.group(3))[0]
        if re.search(r"<em>|etc", cell) or "<kbd>" not in cell:
            continue
        cell = re.sub(r"\[[^\]]*\]\([^)]*\)", "", cell)
        for alt in re.split(r"\bor\b", cell):
            # <kbd>Ctrl</kbd>-<kbd>x</kbd>,<kbd>e</kbd> or separated by blanks: a sequence of keys
            ks = []
            for k in re.findall(r"(?:<kbd>.*?</kbd>-?)+", alt):
                ks.append("-".join(html.unescape(q) for q in re.findall(r"<kbd>(.*?)</kbd>", k)))
            if not ks:
                continue
            c.count("documented_keys")
            seqs = {"".join(t) for t in itertools.product(*[candidates(k, tables) for k in ks])}
            if any(same.get(cmd, {cmd}) & set(bound.get(s, ())) for s in seqs):
                continue
            if (cmd, " ".join(ks)) in DOC_EXC or (cmd, "") in DOC_EXC:
                continue
            have = sorted({"/".join(sorted(bound[s])) for s in seqs if s in bound})
            c.violation("docs|%s|%s" % (cmd, " ".join(ks)), "docs/clink.md", i, "%s is documented as the default key for %s, but %s" % (" ".join(ks), cmd, "is bound to " + ", ".join(have) if have else "is not bound"))
    c.need("documented_commands", 150)
    c.need("documented_keys", 90)


NOT_COMMANDS = {"prefix-meta": "a key map, not a command"}


def producible(seq, seqs):
    """Can the terminal layer send this?  Checked for the escape sequences; plain, control and Alt characters always can."""
    i = 0
    while i < len(seq):
        if seq[i] != "\x1b":
            i += 1
            continue
        m = re.match(r"\x1b?\x1b(?:\[[0-9;]*[A-Za-z~]|O[A-Z])", seq[i:])
        if m:
            s = m.group(0)
            if s in seqs:
                i += len(s)
                continue
            k = re.match(r"^\x1b\[27;(?:([2-8]);)?(\d+)~$", s)
            if k:
                # modifyOtherKeys form: the terminal layer composes it from the modifier and the virtual key code
                i += len(s)
                continue
            return s
        if i + 1 >= len(seq):
            return seq[i:]
        i += 2
    return None


def named_calls(prog, names):
    for f in prog.calling(names):
        if f.file.startswith("clink/"):
            for n in f.calls(names):
                yield f, n


def commands():
    c = Check("P15", "bindings name registered commands and sequences the terminal layer sends; commands are registered once with category and description; modules bind exactly the ids they handle; key tables encode their own modifiers")
    prog = ir.load()
    seqs = terminal_tables(prog, c)
    # registered commands
    reg = {}
    rl = ir.load(["readline"])
    for g in ir.globals_of(rl):
        if g.name == "default_funmap" and g.d.get("i", -1) >= 0:
            for r in g.kids(g.nodes[g.d["i"]]):
                k = [g.strip(x) for x in g.kids(g.strip(r))]
                if k and k[0] is not None and k[0]["k"] == "Str":
                    reg[k[0]["s"]] = (g.text(k[1]) if k[1] is not None else "", "readline", None)
    if len(reg) < 120:
        raise AnalysisBroken("P15: Readline's command table not found")
    c.cov["readline_commands"] = len(reg)
    builtin = dict(reg)
    wrappers = set()
    for f in prog.calling("rl_add_funmap_entry"):
        for n in f.calls("rl_add_funmap_entry"):
            a = f.args(n)
            if formats.literals(f, a[0]) is None and f.file.startswith("clink/"):
                wrappers.add(f.name)
    mine = {}
    for f, n in named_calls(prog, wrappers | {"rl_add_funmap_entry"}):
        a = f.args(n)
        lit = formats.literals(f, a[0])
        if lit is None:
            continue
        for nm in lit:
            c.count("clink_commands")
            what = f.text(f.strip(a[1])).lstrip("&")
            if f.strip(a[1]).get("v") == 0 or f.strip(a[1])["k"] == "Null":
                c.violation("%s|null" % nm, f.file, n["l"], "command %s is registered without a function" % nm)
            if nm in mine:
                c.violation("%s|twice" % nm, f.file, n["l"], "command %s is registered twice (%s and %s)" % (nm, mine[nm][0], what))
            mine[nm] = (what, f, n)
            if not re.match(r"^[a-z0-9]+(-[a-z0-9]+)*$", nm):
                c.violation("%s|name" % nm, f.file, n["l"], "command name \"%s\" cannot be written in an inputrc file" % nm)
            if len(a) >= 4:
                d = formats.literals(f, a[3])
                if not d or not d[0].strip():
                    c.violation("%s|description" % nm, f.file, n["l"], "command %s is registered without a description" % nm)
    reg.update(mine)
    # the implementation of a command carries its name, where there is one of that name; an entry without description
    # is an alias and runs what another command runs
    impl = {f.name for f in prog.funcs.values() if f.file.startswith("clink/") and "::" not in f.name}
    for nm, (what, f, n) in sorted(mine.items()):
        described = len(f.args(n)) >= 4
        canon = nm.replace("-", "_")
        if described:
            if canon in impl and what != canon:
                c.violation("%s|function" % nm, f.file, n["l"], "command %s runs %s instead of %s" % (nm, what, canon))
            for other, (w2, f2, n2) in mine.items():
                if other != nm and w2 == what and len(f2.args(n2)) >= 4:
                    c.violation("%s|same" % min(nm, other), f.file, n["l"], "the commands %s and %s both run %s" % (min(nm, other), max(nm, other), what))
        else:
            c.count("aliases")
            if not any(o != nm and w == what for o, w in [(o, w) for o, (w, _, _) in mine.items()] + [(o, w) for o, (w, _, _) in builtin.items()]):
                c.violation("%s|alias" % nm, f.file, n["l"], "command %s has no description, and %s is not the function of any described command" % (nm, what))
    # binding tables
    bound = {}
    binders = {f.usr for f in prog.calling("rl_named_function") if f.file.startswith("clink/")}
    for f in prog.funcs.values():
        if not f.file.startswith("clink/"):
            continue
        for call in f.calls():
            if call.get("f") not in binders:
                continue
            for a in f.args(call):
                p = f.path(a) if a is not None else None
                init, g = None, f
                if p and p[0] == "v":
                    for x in f.nodes:
                        if x and x["k"] == "DeclStmt":
                            for d in x["ds"]:
                                if d["v"] == p[1] and d["i"] >= 0:
                                    init = f.nodes[d["i"]]
                elif p and p[0] == "g":
                    for y in ir.globals_of(prog):
                        if y.name == p[1] and y.d.get("i", -1) >= 0:
                            init, g = y.nodes[y.d["i"]], y
                if init is None or init["k"] != "InitList":
                    continue
                name = g.text(a) if g is f else p[1]
                key = (g.file, f.name, name)
                if key in SEEN:
                    continue
                SEEN.add(key)
                rows = [(strs(g, g.strip(r)) + [None, None])[:2] for r in g.kids(init) if g.strip(r)["k"] == "InitList"]
                lines = [g.strip(r)["l"] for r in g.kids(init) if g.strip(r)["k"] == "InitList"]
                if not rows or not any(r[0] for r in rows):
                    continue
                c.count("binding_tables")
                have = {}
                for r, l in zip(rows, lines):
                    if r[0] is None and r[1] is None:
                        break
                    c.count("bindings")
                    ch, cmd = r[0], r[1]
                    if not ch or not CHORD.match(ch):
                        c.violation("%s|%s|chord" % (name, ch), g.file, l, "%s: \"%s\" is not a key sequence in Readline's notation" % (name, ch))
                        continue
                    if cmd is None or (cmd and cmd not in reg):
                        c.violation("%s|%s|%s" % (name, ch, cmd), g.file, l, "%s binds %s to \"%s\", which is not a registered command" % (name, ch, cmd))
                    t = translate(ch)
                    if t in have and have[t] != cmd:
                        c.violation("%s|%s|twice" % (name, ch), g.file, l, "%s binds %s twice, to %s and to %s" % (name, ch, have[t], cmd))
                    have[t] = cmd
                    if cmd:
                        bound.setdefault(t, set()).add(cmd)
                    bad = producible(t, seqs)
                    if bad:
                        c.violation("%s|%s|sent" % (name, ch), g.file, l, "%s binds %s (%s), but no key sends %r" % (name, ch, cmd, bad))
                # a table without a terminating empty row is read past its end
                if not any(r[0] is None for r in rows):
                    c.violation("%s|end" % name, g.file, init["l"], "%s has no terminating entry" % name)
    # commands looked up by constant name
    for f, n in named_calls(prog, {"rl_named_function"}):
        lit = formats.literals(f, f.args(n)[0])
        for nm in lit or ():
            c.count("named_lookups")
            if nm not in reg:
                c.violation("%s|rl_named_function %s" % (f.name, nm), f.file, n["l"], "%s looks up the command \"%s\", which is not registered" % (f.name, nm))
    import luascripts
    from luafront import walk
    S = luascripts.Scripts()
    for ch in S.chunks:
        for x in walk(ch.main):
            if x.k == "call" and S.dot(x.f) in ("rl.invokecommand", "rl.setbinding", "rl.getcommandbindings"):
                a = x.args[1 if S.dot(x.f) == "rl.setbinding" else 0] if len(x.args) > (S.dot(x.f) == "rl.setbinding") else None
                if a is not None and a.k == "str":
                    c.count("script_lookups")
                    if a.v not in reg:
                        c.violation("%s|%s" % (ch.path, a.v), ch.path, x.l, "%s names the command \"%s\", which is not registered" % (ch.path, a.v))
    c.need("script_lookups", 6)
    for f, n in named_calls(prog, {"rl_bind_keyseq_in_map", "rl_bind_keyseq", "rl_bind_keyseq_if_unbound"}):
        lit = formats.literals(f, f.args(n)[0])
        for ch in lit or ():
            c.count("direct_bindings")
            bad = producible(translate(ch), seqs) if CHORD.match(ch) else ch
            if bad:
                c.violation("%s|%s|sent" % (f.name, ch), f.file, n["l"], "%s binds %s, but no key sends %r" % (f.name, ch, bad))
    for f, n in named_calls(prog, {"rl_bind_keyseq_in_map", "rl_bind_keyseq", "rl_bind_keyseq_if_unbound"}):
        a = f.args(n)
        for x in f.deep(a[1]):
            if x["k"] == "Call" and x.get("n") == "rl_named_function":
                for nm in formats.literals(f, f.args(x)[0]) or ():
                    for ch in formats.literals(f, a[0]) or ["\\e[27;27~"]:
                        bound.setdefault(translate(ch), set()).add(nm)
    documented_keys(prog, rl, c, bound, reg)
    # modules
    classes = {}
    for f in prog.funcs.values():
        if not f.file.startswith("clink/") or not f.cls:
            continue
        for n in f.calls():
            if n["k"] == "Call" and (n.get("n") or "").endswith("binder::bind") and len(f.args(n)) >= 3:
                a = [f.strip(x) if x is not None else None for x in f.args(n)]
                v = a[2].get("v")
                if v is None:
                    continue
                c.count("module_binds")
                e = classes.setdefault(f.cls, {})
                e.setdefault(v, []).append((f, n, a))
    for cls, ids in sorted(classes.items()):
        ons = [f for f in prog.funcs.values() if f.cls == cls and f.short == "on_input" and f.blocks]
        if not ons:
            raise AnalysisBroken("P15: %s binds keys but has no on_input" % cls)
        handled, calls = {}, False
        todo, seen = list(ons), set()
        while todo:
            f = todo.pop()
            if f.usr in seen:
                continue
            seen.add(f.usr)
            for b in f.blocks.values():
                tc = f.nodes[b["tc"]] if b.get("tc", -1) >= 0 else None
                if b.get("tk") == "SwitchStmt" and tc is not None and is_id(f, tc):
                    for s in b["s"]:
                        for y in (f.nodes[q] for q in f.blocks[s].get("case", ())) if s >= 0 else ():
                            handled.setdefault(y.get("v"), (f, y))
            for x in f.nodes:
                if x and x["k"] == "Bin" and x["op"] in ("==", "!="):
                    l, r = f.strip(f.kid(x, 0)), f.strip(f.kid(x, 1))
                    for p, q in ((l, r), (r, l)):
                        if is_id(f, p) and q.get("v") is not None:
                            handled.setdefault(q["v"], (f, x))
            for n in f.calls():
                g = prog.funcs.get(n.get("f"))
                if g is not None and g.cls == cls and g.blocks and any(a is not None and is_id(f, f.strip(a)) or (a is not None and f.strip(a).get("n") == "input") for a in f.args(n)):
                    todo.append(g)
        if not handled:
            raise AnalysisBroken("P15: on_input of %s does not look at the id" % cls)
        for v, sites in sorted(ids.items()):
            f, n, a = sites[0]
            name = a[2].get("n", str(v))
            if v not in handled and not (cls, name) in UNHANDLED:
                c.violation("%s|%s|handled" % (cls, name), f.file, n["l"], "%s binds keys to %s, but on_input does not handle it" % (cls, name))
            if not 0 <= v < 256:
                c.violation("%s|%s|range" % (cls, name), f.file, n["l"], "%s: binding id %s (%d) does not fit in the 8 bits the binder keeps" % (cls, name, v))
        for v, (f, y) in sorted(handled.items()):
            if v not in ids and v != 255:
                c.violation("%s|case %s|bound" % (cls, y.get("n", v)), f.file, y["l"], "%s handles binding id %s (%d), but no key is bound to it" % (cls, f.text(y), v))
        # one chord, one id in a group
        got = {}
        for v, sites in ids.items():
            for f, n, a in sites:
                lit = formats.literals(f, a[1])
                for ch in lit or ():
                    c.count("module_chords")
                    k = (f.usr, f.text(a[0]), ch)
                    if ch and got.setdefault(k, v) != v:
                        c.violation("%s|%s|twice" % (cls, ch), f.file, n["l"], "%s binds %s to two ids in the same group" % (cls, ch))
                    s = translate(ch)
                    if "$" in s or "*" in s:
                        continue
                    if s.startswith("\x1b") and len(s) > 1:
                        bad = producible(s, seqs)
                        if bad:
                            c.violation("%s|%s|sent" % (cls, ch), f.file, n["l"], "%s binds %s, but no key sends %r" % (cls, ch, bad))
    c.need("key_tables", 14)
    c.need("key_sequences", 190)
    c.need("clink_commands", 85)
    c.need("binding_tables", 6)
    c.need("bindings", 120)
    c.need("named_lookups", 4)
    c.need("module_binds", 80)
    return c


UNHANDLED = {
    ("rl_module", "bind_id_input"): "every id that is not a mouse event is text input",
    ("rl_module", "bind_id_more_input"): "every id that is not a mouse event is text input",
}
SEEN = set()


def is_id(f, n):
    n = f.strip(n)
    if n is None:
        return False
    if n["k"] == "Ref" and n.get("dk") == "v":
        # a local copy
        for x in f.nodes:
            if x and x["k"] == "DeclStmt":
                for d in x["ds"]:
                    if d["v"] == n["d"] and d["i"] >= 0 and f.strip(f.nodes[d["i"]])["k"] == "Member":
                        return is_id(f, f.nodes[d["i"]])
        return False
    return n["k"] == "Member" and n.get("m") == "id" and (n.get("cls") or "").endswith("editor_module::input")
