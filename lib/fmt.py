"""printf-style format strings: parsing and agreement with argument types (LLP64, Windows CRT rules)."""
import re

SPEC = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(I64|I32|I|hh|h|ll|l|j|z|t|w|L)?([A-Za-z%])")


def parse(s):
    """list of (kind, length, conv, text); kind 'star' for a * width/precision; or ('bad', ...)"""
    out, i = [], 0
    while True:
        i = s.find("%", i)
        if i < 0:
            return out
        m = SPEC.match(s, i)
        if not m:
            out.append(("bad", "", "", s[i:i + 6]))
            i += 1
            continue
        if m.group(5) == "%":
            i = m.end()
            continue
        if m.group(2) == "*":
            out.append(("star", "", "d", m.group(0)))
        if m.group(3) == "*":
            out.append(("star", "", "d", m.group(0)))
        out.append(("conv", m.group(4) or "", m.group(5), m.group(0)))
        i = m.end()


def promoted(f, t):
    """(class, size, pointee) of a variadic argument."""
    k = t["k"]
    if k in ("int", "enum", "bool"):
        return ("int", max(4, t.get("z", 4)), None)
    if k == "float":
        return ("float", 8, None)
    if k in ("ptr", "arr"):
        e = f.type(t.get("e", -1))
        return ("ptr", 8, e)
    if k in ("nullptr", "fnptr"):
        return ("ptr", 8, None)
    return (k, t.get("z", 0), None)


def agrees(f, spec, t, wide):
    """None when the argument type fits the conversion, otherwise a reason."""
    kind, ln, cv, _ = spec
    c, z, e = promoted(f, t)
    if t["k"] == "rec":
        return "an object of type %s is passed" % t["s"]
    if kind == "star":
        return None if c == "int" and z == 4 else "the width/precision argument has type %s" % t["s"]
    if cv in "diouxX":
        want = 8 if ln in ("ll", "I64", "j", "z", "t", "I") else 4
        if c != "int":
            return "an integer is expected but %s is passed" % t["s"]
        if z != want:
            return "%d byte integer expected but %s (%d bytes) is passed" % (want, t["s"], z)
        return None
    if cv in "c":
        return None if c == "int" and z == 4 else "a character is expected but %s is passed" % t["s"]
    if cv == "C":
        return None if c == "int" and z == 4 else "a character is expected but %s is passed" % t["s"]
    if cv in "fFeEgGaA":
        return None if c == "float" else "a floating point value is expected but %s is passed" % t["s"]
    if cv in "sS":
        if c != "ptr":
            return "a string is expected but %s is passed" % t["s"]
        w = wide
        if cv == "S":
            w = not wide
        if ln in ("l", "w"):
            w = True
        elif ln == "h":
            w = False
        if e is None:
            return None
        if e["k"] != "int" or e.get("z") != (2 if w else 1):
            return "a %s string is expected but %s is passed" % ("wide" if w else "narrow", t["s"])
        return None
    if cv == "p":
        return None if c == "ptr" or (c == "int" and z == 8) else "a pointer is expected but %s is passed" % t["s"]
    if cv == "n":
        return "%n is used"
    return "unknown conversion"


LUA_SPEC = re.compile(r"%(.)")


def lua_parse(s):
    return [("conv", "", m.group(1), m.group(0)) for m in LUA_SPEC.finditer(s) if m.group(1) != "%"]


def lua_agrees(f, spec, t):
    c, z, e = promoted(f, t)
    cv = spec[2]
    if t["k"] == "rec":
        return "an object of type %s is passed" % t["s"]
    if cv in "dc":
        return None if c == "int" and z == 4 else "an int is expected but %s is passed" % t["s"]
    if cv == "f":
        return None if c == "float" else "a number is expected but %s is passed" % t["s"]
    if cv == "s":
        return None if c == "ptr" and (e is None or e.get("z") == 1) else "a string is expected but %s is passed" % t["s"]
    if cv == "p":
        return None if c == "ptr" else "a pointer is expected but %s is passed" % t["s"]
    return "conversion %%%s is not supported" % cv
