"""Runs the clang-based fact extractor over /repo's current sources.

The compile flags mirror /opt/vp/cmake/CMakeLists.txt (debug|x64 MinGW), plus
NDEBUG: assertions vanish in shipped builds, so no rule may rely on one.
"""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"
MINGW = "/usr/x86_64-w64-mingw32/include"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (no verdict)."""


COMMON_DEFS = ["-DHAVE_CONFIG_H", "-DHANDLE_MULTIBYTE", "-DDEBUG", "-D_DEBUG", "-DNDEBUG",
               '-DCLINK_BUILD_ROOT="/x"', "-D__MSVCRT_VERSION__=0x0601",
               "-D_WIN32_WINNT=0x0601", "-DWINVER=0x0601"]

# name -> (source globs, excluded basenames, defines, include dirs, extra c++ flags)
GROUPS = {
    "lib": (["clink/lib/src/**/*.cpp", "clink/lib/include/**/*.cpp"], [], [],
            ["clink/lib/include/lib", "clink/core/include", "clink/terminal/include", "readline",
             "readline/compat", "wildmatch", "clink/lib/src"]),
    "lua": (["clink/lua/src/**/*.cpp", "clink/lua/include/**/*.cpp"], [], [],
            ["clink/lua/include/lua", "clink/core/include", "clink/lib/include", "clink/process/include",
             "clink/terminal/include", "lua/src", "readline", "readline/compat", "wildmatch", "clink/lua/src"]),
    "core": (["clink/core/src/**/*.cpp", "clink/core/include/**/*.cpp"], [], [],
             ["clink/core/include/core", "clink/core/src"]),
    "terminal": (["clink/terminal/src/**/*.cpp", "clink/terminal/include/**/*.cpp"], [], [],
                 ["clink/terminal/include/terminal", "clink/core/include", "clink/process/include",
                  "clink/terminal/src"]),
    "process": (["clink/process/src/**/*.cpp", "clink/process/include/**/*.cpp"], [], [],
                ["clink/core/include", "clink/process/include/process", "clink/process/src"]),
    "app": (["clink/app/src/**/*.cpp"], [], [],
            ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lua/include",
             "clink/process/include", "clink/terminal/include", "getopt", "lua/src", "readline",
             "readline/compat", "detours"]),
    "getopt": (["getopt/*.c"], [], [], []),
    "wildmatch": (["wildmatch/wildmatch/*.c"], [], [], []),
    "readline": (["readline/readline/*.c", "readline/compat/*.c"], ["emacs_keymap.c", "vi_keymap.c"],
                 ["-DBUILD_READLINE"], ["readline", "readline/compat", "wildmatch/wildmatch"]),
    "luacore": (["lua/src/*.c"], ["lua.c", "luac.c"], ["-DBUILD_LUA", "-DBUILD_CLINK_LUA"], []),
}
CLINK_GROUPS = ["lib", "lua", "core", "terminal", "process", "app"]


def sha(data):
    return hashlib.sha256(data).hexdigest()


def build_tool():
    src = os.path.join(VERIF, "tool", "facts.cpp")
    key = sha(open(src, "rb").read())[:16]
    exe = os.path.join(BUILD, "facts-" + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
               src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.18.1",
               "-Wl,-rpath," + LLVM + "/lib"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("cannot build the fact extractor: " + p.stderr[:2000])
        os.replace(tmp, exe)
    return exe, key


def prepare_gen(repo):
    """Generated headers and the header shims that the MinGW build uses."""
    out = os.path.join(CACHE, "gen-" + sha(repo.encode())[:8])
    shim = os.path.join(out, "shim")
    os.makedirs(shim, exist_ok=True)

    def write(path, text):
        if not os.path.exists(path) or open(path).read() != text:
            tmp = path + ".tmp%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, path)

    vh = open(os.path.join(repo, "clink/app/src/version.h"), encoding="utf-8", errors="replace").read()
    v = dict(re.findall(r"CLINK_VERSION_(MAJOR|MINOR|PATCH)[ \t]+([0-9]+)", vh))
    s = "%s.%s.%s.000000" % tuple(v.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH"))
    write(out + "/clink_commit.h", '#pragma once\n#define CLINK_COMMIT 000000\n#define CLINK_VERSION_STR "%s"\n'
          '#define CLINK_VERSION_LSTR L"%s"\n#define CLINK_VERSION_STR_WITH_BRANCH "%s"\n' % (s, s, s))
    system = {f.lower(): f for f in os.listdir(MINGW)}
    want = {}
    for top in ("clink", "readline", "lua", "wildmatch", "detours", "getopt"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                if f.endswith((".c", ".cpp", ".h", ".i")):
                    data = open(os.path.join(d, f), "rb").read()
                    for h in re.findall(rb'^\s*#\s*include\s*[<"]([^>"\n]+)[>"]', data, re.M):
                        h = h.decode("latin-1")
                        if "\\" in h:
                            want[h] = h.replace("\\", "/")
                        elif "/" not in h and h not in system.values() and h.lower() in system:
                            want[h] = system[h.lower()]
    for name, target in want.items():
        write(os.path.join(shim, name), "#include <%s>\n" % target)
    return out


def sources(group, repo=None):
    repo = repo or REPO
    globs, excl, defs, incs = GROUPS[group]
    fs = set()
    for g in globs:
        fs |= set(glob.glob(os.path.join(repo, g), recursive=True))
    return sorted(os.path.relpath(f, repo) for f in fs if os.path.basename(f) not in excl)


def flags(group, src, gen, repo):
    globs, excl, defs, incs = GROUPS[group]
    cxx = src.endswith(".cpp")
    a = [LLVM + "/bin/clang" + ("++" if cxx else ""), "--target=x86_64-w64-windows-gnu", "-fsyntax-only",
         "-fms-extensions", "-Wno-everything", "-ferror-limit=0", "-include", "errno.h"]
    a += COMMON_DEFS + defs + ["-I" + gen] + ["-I" + os.path.join(repo, i) for i in incs]
    a += ["-idirafter", gen + "/shim"]
    if cxx:
        a += ["-std=c++17"]
        a += ["-fexceptions"] if group == "terminal" else ["-fno-exceptions"]
    return a + [os.path.join(repo, src)]


_hash_cache = {}


def file_hash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            h = sha(open(path, "rb").read())[:20]
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def extract(groups=None, only=None, repo=None):
    """Returns the list of fact files for the translation units of `groups`
    (optionally restricted to sources accepted by `only`)."""
    repo = repo or REPO
    exe, key = build_tool()
    gen = prepare_gen(repo)
    jobs = []
    for g in groups or CLINK_GROUPS:
        for s in sources(g, repo):
            if os.path.basename(s) == "pch.cpp":
                continue
            if only and not only(s):
                continue
            jobs.append((g, s))
    if not jobs:
        raise AnalysisBroken("no translation units to analyse")
    fdir = os.path.join(CACHE, "facts")
    os.makedirs(fdir, exist_ok=True)

    def one(job):
        g, s = job
        args = flags(g, s, gen, repo)
        base = os.path.join(fdir, sha((g + s + repo).encode())[:20])
        want = sha((key + "\0".join(args)).encode())
        meta = base + ".meta"
        try:
            m = json.load(open(meta))
            if m["want"] == want and all(file_hash(os.path.join(repo, d)) == h for d, h in m["deps"]):
                if os.path.exists(base + ".txt"):
                    return base + ".txt"
        except Exception:
            pass
        tmp = base + ".tmp%d" % os.getpid()
        p = subprocess.run([exe, "--root", repo, "--out", tmp, "--"] + args, capture_output=True, text=True)
        if not os.path.exists(tmp):
            raise AnalysisBroken("extractor failed on %s: %s" % (s, p.stderr[-800:]))
        deps = []
        with open(tmp, encoding="utf-8", errors="replace") as f:
            for line in f:
                if line.startswith("D\t"):
                    deps.append(line[2:].rstrip("\n"))
        if s not in deps:
            raise AnalysisBroken("extractor produced no facts for %s: %s" % (s, p.stderr[-800:]))
        os.replace(tmp, base + ".txt")
        json.dump({"want": want, "src": s, "deps": [(d, file_hash(os.path.join(repo, d))) for d in deps]},
                  open(meta, "w"))
        return base + ".txt"

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(ex.map(one, jobs)), [s for _, s in jobs]


if __name__ == "__main__":
    t = time.time()
    groups = sys.argv[1:] or None
    fs, ss = extract(groups)
    print(len(fs), "translation units,", sum(os.path.getsize(f) for f in fs) >> 20, "MB,", "%.1fs" % (time.time() - t))
