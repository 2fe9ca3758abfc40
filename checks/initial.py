"""P26: nothing reads a variable before it has a value."""
import ir, uninit, par
from check import Check
from engine import Interp
from extract import AnalysisBroken

EXCEPT = {
    ("append_filename", "printed_len"): "using_match_colors() and filename_display_desired answer the same throughout, so one of the two branches that set it runs",
    ("display_match_list_internal", "printed_len"): "every row has at least one match: rows = (count + limit - 1) / limit",
    ("command_link_dialog::dlgproc", "rcCtl.right"): "the dialog is only shown with at least one button, which sets it",
    ("test_console::test_console", "csbi"): "only inside the drawing test, which cannot run without a console",
}


def initial():
    c = Check("P26", "on every path a local variable has been given a value before it is read: by an assignment, by a call that always sets it, or by a call whose success was tested")
    prog = ir.load()
    funcs = [f for f in prog.funcs.values() if f.file.startswith("clink/") and not f.file.startswith("clink/test") and "/test/" not in f.file and f.blocks]
    S = uninit.Summaries(prog)

    def run(f):
        out = {}

        def report(f, n, v, why):
            out.setdefault((f.name, v), (f.file, n["l"], why))
        u = uninit.Uninit(prog, report, S)
        it = Interp(prog, u)
        ok = it.analyze(f)
        return f.name, ok, out, u.vars, u.fails, u.inner
    used = set()
    for name, ok, out, vs, fails, inner in par.pmap(run, funcs):
        c.count("functions")
        c.count("variables", vs)
        c.count("calls_that_provide_a_value", fails)
        c.count("through_summaries", inner)
        if not ok:
            raise AnalysisBroken("%s: too many paths" % name)
        for (fn, v), (file, line, why) in out.items():
            fn = uninit.short({"n": fn})
            if (fn, v) in EXCEPT:
                used.add((fn, v))
                continue
            if why:
                c.violation("%s %s" % (fn, v), file, line, "%s reads %s after %s, which may have failed to set it" % (fn, v, why))
            else:
                c.violation("%s %s" % (fn, v), file, line, "%s reads %s before it has been given a value" % (fn, v))

    c.need("variables", 1500)
    c.need("calls_that_provide_a_value", 300)
    return c
