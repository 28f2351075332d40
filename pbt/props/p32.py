"""P32: every operation releases what it acquires."""
import importlib
import json
from ..core import Facet
from . import p30, p34

ID = "P32"
BUILD = ["server", "chain", "pymod"]
CASES = (250000, 3000000)
RULE = ("The operation sequences of the other properties (parsing sound, damaged and arbitrary text, JSON, copies, edits, normalisation, comparison, clustering, packages, "
        "reports, problem directories, core files; succeeding and failing) are run with the allocator's count of live bytes taken before and after: once every result has been "
        "released the count must be what it was and no file may stay open (measured three times, so that one-time caches do not count). Freeing twice and use after release are caught by "
        "AddressSanitizer. Programs on the Python module (constructing, parsing, setting, editing, copying, failing) are run repeatedly in one interpreter: the live bytes must not grow with every run. Non-trivial: as stated by the property the sequence comes from.")
ASSUMPTIONS = ["The reporter strings of a report read from JSON and the message of a Ruby frame parser belong to the caller (as in the project's own tests).", "Programs that pickle are not measured: the pickle module keeps strings of its own."]
SKIP = {("p01", "deep"), ("p34", "hook"), ("p36", "big")}
# weights: parsers and failure paths first
WEIGHT = {"p01": 4, "p12": 2, "p14": 2, "p18": 2, "p22": 2, "p13": 2, "p02": 2, "p04": 2, "p07": 2}


def kept(prog):
    """a report read from JSON keeps the reporter's strings; the pickle module keeps strings of its own"""
    for c in prog:
        if c[0] == "pickle":
            return True
        if c[0] == "new" and c[2] == "Report" and c[3]:
            try:
                v = json.loads(c[3][0])
            except (ValueError, TypeError):
                return True
            if isinstance(v, dict) and "reporter" in v:
                return True
    return False


class LeakCtx(p34.CoreCtx):
    py = None

    def __init__(self, env):
        p34.CoreCtx.__init__(self, env)
        self.leakmode = True

    def pyrun(self, prog):
        self.note(prog)
        if self.py is None:
            self.py = p30.PyServer(self.env["pymod"])
        res, grow = self.py.run(["grow", prog, 5])
        if min(grow) > 0 and not kept(prog):
            self.py.stop()
            grow = self.py.run(["grow", prog, 30])[1]       # in a new interpreter, and longer
            if min(grow) > 0:
                self.fail("every run of a program on the Python module leaves memory behind (bytes): %s" % grow, repr(prog))
        return res

    def close(self):
        if self.py:
            self.py.stop()
        p34.CoreCtx.close(self)


def make_ctx(env):
    return LeakCtx(env)


# ------------------------------------------------------------------ failing calls of the Python module
MULTI = ["CoreStacktrace", "GdbStacktrace", "JavaStacktrace"]
SINGLE = ["Kerneloops", "PythonStacktrace", "RubyStacktrace", "JavaScriptStacktrace"]
THREADS = {"CoreStacktrace": "CoreThread", "GdbStacktrace": "GdbThread", "JavaStacktrace": "JavaThread"}
FRAMES = {"CoreThread": "CoreFrame", "GdbThread": "GdbFrame", "JavaThread": "JavaFrame", "Kerneloops": "KerneloopsFrame", "PythonStacktrace": "PythonFrame",
          "RubyStacktrace": "RubyFrame", "JavaScriptStacktrace": "JavaScriptFrame"}
OTHERS = ["GdbSharedlib", "RpmPackage", "OperatingSystem", "Report"]
ALL = MULTI + SINGLE + list(THREADS.values()) + list(FRAMES.values()) + OTHERS + ["Distances", "DistancesPart", "Dendrogram"]
METHODS = ["to_short_text", "get_bthash", "get_duphash", "normalize", "dup", "equals", "distance", "to_json", "find_crash_frame", "limit_frame_depth", "quality_simple",
           "quality_complex", "quality_counts", "set_libnames", "find_address", "format_funs", "short_string", "calls_func", "calls_func_in_file"]
BADTEXT = ["", "x", "\n\n", "Thread 1 (", "#0 0x", "#1  0x0000 in f (", "Exception in thread \"main\" java", "  File \"x", "Traceback (most recent call last):\n  File \"a\", line",
           "a.rb:1:in `f': msg (E", "a.rb:x", "E: m\n    at f (a.js:1", "[<", " at f(", "\"t\" prio=1", "]", "{", "{\"threads\": 1}", "{\"frames\": [1]}", "{\"threads\": [{\"frames\": [2]}]}", "[]",
           "{\"stacktrace\": 3}", "{\"stacktrace\": [{\"frames\": [{\"address\": \"x\"}]}]}", "{\"frames\": {}}", "{\"exception_name\": 1}", "{\"ureport_version\": \"a\"}", "{\"packages\": 1}"]


def badtext(g):
    t = g.choice(BADTEXT)
    return t if g.bool(2, 3) else t[:g.draw(len(t) + 1)] + g.text("ab :(){}[]\"\n", 8)


def wrong(g):
    return g.choice([None, 1, -1, 1 << 70, "x", badtext(g), {"list": []}, {"list": [1, {"new": 0}]}, {"new": 0}, {"float": "0x1.8p+1"}, {"bytes": "a"}])


def f_pyfail(g, c):
    prog, n = [], [0]
    failing = [0]

    def reg():
        n[0] += 1
        return "r%d" % n[0]

    def fill(owner, attr, cls):
        for i in range(g.size(4)):
            r = reg()
            prog.append(["new", r, cls, []])
            prog.append(["lins", [owner, attr], 1000, {"ref": [r]}])
            if cls in FRAMES and g.bool():
                fill(r, "frames", FRAMES[cls])
        if g.bool(2, 3):
            failing[0] += 1
            bad = wrong(g)
            if g.bool():
                r = reg()
                prog.append(["new", r, g.choice([x for x in ALL if x not in (cls, "Distances", "DistancesPart", "Dendrogram")]), []])
                bad = {"ref": [r]}
            prog.append(["lins", [owner, attr], g.draw(5), bad] if g.bool(4, 5) else ["set", [owner, attr], attr, bad][:1] + [[owner], attr, bad])

    for i in range(1 + g.size(3)):
        cls = g.choice(ALL)
        k = g.draw(6)
        if k == 0:
            failing[0] += 1
            prog.append(["new", reg(), cls, [badtext(g)]])
        elif k == 1:
            failing[0] += 1
            prog.append(["new", reg(), cls, [wrong(g) for i in range(g.draw(4))]])
        elif k == 2:
            failing[0] += 1
            prog.append(["scall", reg(), g.choice(MULTI + SINGLE), "from_json", [badtext(g) if g.bool(4, 5) else wrong(g)]])
        else:
            cls = g.choice(MULTI + SINGLE + list(THREADS.values()) + ["Report"])
            r = reg()
            prog.append(["new", r, cls, []])
            if cls in THREADS:
                fill(r, "threads", THREADS[cls])
                if cls == "GdbStacktrace":
                    fill(r, "libs", "GdbSharedlib")
            elif cls == "Report":
                fill(r, "packages", "RpmPackage")
            else:
                fill(r, "frames", FRAMES[cls])
            for j in range(1 + g.draw(4)):
                args = [] if g.bool(2, 3) else [wrong(g) if g.bool() else {"ref": [r]} for i in range(1 + g.draw(2))]
                prog.append(["call", None, [r], g.choice(METHODS), args])
            if g.bool():
                prog.append(["new", reg(), "Distances", [{"list": [{"ref": [r]}] * g.draw(4)}, g.draw(4) - 1]])
            if g.bool(1, 3):
                prog.append(["set", [r], g.choice(["frames", "threads", "libs", "crashframe", "stacktrace", "operating_system", "packages", "name", "serial", "report_type"]), wrong(g)])
                prog.append(["call", None, [r], g.choice(METHODS), []])
    res = c.pyrun(prog)
    errs = [x["exc"] for x in res if isinstance(x, dict) and "exc" in x]
    c.check("SystemError" not in errs, "a method failed without an exception, or succeeded with one", repr((prog, res)))
    c.label(*("raises " + e for e in errs))
    c.nontrivial(bool(errs) and failing[0] > 0)


def _facets():
    out = []
    for n in list(range(1, 30)) + [31, 34, 35, 36]:
        m = importlib.import_module("pbt.props.p%02d" % n)
        k = "p%02d" % n
        for f in m.FACETS:
            if (k, f.name) not in SKIP:
                out.append(Facet(k + "." + f.name, f.fn, WEIGHT.get(k, 1)))
    out += [Facet("p30." + f.name, f.fn, 1) for f in p30.FACETS] + [Facet("python failures", f_pyfail, 2)]
    return out


FACETS = _facets()
