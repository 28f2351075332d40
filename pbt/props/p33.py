"""P33: the command-line tool agrees with the library."""
import os, subprocess
from ..core import Crash, Facet, SAN_ENV, summarize_report
from ..gen import *
from .. import core, stacks as st, gdbtext, koopstext
from . import p01, p05, p06, p07, p08, p14

ID = "P33"
BUILD = ["server", "cli"]
CASES = (12000, 250000)
RULE = ("The satyr command (built with AddressSanitizer and UBSan) is run on generated problem directories, stack trace files of every type and argument lists; output and "
        "exit status must be those derived from the library's own results for the same input. Non-trivial: every case that reaches the library, or a refusal.")
T2 = {"core": "core", "python": "python", "kerneloops": "koops", "java": "java", "gdb": "gdb", "ruby": "ruby", "javascript": "js"}


class CliCtx(p14.DirCtx):
    def cli(self, *args, name="satyr"):
        env = dict(SAN_ENV)
        self.note(args)
        try:
            r = subprocess.run([name] + [a.encode("latin-1") for a in args], executable=self.env["cli"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=env, timeout=core.TIMEOUT, cwd=self.top)
        except subprocess.TimeoutExpired:
            raise Crash("satyr %s did not end within %d s" % (" ".join(args[:3]), core.TIMEOUT), "", "hang")
        err = r.stderr.decode("latin-1")
        if r.returncode not in (0, 1):
            raise Crash("satyr %s ended with status %d: %s" % (" ".join(args[:3]), r.returncode, summarize_report(err)), err[:4000])
        return r.returncode, r.stdout.decode("latin-1"), err

    def put(self, text):
        p = os.path.join(self.top, "input")
        with open(p, "wb") as f:
            f.write(text.encode("latin-1"))
        self.note(text)
        return p


def make_ctx(env):
    return CliCtx(env)


def report(g, c):
    f, m = p14.gen_dir(g)
    d = c.write(f)
    r = c.run([["report_from_dir", 0, d]])[0]
    if r[0]:
        want = c.run([["report_from_dir", 0, d], ["report_json", 0]])[1]
    out = c.cli("abrt-print-report-from-dir", d)
    if r[0]:
        c.eq((out[0], out[1]), (0, want + "\n"), "exit status and report printed")
        c.label("report")
    else:
        c.eq((out[0], out[1]), (1, ""), "exit status and output for a directory without a report")
        c.check(r[1] in out[2], "the diagnosis %r does not say %r" % (out[2][:300], r[1]))
        c.label("refused")
    c.nontrivial(True)
    c.sample(sorted(f))


def trace_text(g, t):
    if t == "core":
        from .p12 import gen_doc
        x = st.dump_json(g, gen_doc(g, "core"))
    elif t == "python":
        x = p05.gen_trace(g)
        x = x[1] + p05.tail(g, x[0] == "syntax_script")
    elif t == "koops":
        x = koopstext.gen_oops(g)[0]
    elif t == "java":
        x = p07.gen_trace(g)[0]
    elif t == "ruby":
        x = "".join(p06.render(*(p06.gen_trace(g) + ("",))))
    elif t == "js":
        exc, msg = p08.gen_head(g)
        x = exc + ": " + msg + "\n" + "\n".join(p08.gen_frame(g)[0] for _ in range(g.size(5, 1)))
    else:
        x = p01.valid(g, "gdb")
    if g.bool(1, 5):
        k = g.draw(4)
        x = x[:g.draw(len(x) + 1)] if k == 0 else "" if k == 1 else free(g, "", 40) if k == 2 else x[g.draw(len(x) + 1):]
    return x.replace("\0", "")


def duphash(g, c):
    name = g.choice(list(T2))
    t = T2[name]
    text = trace_text(g, t)
    p = c.put(text)
    comp = g.opt(lambda: g.choice(["glibc", "", "a b", free(g, "", 10).replace("\0", "")]))
    args = ["debug", "duphash", name, p] + ([comp] if comp is not None else []) + (["more"] if comp is not None and g.bool(1, 8) else [])
    out = c.cli(*args)
    r = c.run([["parse", 0, t, text]])[0]
    if not r[0]:
        c.eq((out[0], out[1]), (1, ""), "exit status and output for a trace that does not parse")
        c.check(not r[1] or r[1] in out[2], "the diagnosis %r does not say %r" % (out[2][:300], r[1]))
        c.label("refused")
    else:
        th = c.run([["parse", 0, t, text], ["find_crash", 0]])[1]
        if th is None or th < 0:
            c.eq((out[0], out[1], out[2]), (1, "", "Cannot find crash thread\n"), "a trace without a crash thread")
            c.label("no crash thread")
        else:
            h = c.run([["parse", 0, t, text], ["duphash", [0, th], 3, comp, 2], ["duphash", [0, th], 3, comp, 1]])
            clear, hashed = h[1], h[2]
            c.eq(out[1], ("Cleartext:\n%s\n" % clear if clear is not None else "") + ("Hash: %s\n" % hashed if hashed is not None and clear is not None else ""), "printed hash")
            c.eq(out[0], 0 if clear is not None and hashed is not None else 1, "exit status")
            c.label("hash")
    c.nontrivial(True)
    c.sample((args, text))


COMMANDS = ["abrt-print-report-from-dir", "abrt-report-dir", "abrt-create-core-stacktrace", "debug"]


def usage(g, c):
    name = g.choice(["satyr", "/usr/bin/satyr", "x y", "./sa"])
    base = os.path.basename(name)
    short = "Usage: %s COMMAND [OPTION...]\nTry `%s --help' or `%s --usage' for more information.\n" % (base, base, base)
    k = g.choice(["help", "usage", "version", "none", "unknown", "nodir", "debug", "debug?", "dup", "type", "nofile", "hook", "norm", "send", "nodirectory"])
    missing = os.path.join(c.top, "no-such-file")
    more = [g.choice(["x", "--help", ""]) for _ in range(g.draw(3))]
    rc, out, err = 1, None, None
    if k == "help":
        a, rc = ["--help"] + more, 0
        r = c.cli(*a, name=name)
        for x in COMMANDS:
            c.check("   %s " % x in r[1], "--help does not mention " + x)
        c.check(r[1].startswith("Usage: %s COMMAND" % base), "--help does not begin with the usage")
    elif k == "usage":
        a, rc = ["--usage"] + more, 0
        r = c.cli(*a, name=name)
        for x in COMMANDS + ["--version"]:
            c.check("Usage: %s %s" % (base, x) in r[1], "--usage does not mention " + x)
    elif k == "version":
        a, rc = ["--version"] + more, 0
        r = c.cli(*a, name=name)
        v = c.run([["breport", 0, {}], ["dump", 0]])[1]["reporter"]["reporter_version"]
        out = "Satyr version %s\n" % v
    elif k == "none":
        a, out = [], short
    elif k == "unknown":
        w = g.choice(["", "-h", "--hel", "help", "debu", "debugg", "abrt-print-report-from-di", "--versio", "--version ", free(g, "", 8)])
        while w.startswith("--") and w in ("--help", "--usage", "--version") or w in COMMANDS:
            w += "x"
        a, out, err = [w] + more, short, "Unknown command.\n"
    elif k == "nodir":
        a, out, err = [g.choice(["abrt-print-report-from-dir", "abrt-create-core-stacktrace"])], short, "Missing ABRT problem directory path.\n"
    elif k == "debug":
        a, out, err = ["debug"], short, "Missing debug command.\n"
    elif k == "debug?":
        a, out, err = ["debug", g.choice(["", "dup", "normalise", "normalize ", "unwind", "--help"])] + more, short, "Unknown debug subcommand.\n"
    elif k == "dup":
        a, out, err = ["debug", "duphash"] + g.choice([[], ["gdb"]]), short, "Usage: %s debug duphash TYPE FILE [COMPONENT]\n" % base
    elif k == "type":
        w = g.choice(["invalid", "koops", "js", "", "GDB", "gdb ", free(g, "", 8)])
        if w in T2:
            w += "x"
        a, out, err = ["debug", "duphash", w, missing], "", "Invalid report type %s\n" % w
    elif k == "nofile":
        a, out = g.choice([["debug", "duphash", g.choice(list(T2)), missing], ["debug", "normalize", missing], ["abrt-create-core-stacktrace", missing], ["abrt-print-report-from-dir", missing]]), ""
    elif k == "hook":
        a = ["debug", "unwind-from-hook"] + g.choice([[], ["/bin/x"], ["/bin/x", "1"], ["/bin/x", "1", "2", "3"], ["/bin/x", "x", "11"], ["/bin/x", "1x", "11"], ["/bin/x", "1", "x"],
                                                      ["/bin/x", "1", "11 "]])
        out = ""
    elif k == "norm":
        a, out, err = ["debug", "normalize"], short, "Missing file name.\n"
    elif k == "send":
        a, out = ["abrt-report-dir"] + more, ""
    else:
        p = c.put("")
        a, out = [g.choice(["abrt-print-report-from-dir", "abrt-create-core-stacktrace"]), p], ""
    r = c.cli(*a, name=name)
    c.eq(r[0], rc, "exit status of satyr %r" % (a,))
    if out is not None:
        c.eq(r[1], out, "output of satyr %r" % (a,))
    if err is not None:
        c.eq(r[2], err, "diagnosis of satyr %r" % (a,))
    elif rc and k != "none":
        c.check(r[2].strip(), "satyr %r fails without a diagnosis" % (a,))
    c.label(k)
    c.nontrivial(True)
    c.sample(a)


def normalize(g, c):
    """Only that it neither crashes nor fails: the format of the input is not documented."""
    t = "\n".join(" ".join(free(g, "\n", 10) for _ in range(g.draw(4))) for _ in range(g.size(8))).replace("\0", "")
    r = c.cli("debug", "normalize", c.put(t))
    c.eq(r[0], 0, "exit status")
    c.nontrivial(bool(t))
    c.sample(t)


FACETS = [Facet("report", report, 5), Facet("duphash", duphash, 6), Facet("usage", usage, 3), Facet("normalize", normalize, 1)]
