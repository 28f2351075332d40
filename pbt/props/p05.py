"""P05: Python tracebacks."""
from ..core import Facet
from ..gen import *

ID = "P05"
BUILD = ["server"]
CASES = (200000, 1200000)
RULE = ("A traceback structure (frames, names, special marks, source lines, caret lines, syntax errors, surrounding text) is generated, printed in "
        "the interpreter's layout by an independent printer and parsed; the parsed trace must equal the structure. Non-trivial: at least two "
        "frames, or a special/syntax/home-directory feature, or a rejected malformed variant. Distinct by program text.")
HEADER = "Traceback (most recent call last):\n"


def special(s):
    """(is special, stored name) for a printed name"""
    if len(s) >= 1 and s[0] == "<" and s[-1] == ">":
        return 1, s[1:-1]
    return 0, s


def gen_frame(g):
    fn = g.choice(["<module>", "<lambda>", "<genexpr>", "<listcomp>"]) if g.bool(1, 4) else free(g, "\n", 16, 1)
    if fn == "<":
        fn = "x"
    fi = g.choice(["<string>", "<stdin>", "<frozen importlib._bootstrap>"]) if g.bool(1, 5) else path(g, "\"\n")
    if len(fi) == 1 and fi in "<>" or len(fn) == 1 and fn in "<>":
        fi = fn = "y"
    src = None
    if g.bool(3, 4):
        src = free(g, "\n", 30, 1)
        if g.bool(1, 6):
            src = "  " + src
    caret = None
    if src is not None and g.bool(1, 4):
        caret = " " * g.int(4, 12) + g.text("^~", 8, 1)
    return dict(file=fi, line=g.uint(32), func=fn, src=src, caret=caret)


def print_frame(f):
    s = '  File "%s", line %d' % (f["file"], f["line"])
    if f["func"] is not None:
        s += ", in " + f["func"]
    s += "\n"
    if f["src"] is not None:
        s += "    " + f["src"] + "\n"
    if f["caret"] is not None:
        s += f["caret"] + "\n"
    return s


def expect_frame(f):
    sf, fi = special(f["file"])
    if f["func"] is None:
        sn, fu = 1, "syntax"
    else:
        sn, fu = special(f["func"])
    return dict(special_file=sf, file_name=anonymize(fi), file_line=f["line"], special_function=sn, function_name=fu, line_contents=f["src"])


def gen_exc(g):
    k = g.draw(4)
    if k <= 1:
        return g.choice(["ValueError", "KeyError", "ZeroDivisionError", "StopIteration", "OSError"])
    if k == 2:
        return ".".join(ident(g, 6) for _ in range(g.int(1, 4)))
    s = free(g, ":\n", 20, 1)
    return s if s.strip(" ^~") and not s.startswith(" ") else "E" + s


def gen_trace(g):
    """(text up to the end of the exception name, frames, exception)"""
    kind = g.weighted([(8, "normal"), (2, "syntax_import"), (2, "syntax_script")])
    frames = []
    if kind != "syntax_script":
        frames = series(g, gen_frame, g.size(8, 1))
    if kind != "normal":
        f = gen_frame(g)
        f["func"] = None
        if f["src"] is None:
            f["src"] = "x = = 1"
        f["caret"] = " " * g.int(4, 10) + "^"
        frames.append(f)
    exc = gen_exc(g)
    if kind == "syntax_script":
        pre = lines(g, ["Traceback (most", "invalid syntax (", "  File \""], 2)
        if pre.startswith("\n"):
            pre = "x" + pre
        text = pre + "invalid syntax (%s, line %d)\n\n" % (frames[0]["file"], frames[0]["line"])
        text = text.replace('  File "', "")
    else:
        pre = "\n" * g.draw(2) + lines(g, ["Traceback (most", "invalid syntax ("], 3)
        text = pre + HEADER
    text += "".join(print_frame(f) for f in frames) + exc
    return kind, text, frames, exc


def tail(g, script):
    k = g.draw(4)
    if k == 0:
        return "\n"
    if k == 1:
        return ": " + free(g, "", 40) + "\n" + lines(g)
    if k == 2:
        return ": " + free(g, "", 40) + "\n\nLocal variables in innermost frame:\n" + lines(g) + ("" if script else HEADER) + "  File \"x\", line 1, in y\nE\n"
    return ""


def expected(frames, exc):
    return dict(type="python", exception_name=exc, frames=[expect_frame(f) for f in reversed(frames)])


def parse(g, c):
    kind, text, frames, exc = gen_trace(g)
    full = text + tail(g, kind == "syntax_script")
    if g.bool():
        r = c.run([["parse", 0, "python", full], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed traceback rejected: %s" % r[0][1])
        d = r[1]
    else:
        r = c.run([["parseloc", 0, "python", full], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed traceback rejected: %s" % r[0][4])
        c.eq(r[0][1], len(text), "read position after the traceback")
        d = r[1]
    c.eq(d, expected(frames, exc), "parsed traceback")
    c.label(kind)
    for f in frames:
        e = expect_frame(f)
        if e["special_file"]: c.label("special_file")
        if e["file_name"] != f["file"] and not e["special_file"]: c.label("anonymized")
        if f["caret"]: c.label("caret")
        if f["src"] is None: c.label("no_source")
    c.nontrivial(len(frames) >= 2 or kind != "normal" or bool(c.labels[1:]))
    c.sample(full)


def frame(g, c):
    f = gen_frame(g)
    f["caret"] = None
    pre = ""
    if g.bool(1, 4):
        pre = " " * g.int(0, 5) + g.text("^~", 5) + "\n"
    text = print_frame(f)
    rest = g.choice(["", "  File \"a\", line 1, in b\n", "ValueError: x\n", "^^\n"])
    if f["src"] is None and rest.startswith("    "):
        rest = ""
    r = c.run([["frameparse", 0, "python", pre + text + rest], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed frame rejected: %s" % r[0][4])
    c.eq(r[0][1], len(pre + text), "read position after the frame")
    c.eq(r[1], [expect_frame(f)], "parsed frame")
    c.nontrivial(True)
    c.sample(pre + text + rest)


def cutframe(g, c):
    """A frame that ends inside its first line is no frame."""
    f = gen_frame(g)
    s = '  File "%s", line %d' % (f["file"], f["line"])
    s = s[:g.draw(len(s) + 1)] if g.bool() else s + g.choice(["", ",", ", in", ", in "])
    r = c.run([["frameparse", 0, "python", s], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "a frame cut short must be refused")
    c.nontrivial(True)
    c.sample(s)


def reject(g, c):
    """Damaged tracebacks are refused with a message."""
    kind, text, frames, exc = gen_trace(g)
    k = g.choice(["noheader", "noframe", "noexc", "badline", "badquote", "cut"])
    body = "".join(print_frame(f) for f in frames)
    if k == "noheader":
        full = (body + exc + ": m\n").replace("Traceback (most", "").replace("invalid syntax (", "")
    elif k == "noframe":
        full = HEADER + exc + ": m\n"
    elif k == "noexc":
        if frames[-1]["src"] is None:
            frames[-1]["src"] = "x"
        frames[-1]["caret"] = None
        full = HEADER + "".join(print_frame(f) for f in frames) + g.choice(["", ":", "\n", ": x\n"])
        if full.endswith("\n\n"):
            full = full[:-1] + ":"
    elif k == "badline":
        frames[0]["line"] = 0
        full = HEADER + ('  File "%s", line %s, in f\n' % (frames[0]["file"], g.choice(["", "x", "-1", "4294967296", "99999999999999999999999"]))) + exc + "\n"
    elif k == "badquote":
        full = HEADER + '  File "%s' % frames[0]["file"]
    else:
        # cut inside the first line of the only frame
        f = dict(frames[-1], src=None, caret=None)
        s = '  File "%s", line %d' % (f["file"], f["line"])
        if f["func"] is not None:
            s += g.choice(["", ",", ", in", ", in ", ", in " + f["func"], ", in " + f["func"][:1]])
        full = HEADER + s
    r = c.run([["parse", 0, "python", full], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "malformed traceback (%s) must be refused" % k)
    c.check(r[0][1], "refusal without a message")
    c.label(k)
    c.nontrivial(True)
    c.sample(full)


FACETS = [Facet("parse", parse, 8), Facet("frame", frame, 3), Facet("reject", reject, 2), Facet("cutframe", cutframe, 1)]
