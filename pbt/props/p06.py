"""P06: Ruby backtraces."""
from ..core import Facet
from ..gen import *

ID = "P06"
CASES = (300000, 4000000)
RULE = ("An exception structure (class, message, frames with file, line, function, <special> mark, rescue and block nesting) is generated, printed in "
        "Ruby's layout by an independent printer and parsed; the parsed trace must equal the structure (including the read position); malformed "
        "variants must be refused. Non-trivial: at least two frames, nesting, special or anonymised names, or a refused malformed variant.")


def func(g):
    k = g.draw(6)
    if k <= 2:
        return ident(g)
    if k == 3:
        return g.choice(["[]", "+", "==", "initialize", "method_missing", "each!", "<=", "a b", "block", "rescue", "levels) in x", "Foo.bar", "Foo#bar?"])
    s = free(g, "'>\n\t", 16, 1)
    return s


def gen_frame(g):
    special = g.bool(1, 4)
    fn = g.choice(["main", "class:Foo", "top (required)", "module:A::B"]) if special and g.bool(2, 3) else func(g)
    for bad in ("'", ">"):
        fn = fn.replace(bad, "")
    if not special:
        while fn.startswith("<") or fn.startswith("rescue in ") or fn.startswith("block in ") or fn.startswith("block ("):
            fn = "x" + fn
    fn = fn or "f"
    return dict(file=path(g, "`\n\t").replace(":in ", ":im "), line=g.uint(32), func=fn, special=int(special),
                rescue=g.weighted([(6, 0), (2, 1), (1, 2), (1, g.int(3, 6))]), block=g.weighted([(6, 0), (3, 1), (2, g.int(2, 5)), (1, g.uint(32))]))


def print_frame(f, one=None):
    b = ""
    if f["block"] == 1 and not one:
        b = "block in "
    elif f["block"]:
        b = "block (%d levels) in " % f["block"]
    fn = "<%s>" % f["func"] if f["special"] else f["func"]
    return "%s:%d:in `%s%s%s'" % (f["file"], f["line"], "rescue in " * f["rescue"], b, fn)


def expect_frame(f):
    return dict(file_name=anonymize(f["file"]), file_line=f["line"], special_function=f["special"], function_name=f["func"],
                block_level=f["block"], rescue_level=f["rescue"])


def gen_class(g):
    k = g.draw(4)
    if k <= 1:
        return g.choice(["RuntimeError", "NoMethodError", "Wrap::MyException", "LoadError"])
    if k == 2:
        return "::".join(ident(g, 6) for _ in range(g.int(1, 4)))
    return free(g, "(\t\n", 16, 1)


def gen_trace(g):
    frames = series(g, gen_frame, g.size(8, 1))
    msg = free(g, "\t", 40)
    if g.bool(1, 3):
        msg += g.choice(["\nsecond line", " (not it)", "(", ")", "\n(a\n b)", " `x'", "\r\nx", "\r"])
    cls = gen_class(g)
    return frames, msg, cls


def render(frames, msg, cls, final):
    head = print_frame(frames[0]) + ": " + msg + " (" + cls + ")\n"
    rest = "\n".join("\tfrom " + print_frame(f) for f in frames[1:])
    return head, rest + (final if rest else "")


def expected(frames, cls):
    return dict(type="ruby", exception_name=cls, frames=[expect_frame(f) for f in frames])


def parse(g, c):
    frames, msg, cls = gen_trace(g)
    final = g.choice(["", "\n"])
    head, rest = render(frames, msg, cls, final)
    if not rest:
        # at least one "\tfrom" line ends the message
        head2 = head
        frames2 = frames + [gen_frame(g)]
        frames = frames2
        head, rest = render(frames, msg, cls, final)
    text = head + rest
    if g.bool():
        r = c.run([["parse", 0, "ruby", text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed backtrace rejected: %s" % r[0][1])
    else:
        r = c.run([["parseloc", 0, "ruby", text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed backtrace rejected: %s" % r[0][4])
        c.eq(r[0][1], len(text), "read position after the backtrace")
    c.eq(r[1], expected(frames, cls), "parsed backtrace")
    for f in frames:
        if f["special"]: c.label("special")
        if f["rescue"]: c.label("rescue")
        if f["block"]: c.label("block")
        if anonymize(f["file"]) != f["file"]: c.label("anonymized")
    if "\n" in msg:
        c.label("multi-line message")
    c.nontrivial(len(frames) >= 2)
    c.sample(text)


def single(g, c):
    """A backtrace of one frame: the message runs to the end of the text."""
    frames, msg, cls = gen_trace(g)
    frames = frames[:1]
    head, _ = render(frames, msg, cls, "")
    r = c.run([["parse", 0, "ruby", head], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed backtrace rejected: %s" % r[0][1])
    c.eq(r[1], expected(frames, cls), "parsed backtrace")
    c.nontrivial("(" in msg or "\n" in msg or frames[0]["block"] > 1 or frames[0]["rescue"] > 1)
    c.sample(head)


def frame(g, c):
    f = gen_frame(g)
    text = print_frame(f, one=g.bool(1, 5))
    rest = g.choice(["", "\n", ": boom (X)\n", " trailing `x'", "'", ">"])
    r = c.run([["frameparse", 0, "ruby", text + rest], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed frame rejected: %s" % r[0][4])
    c.eq(r[0][1], len(text), "read position after the frame")
    c.eq(r[1], [expect_frame(f)], "parsed frame")
    c.nontrivial(f["special"] or f["rescue"] or f["block"] or anonymize(f["file"]) != f["file"])
    c.sample(text + rest)


def reject(g, c):
    frames, msg, cls = gen_trace(g)
    frames.append(gen_frame(g))
    f = frames[g.draw(len(frames))]
    k = g.choice(["noparen", "noclass", "noin", "badline", "nobacktick", "noquote", "nocolon", "junk", "levels", "nofrom", "bigline", "nospecial", "notail"])
    txt = None
    if k == "noparen":
        m = msg.replace("(", "").replace("\t", "")
        txt = print_frame(frames[0]) + ": " + m + "\n" + "\n".join("\tfrom " + print_frame(x) for x in frames[1:])
    elif k == "noclass":
        txt = print_frame(frames[0]) + ": " + msg + " ()\n" + "\n".join("\tfrom " + print_frame(x) for x in frames[1:])
    elif k == "nocolon":
        txt = print_frame(frames[0]) + g.choice(["", ":", " ", "\n"]) + "x (" + cls + ")\n" + "\n".join("\tfrom " + print_frame(x) for x in frames[1:])
    elif k == "notail":
        txt = print_frame(frames[0]) + ": " + msg + " (" + cls + ")" + g.choice(["", "x", "x\n", ")x\n"])
    elif k == "nofrom":
        txt = render(frames, msg, cls, "\n")[0] + "\t" + g.choice(["at ", "from", ""]) + "\n"
    elif k == "junk":
        txt = "".join(render(frames, msg, cls, "")) + g.choice(["x", " ", "\r", "\t", "'", "\nfrom x", "\n\n", "\n\tfrom ", "\n" + print_frame(gen_frame(g)), "\nfrom " + print_frame(gen_frame(g)),
                                                                "\n\tfrom: " + print_frame(gen_frame(g)) + "\n"])
    else:
        p = print_frame(f)
        base = dict(f)
        if k == "noin":
            q = p.replace(":in `", ":im `", 1)
        elif k == "badline":
            q = p.replace(":%d:in `" % f["line"], ":%s:in `" % g.choice(["", "x", "1x", "-"]), 1)
            if q == p:
                q = "x`y'"
        elif k == "bigline":
            q = p.replace(":%d:in `" % f["line"], ":%s:in `" % g.choice(["4294967296", "99999999999999999999999"]), 1)
        elif k == "nobacktick":
            q = p.replace("`", "'", 1)
        elif k == "noquote":
            q = "f:1:in `" + ("<a>" if f["special"] else "abc") 
        elif k == "levels":
            q = "f:1:in `block (%s levels) in g'" % g.choice(["", "x", "4294967296"])
        else:
            q = "f:1:in `<%s'" % f["func"].replace(">", "")
        lines_ = [q if x is f else print_frame(x) for x in frames]
        txt = lines_[0] + ": " + msg.replace("'", "").replace("`", "") + " (" + cls.replace("'", "").replace("`", "") + ")\n" + "\n".join("\tfrom " + x for x in lines_[1:])
        if k in ("noquote", "nobacktick") and f is not frames[-1]:
            # the quote must not be found in the rest
            i = [x is f for x in frames].index(True)
            txt = "\n".join(txt.split("\n\tfrom ")[:i + 1]) if i else lines_[0]
            if i:
                txt = lines_[0] + ": m (" + "C" + ")\n" + "\n".join("\tfrom " + x for x in lines_[1:i + 1])
    r = c.run([["parse", 0, "ruby", txt], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "malformed backtrace (%s) must be refused" % k)
    c.check(r[0][1], "refusal without a message")
    c.label(k)
    c.nontrivial(True)
    c.sample(txt)


FACETS = [Facet("parse", parse, 8), Facet("single", single, 2), Facet("frame", frame, 3), Facet("reject", reject, 3)]
