"""P04: kernel oopses."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from ..koopstext import *

ID = "P04"
CASES = (150000, 4000000)
RULE = ("An oops (frames in the x86, symbol-only, s390, PowerPC and two ARM layouts, instruction pointer lines, special-stack marks, taint line, module list with continuation lines, "
        "unrelated lines, timestamps) is generated together with its text by an independent printer and parsed; the parsed trace must equal the structure. "
        "Non-trivial: at least two frames, or a frame with module, mark or origin, or a module list. Distinct by program text.")


def usual(c, s, frames):
    for f in frames:
        if not f["reliable"]: c.label("unreliable")
        if f["module_name"]: c.label("module")
        if f["from_address"]: c.label("from")
        if f["special_stack"]: c.label("special_stack")
        if f["function_name"] is None: c.label("no_symbol")


def oops(g, c):
    text, s = gen_oops(g, g.choice([3, 8]))
    r = c.run([["parse", 0, "koops", text], ["dump", 0]])
    c.check(r[0][0] == 1, "oops rejected: %s" % r[0][1])
    c.eq(r[1], s, "parsed oops")
    r = c.run([["parseloc", 0, "koops", text], ["dump", 0]])
    c.eq(r[1], s, "parsed oops")
    c.eq(r[0][1], len(text), "read position after the oops")
    usual(c, s, s["frames"])
    if s["modules"]: c.label("modules")
    if any(s["taint_" + f] for f in st.FLAGS): c.label("tainted")
    c.nontrivial(len(s["frames"]) >= 2 or bool(c.labels))
    c.sample(text)


def one(g, c):
    """A single line."""
    t, f = frame(g)
    text = " " * g.draw(3) + t
    rest = g.choice(["", "\n", "\n [<ffff>] foo+0x1/0x2\n"])
    r = c.run([["frameparse", 0, "koops", text + rest], ["dump", 0]])
    c.check(r[0][0] == 1, "frame rejected")
    c.eq(r[1], [f], "parsed frame")
    usual(c, None, [f])
    c.nontrivial(bool(c.labels))
    c.sample(text)


def not_a_frame(g, c):
    text = g.choice([o for o in OTHER if o]) + g.choice(["", "\n"])
    r = c.run([["frameparse", 0, "koops", text]])
    c.eq(r[0][0], 0, "frame made of an unrelated line")
    c.eq(r[0][1], 0, "read position after no frame")
    c.nontrivial(True)


DAMAGED = ["[%a] [%a]", "[%a] [%a] .", "[%a] [%a] (unreliable)", "[%a] [%a] .foo", "[%a] [%a] .foo+%x", "[%a] [%a] .foo+%x/%x junk", "[%a] [%a] .foo+%x/%x (unreliabl)",
           "[%a] [%a] .foo+%x/%x (unreliable) x", "[%a [%a] .foo+%x/%x", "[%a] %a] .foo+%x/%x",
           "[<%a>] (foo) from [<%a>]", "[<%a>] (foo) from (bar+%x/%x)", "[<%a>] (foo) from [<%a>] (bar+%x)", "[<%a>] (foo) from [<%a>] (bar+%x/%x", "[<%a>] (foo) [<%a>] (bar+%x/%x)",
           "[<%a>] () from [<%a>] (bar+%x/%x)", "[<%a>] (foo from [<%a>] (bar+%x/%x)", "[<%a>] (foo+) from [<%a>] (bar+%x/%x)", "[<%a>] (foo) frm [<%a>] (bar+%x/%x)",
           "[<%a>]", "[<%a>] ?", "[<%a>] foo", "[<%a>] foo+%x", "[<%a>] foo %x/%x", "[<%a>] ? foo+%x/%x x", "[<%a>] foo+%x/%x [mod] x", "[<%a>] foo+%x/%x [mod", "[<%a>] foo+%x/%x from",
           "[<%a>] foo+%x/%x from bar+%x/%x", "[<%a>] foo+%x/%x from [<%a>]", "[<%a>] foo+%x/%x from [<%a>] bar+%x", "[<%a>] foo+%x/%x from [<%a>] bar+%x/%x y",
           "([<%a>] foo+%x/%x", "([<%a>] foo+%x/%x x)", "[<%a>] (foo+%x/%x", "[<%a>] (foo+%x/%x [mod]", "[<%a>] (%x", "[<%a>] foo+%x/%x [a] [b]", "%x x", "%x/%x", "[<%a>] +%x/%x"]


def damaged(g, c):
    """A frame with something missing or something more is no frame, in any of the line formats."""
    t, k = "", g.choice(DAMAGED)
    for i, p in enumerate(k.split("%")):
        t += p if not i else ("%x" % (1 + g.uint(60)) if p[0] == "a" else "0x%x" % g.uint(20)) + p[1:]
    t = " " * g.draw(3) + t + g.choice(["", "\n", "\n [<ffff>] foo+0x1/0x2\n"])
    r = c.run([["frameparse", 0, "koops", t], ["dump", 0]])
    c.eq([r[0][:2], r[1]], [[0, 0], None], "no frame in %r" % t)
    c.label(k)
    c.nontrivial(True)
    c.sample(t)


def modules(g, c):
    t, m = gen_modules(g, True)
    n = g.choice(["", "\n" + stamp(g) + " x y\n", "\n" + g.choice(NEXT) + "\n"]) if "[last" not in t else "\nx y\n"
    r = c.run([["koops_modules", t + n]])
    c.eq(r[0][1], m, "parsed module list")
    c.nontrivial(len(m) > 1)
    c.label("%d+" % (len(m) // 10 * 10))
    c.sample(t + n)


def pieces(g, c):
    """The exported scanners of addresses, functions, modules and timestamps."""
    k = g.draw(4)
    rest = g.choice(["", " ", "\n", " x", ")"])
    if k == 0:
        a = address(g)
        t = brackets(g, a)
        r = c.run([["koops_small", "address", t + rest]])[0]
        c.eq(r, [1, len(t), None, None, a, 0], "address")
    elif k == 1:
        m = module(g)
        r = c.run([["koops_small", "module", "[" + m + "]" + rest]])[0]
        c.eq(r, [1, len(m) + 2, m, None, 0, 0], "module")
    elif k == 2:
        t = stamp(g)
        r = c.run([["koops_small", "timestamp", t + rest]])[0]
        c.eq(r, [1, len(t), None, None, 0, 0], "timestamp")
    else:
        f = st.frame_default("koops")
        t = symbol(g, f, paren=g.bool())
        if ambiguous(f):
            return
        r = c.run([["koops_small", "function", t + rest]])[0]
        c.eq([r[0]] + r[2:], [1, f["function_name"], f["module_name"], f["function_offset"], f["function_length"]], "function")
    c.nontrivial(True)


def broken(g, c):
    """Broken pieces are refused without moving the read position."""
    k, t = g.choice([("address", "[<%x]"), ("address", "[%x>]"), ("address", "<%x>]"), ("address", "[<>]"), ("address", "[<%xg>]"), ("address", "[<1%016x>]"), ("module", "[]"), ("module", "[a%x"),
                     ("module", "a%x]"), ("module", "[a %x]"), ("timestamp", "[%d]"), ("timestamp", "[%d."), ("timestamp", "[ .%d]"), ("timestamp", "%d.1]"), ("timestamp", "[1.%d x]"),
                     ("function", "foo%x"), ("function", "foo+0x%x"), ("function", "(foo+0x%x/0x2"), ("function", "+0x%x/0x1"), ("function", "(0x%x"), ("function", "foo%x 0x1/0x2")])
    t = t % g.uint(30) if "%" in t else t
    r = c.run([["koops_small", k, t]])[0]
    c.eq(r[:2], [0, 0], "broken %s" % k)
    c.nontrivial(True)


FACETS = [Facet("oops", oops, 6), Facet("line", one, 3), Facet("not_a_frame", not_a_frame, 1), Facet("modules", modules, 2), Facet("pieces", pieces, 1), Facet("broken", broken, 1), Facet("damaged", damaged, 1)]
