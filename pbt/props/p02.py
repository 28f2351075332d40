"""P02: GDB backtraces."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from ..gdbtext import *

ID = "P02"
CASES = (80000, 2500000)
RULE = ("A backtrace structure (threads, LWP ids, frames with C and C++ names, return types, argument lists, locations, signal handlers, variable dumps, shared library tables, "
        "text before, between and after) is generated together with its GDB layout by an independent printer and parsed; the parsed trace must equal the structure. "
        "Non-trivial: two frames or more, a rejected input, or a single frame with C++ name, location or signal mark. Distinct by program text.")


def body(r, msg):
    return r


def usual(c, frames):
    for f in frames:
        if f["signal_handler_called"]: c.label("signal")
        if f["function_type"]: c.label("typed")
        n = f["function_name"] or ""
        if "operator" in n: c.label("operator")
        if "<" in n: c.label("template")
        if f["source_file"]: c.label("located")
    c.nontrivial(len(frames) >= 2 or bool(c.labels))


def trace(g, c):
    text, s = gen_trace(g, g.choice([2, 4, 8]))
    tail = g.choice(["", "", "\nFrom To nothing\n", "$1 = 0x0\nNo symbol \"__glib_assert_msg\" in current context.\nrax            0x0      0\n", "\nDump of assembler code for function x:\n=> 0x1 <+2>:  mov\n"])
    if not s["threads"][-1]["frames"]:
        tail = ""
    op = "parse" if g.bool() else "parseloc"
    r = c.run([["parse", 0, "gdb", text + tail] if op == "parse" else ["parseloc", 0, "gdb", text + tail], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed backtrace rejected: %s" % r[0][1 if op == "parse" else 4])
    c.eq(r[1], s, "parsed backtrace")
    c.label("threads %d" % min(len(s["threads"]), 4))
    if s["crash"]: c.label("crash")
    if s["libs"]: c.label("libs")
    usual(c, [f for th in s["threads"] for f in th["frames"]])
    c.sample(text)


def frame(g, c):
    text, f = gen_frame(g, g.weighted([(5, g.draw(30)), (1, g.uint(32))]))
    rest = g.choice(["", "\n", "\n        x = 1\n", "\nNo locals.\n#2 foo ()\n", "\n#1 foo () at x.c:2\n", "\nThread 3 (LWP 1):\n"])
    r = c.run([["frameparse", 0, "gdb_header", text + rest], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed frame rejected: %s" % r[0][4])
    c.eq(r[1], [f], "parsed frame")
    c.eq(r[0][1], len(text), "read position after the frame")
    usual(c, [f])
    c.sample(text)


def frame_vars(g, c):
    """A frame with its variables ends where the next frame or thread begins."""
    text, f = gen_frame(g, g.draw(40))
    text += gen_vars(g)
    nxt = g.choice(["\n#1 foo () at x.c:2\n", "\nThread 3 (LWP 1):\n#0 a ()\n", ""])
    r = c.run([["frameparse", 0, "gdb", text + nxt], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed frame rejected: %s" % r[0][4])
    c.eq(r[1], [f], "parsed frame")
    c.eq(r[0][1], len(text) + (1 if nxt else 0), "read position after the frame and its variables")
    usual(c, [f])


def thread(g, c):
    text, th = gen_thread(g, 8)
    nxt = g.choice(["", "\nThread 3 (LWP 1):\n#0 a ()\n"])
    r = c.run([["threadparse", 0, "gdb", text + nxt], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed thread rejected: %s" % r[0][4])
    c.eq(r[1], [th], "parsed thread")
    usual(c, th["frames"])
    c.sample(text)


def reject(g, c):
    """Without a usable thread there is no backtrace."""
    k = g.draw(5)
    text = gen_head(g)
    if k == 0:
        pass
    elif k == 1:
        ft, f = gen_frame(g, 0)
        text += ft + gen_vars(g) + "\n"
    elif k == 2:
        text += g.choice(["Thread 1", "Thread", "Thread (LWP 12):\n#0 foo () at x.c:1\n", "Thread 1 (LWP):\n#0 foo ()\n", "Thread 1 (LWP 12)\n#0 foo ()\n"])
    elif k == 3:
        text += "Thread %d (LWP %d):\n" % (g.draw(9), g.draw(9999)) + g.choice(["", "No stack.\n", "foo () at x.c:1\n", "# 0 foo () at x.c:1\n"])
    else:
        text = g.choice(["", "\n", "No threads.\n"])
    text += g.choice(["", "", "bye\n"])
    r = c.run([["parseloc", 0, "gdb", text]])
    c.eq(r[0][0], 0, "backtrace made of a text without a usable thread")
    r2 = c.run([["parse", 0, "gdb", text]])
    c.eq(r2[0][0], 0, "backtrace made of a text without a usable thread")
    c.check(bool(r2[0][1]), "rejected without a diagnosis")
    c.nontrivial(k > 0)
    c.sample(text)


FACETS = [Facet("trace", trace, 6), Facet("frame", frame, 3), Facet("frame_vars", frame_vars, 1), Facet("thread", thread, 2), Facet("reject", reject, 1)]
