"""P09: core traces combined from a GDB backtrace and a module listing."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from ..gdbtext import gen_trace
from . import p21

ID = "P09"
CASES = (150000, 4000000)
RULE = ("Module listings (build ids with and without address, unknown files, unrelated lines, overlapping and touching ranges placed on and around the frames' addresses) and GDB "
        "backtraces are generated with their structures; the parsed listing, the module found for an address and the combined core trace must equal those computed from the "
        "structures. Non-trivial: two rows or more, or an address inside a module. Distinct by program text.")
NOISE = ["eu-unstrip: /x: No such file", "", "0x12", "12+0x3 a b c d", "+0x1 x", "x 0x1+0x2 ab /f - m", "0xzz+0x1 ab /f - m", "---"]


def gen_module(g, start, length):
    bid = g.weighted([(5, g.text("0123456789abcdef", 40, 1) + (g.text("0123456789abcdef", 40) if g.bool(1, 6) else "")), (1, "")])
    f = g.choice(["/usr/lib64/libc-2.13.so", "/usr/bin/will_abort", ".", "-", "/usr/lib/" + ident(g) + ".so.1", "/lib/" + free(g, " \t\n", 8, 1, words=False)])
    f = "".join(ch for ch in f if ch not in "\t\n\r\v\f ") or "-"
    m = g.choice(["libc.so.6", "[exe]", "-", ident(g), "linux-vdso.so.1", "[stack:1]"])
    w = g.choice(["0x%x+0x%x", "0x%016x+0x%x", "0x%X+0x%X"])
    t = w % (start, length) + " " + (bid or "-") + (g.choice(["@0x%x" % g.uint(48), "@%x" % g.uint(20), ""]) if bid else "")
    t += " " + f + " " + g.choice(["-", "/usr/lib/debug/x.debug", "."]) + " " + m
    return t, [start, length, bid, f, m]


def gen_listing(g, addrs=(), lo=0):
    """(text, rows)"""
    text, rows = "", []
    a = g.uint(40)
    n = g.weighted([(25, g.int(lo, 5)), (1, g.int(6, 150))])
    for i in range(n):
        if addrs and g.bool(3, 4):
            x = g.choice(addrs)
            start = max(0, x - g.choice([0, 1, g.draw(4096)]))
            length = max(0, x - start + g.choice([0, 1, 2, g.draw(4096)]))
        else:
            start = a + g.choice([0, 1, g.uint(20)])
            length = g.choice([1, 4096, g.uint(24), 0])
            a = start + length
        if start + length > st.U64:
            start, length = 0, 1
        t, r = gen_module(g, start, length)
        while g.bool(1, 10):
            text += g.choice(NOISE) + "\n"
        text += t
        if i + 1 < n or g.bool():
            text += g.choice(["\n", "\n", "\n", " \n", " trailing words\n"])
        rows.append(r)
    if text.endswith("\n") or not text:
        text += g.choice(["", "", "bye\n", "x"])
    return text, rows


def lookup(rows, a):
    for i, r in enumerate(rows):
        if r[0] <= a < r[0] + r[1]:
            return i
    return None


def listing(g, c):
    addrs = [g.uint(48) for _ in range(g.int(1, 3))]
    text, rows = gen_listing(g, addrs)
    probe = list(addrs)
    for r in rows:
        probe += [r[0], max(0, r[0] - 1), r[0] + r[1], max(0, r[0] + r[1] - 1)]
    probe = g.sample(probe, min(len(probe), 6)) + [0, st.U64]
    if not rows:
        c.eq(c.run([["unstrip", 0, text]])[0], None, "listing without rows")
        c.nontrivial(len(text) > 3)
        return
    r = c.run([["unstrip", 0, text]] + [["unstrip_find", 0, a] for a in probe])
    c.eq(r[0], rows, "parsed listing")
    for a, i in zip(probe, r[1:]):
        c.eq(i, lookup(rows, a), "module of address 0x%x" % a)
        if lookup(rows, a) is not None: c.label("inside")
    c.nontrivial(len(rows) > 1 or "inside" in c.labels)
    c.sample(text)


def expected(s, rows, exe):
    e = dict(type="core", **st.stack_default("core"))
    e["executable"] = exe
    e["threads"] = []
    for th in s["threads"]:
        frames = []
        for f in th["frames"]:
            x = st.frame_default("core")
            x["address"] = f["address"]
            i = lookup(rows, f["address"])
            if i is not None:
                x["build_id"], x["build_id_offset"], x["file_name"] = rows[i][2], f["address"] - rows[i][0], rows[i][3]
            x["function_name"] = None if f["function_name"] == "??" else f["function_name"]
            frames.append(x)
        e["threads"].append({"frames": frames})
    return e


def combine(g, c):
    text, s = gen_trace(g, 5, 3)
    addrs = [f["address"] for th in s["threads"] for f in th["frames"] if f["address"] != st.U64]
    ut, rows = gen_listing(g, addrs, 1)
    exe = g.choice(["/usr/bin/will_abort", "/x", "", "/opt/a b"])
    r = c.run([["core_create", 0, text, ut, exe], ["dump", 0]])
    c.check(r[0] == 1, "well-formed backtrace and listing refused")
    e = expected(s, rows, exe)
    got = r[1]
    crash = got.pop("crash_thread", None)
    e.pop("crash_thread", None)
    for th in got["threads"]:
        th.pop("id", None)
    c.eq(got, e, "combined trace")
    c.eq(crash, p21.gdb_crash(s), "crash thread")
    n = sum(f["build_id"] is not None for th in e["threads"] for f in th["frames"])
    if n: c.label("attributed")
    c.label("crash %s" % (None if crash is None else min(crash, 2)))
    c.nontrivial(n > 0)
    c.sample((text, ut))


def refuse(g, c):
    """Without a backtrace or without a module there is no trace."""
    text, s = gen_trace(g, 2, 1)
    ut, rows = gen_listing(g, [], 1)
    k = g.draw(3)
    if k != 1:
        text = g.choice(["", "no threads\n", "Thread 1\n"])
    if k != 0:
        ut = "".join(g.choice(NOISE) + "\n" for _ in range(g.draw(3)))
    r = c.run([["core_create", 0, text, ut, "/x"]])
    c.eq(r[0], 0, "trace made of nothing")
    c.nontrivial(True)


FACETS = [Facet("listing", listing, 3), Facet("combine", combine, 4), Facet("refuse", refuse, 1)]
