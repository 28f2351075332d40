"""P03: shared library tables and attribution of addresses."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from ..gdbtext import *
from . import p29

ID = "P03"
CASES = (200000, 5000000)
RULE = ("Library tables (missing ranges, all symbol states, adjacent and overlapping ranges, titles at any place) are generated with the text around them, printed by an "
        "independent printer, parsed and compared with the structure; addresses are drawn on and around every range boundary and attributed by a linear reference search; the "
        "names set on the frames of traces and threads are compared with the library of each frame's address. Non-trivial: a table of two rows or more, or an address inside a "
        "range. Distinct by program text.")

PRE = ["", "", "[New LWP 12]\n", "Thread 1 (LWP 2):\n#0 foo () at From\n", " From To Syms Read Shared Object Library\n0x1 0x2 Yes /no\n", "From To\n", "From here\n", "xFrom\n",
       "From      To      Syms Read\n", "From To Syms Read Shared Object Library of congress\n", "From From\n", "\n\n", "No shared libraries loaded at this time.\n"]


def table(g, c):
    pre = "".join(g.choice(PRE) for _ in range(g.draw(3)))
    text, libs = gen_table(g)
    k = g.draw(8)
    if k == 0 and libs:
        text = text[:-1]                # the end of the input ends the last row
    elif k == 1 and libs:
        t2, _ = gen_table(g)
        text += g.choice(TAIL[:-2]) + t2        # only the first table counts
    else:
        text += g.choice(TAIL)
    r = c.run([["sharedlib_parse", 0, pre + text], ["dump", 0] if libs else ["sharedlib_count", 1]])
    c.eq(bool(r[0]), bool(libs), "table found")
    if libs:
        c.eq(r[1], libs, "parsed table")
    for l in libs:
        if l["from"] == st.U64: c.label("no_range")
        c.label("syms %d" % l["symbols"])
    c.nontrivial(len(libs) >= 2)
    c.sample(pre + text)


def none(g, c):
    """Without a table there are no libraries."""
    text = "".join(g.choice(PRE) for _ in range(g.draw(4)))
    if g.bool(1, 3):
        text += g.choice(TITLE) + g.choice(TAIL)
    r = c.run([["sharedlib_parse", 0, text]])
    c.eq(bool(r[0]), False, "libraries found without a table")
    c.nontrivial(len(text) > 10)


def gen_libs(g):
    r = []
    a = g.weighted([(3, g.draw(5000)), (1, g.uint(64))])
    for _ in range(g.count(g.draw(6))):
        if g.bool(1, 8):
            fr = to = st.U64
        else:
            fr = a + g.draw(3)
            to = fr + g.choice([0, 1, g.draw(2000), g.uint(32)])
            if g.bool(1, 8):
                fr, to = g.uint(64), g.uint(64)
            fr, to = max(0, min(fr, st.U64)), max(0, min(to, st.U64))
            a = g.choice([to, to + 1, to - 1, fr, to + g.draw(99)])
        r.append({"from": fr, "to": to, "symbols": g.draw(3), "soname": g.choice(["/lib64/libc.so.6", "/usr/lib/libfoo-1.2.so", "/bin/x", "libz.so", "/a.so.d/plugin"]) + (g.choice("123") if g.bool(1, 4) else "")})
    if g.bool():
        r = g.shuffle(r)
    return r


def address(g, libs):
    if libs and g.bool(5, 6):
        l = g.choice(libs)
        lo, hi = min(l["from"], l["to"]), max(l["from"], l["to"])
        return min(st.U64, max(0, g.choice([l["from"], l["to"], l["from"] - 1, l["to"] + 1, l["from"] + 1, l["to"] - 1, g.int(lo, hi)])))
    return g.weighted([(2, st.U64), (1, st.U64 - 1), (1, 0), (1, g.uint(64))])


def find_model(libs, a):
    if a != st.U64:
        for i, l in enumerate(libs):
            if l["from"] <= a <= l["to"]:
                return i
    return None


def find(g, c):
    libs = gen_libs(g)
    prog = [["blibs", 0, libs]] if libs else []
    addrs = [address(g, libs) for _ in range(g.int(1, 6))]
    if not libs:
        return
    exp = [find_model(libs, a) for a in addrs]
    r = c.run(prog + [["sharedlib_find", 0, a] for a in addrs] + [["dump", 0]])
    for a, x, y in zip(addrs, r[1:], exp):
        c.eq(x, y, "library of address 0x%x" % a)
        if y is not None: c.label("inside")
        if y is not None and a in (libs[y]["from"], libs[y]["to"]): c.label("boundary")
    c.eq(r[-1], libs, "table after the search")
    c.nontrivial(any(x is not None for x in exp))


def named(g, c):
    """Filling in the names on a trace or on one of its threads."""
    s = p29.gdb_trace(g)
    s["libs"] = gen_libs(g)
    for th in s["threads"]:
        for f in th["frames"]:
            f["address"] = address(g, s["libs"])
            f["library_name"] = "old" if g.bool(1, 4) and p29.libname(s["libs"], f["address"]) else None
    whole = g.bool()
    t = g.draw(len(s["threads"])) if s["threads"] else None
    if t is None:
        whole = True
    r = c.run([["build", 0, s], ["gdb_set_libnames", 0] if whole else ["gdb_thread_set_libnames", [0, t], ["s", 0]], ["dump", 0]])
    import copy
    e = copy.deepcopy(s)
    for i, th in enumerate(e["threads"]):
        if whole or i == t:
            for f in th["frames"]:
                n = p29.libname(s["libs"], f["address"])
                f["library_name"] = n
                if n: c.label("named")
                else: c.label("unnamed")
    c.eq(r[-1], e, "names of the frames' libraries")
    c.nontrivial("named" in c.labels)


def whole(g, c):
    """From the text of a backtrace with its table to the names of the frames' libraries."""
    text, s = gen_trace(g, 4, 3)
    libs = s["libs"]
    r = c.run([["parse", 0, "gdb", text], ["gdb_set_libnames", 0], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed backtrace rejected: %s" % r[0][1])
    for th in s["threads"]:
        for f in th["frames"]:
            f["library_name"] = p29.libname(libs, f["address"])
    c.eq(r[2], s, "backtrace with libraries")
    c.nontrivial(len(libs) >= 2)
    if libs: c.label("libs")


FACETS = [Facet("table", table, 3), Facet("none", none, 1), Facet("find", find, 3), Facet("named", named, 2), Facet("whole", whole, 2)]
