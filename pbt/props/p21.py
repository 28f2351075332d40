"""P21: crash thread and crash frame."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal

ID = "P21"
CASES = (200000, 3000000)
RULE = ("GDB, core and Java traces of up to five threads with top frames from a small pool (so that several threads match the crash frame), crash LWP ids known, "
        "unknown or pointing nowhere, and abort functions in some threads: the crash thread and the crash frame found must be those of a reference model, and "
        "the trace must be unchanged. Non-trivial: at least two threads.")

TOPS = ["foo", "bar", "??", "raise", "poll"]


def gen_gdb(g):
    s = dict(type="gdb", **st.stack_default("gdb"))
    s["threads"] = []
    for i in range(g.weighted([(1, 0), (2, 1), (4, 2), (4, 3), (2, 5)])):
        th = dict(number=g.weighted([(4, i + 1), (1, 1), (1, g.uint(32))]), tid=g.weighted([(4, 100 + i), (1, 100), (1, st.U32), (1, g.uint(32))]))
        fr = normal.gen_frames(g, "gdb", 5)
        if fr and g.bool(3, 4):
            fr[0] = dict(fr[0], function_name=g.choice(TOPS))
        if g.bool(1, 5):
            fr = [dict(f) for f in (s["threads"][-1]["frames"] if s["threads"] else fr)]
            if fr and g.bool():
                fr[-1] = dict(fr[-1], **{g.choice(["number", "source_line"]): g.draw(50)})
        th["frames"] = fr
        s["threads"].append(th)
    s["libs"] = []
    s["crash"] = None
    if g.bool(3, 4):
        s["crash"] = dict(st.frame_default("gdb"), function_name=g.weighted([(6, g.choice(TOPS)), (1, None), (1, "nowhere")]), number=0)
    s["crash_tid"] = g.weighted([(5, st.U32), (2, 100), (2, 101), (1, 7), (1, g.uint(32))])
    return s


def fkey(f):
    s = lambda x: (x is not None, x or "")
    if f["signal_handler_called"]:
        return (1,)
    return (0, s(f["function_name"]), s(f["function_type"]), s(f["source_file"]), f["source_line"], s(f["library_name"]), f["number"])


def tkey(th):
    return tuple(fkey(f) for f in th["frames"])


def gdb_crash(s):
    ths = s["threads"]
    if len(ths) <= 1:
        return 0 if ths else None
    if s["crash_tid"] != st.U32:
        for i, th in enumerate(ths):
            if th["tid"] == s["crash_tid"]:
                return i
    if s["crash"] is None or s["crash"]["function_name"] is None:
        return None
    match = [i for i, th in enumerate(ths) if th["frames"] and th["frames"][0]["function_name"] == s["crash"]["function_name"]]
    if len(match) == 1:
        return match[0]
    aborting = [i for i in match if normal.exit_frame("gdb", ths[i]["frames"]) is not None]
    if len(aborting) == 1:
        return aborting[0]
    return min(match, key=lambda i: (tkey(ths[i]), i)) if match else None


def gdb(g, c):
    s = gen_gdb(g)
    prog = [["build", 0, s]]
    if s["crash_tid"] != st.U32 and g.bool():
        prog = [["build", 0, dict(s, crash_tid=g.uint(32))], ["gdb_set_crash_tid", 0, s["crash_tid"]]]
    k = len(prog)
    r = c.run(prog + [["find_crash", 0], ["gdb_find_crash", 0], ["gdb_crash_frame", 1, 0], ["dump", 1], ["dump", 0], ["free", 0], ["dump", 1]])
    want = gdb_crash(s)
    c.eq(r[k], want, "crash thread")
    c.eq(r[k + 1], want, "crash thread (GDB interface)")
    frame = None
    if want is not None:
        left = normal.normalize("gdb", s["threads"][want]["frames"])
        frame = left[0] if left else None
    got = r[k + 3]
    c.eq(got, [frame] if frame else None, "crash frame (of thread %r)" % want)
    c.eq(r[k + 2], int(frame is not None), "a crash frame found")
    c.eq(r[k + 4], s, "the trace afterwards")
    c.eq(r[k + 6], got, "the crash frame after the trace is gone")
    c.nontrivial(len(s["threads"]) > 1)
    c.label("none" if want is None else "tid" if s["crash_tid"] != st.U32 and s["threads"][want]["tid"] == s["crash_tid"] else "frame", "threads %d" % len(s["threads"]))
    c.sample((s["crash_tid"], s["crash"] and s["crash"]["function_name"], [(t["tid"], [f["function_name"] for f in t["frames"]]) for t in s["threads"]], want))


def core(g, c):
    n = g.weighted([(1, 0), (2, 1), (5, 2), (3, 4)])
    s = dict(type="core", **st.stack_default("core"))
    s["threads"] = [dict(id=i, frames=normal.gen_frames(g, "core", 5)) for i in range(n)]
    s["crash_thread"] = g.draw(n) if n and g.bool(1, 3) else None
    want = s["crash_thread"]
    if want is None and n == 1:
        want = 0
    if want is None:
        ab = [i for i, th in enumerate(s["threads"]) if normal.exit_frame("core", th["frames"]) is not None]
        want = ab[0] if ab else None
    s["only_crash_thread"] = g.bool(1, 3)
    r = c.run([["build", 0, s], ["find_crash", 0], ["dump", 0]])
    c.eq(r[1], want, "crash thread of the core trace")
    c.eq(r[2], s, "the trace afterwards")
    c.nontrivial(n > 1)
    c.label("marked" if s["crash_thread"] is not None else "found" if want is not None else "none")
    c.sample((s["crash_thread"], [[f["function_name"] for f in t["frames"]] for t in s["threads"]], want))


def single(g, c):
    t = g.choice(["java", "python", "ruby", "js", "koops"])
    s = st.gen_stack(g, t, text=st.plain, hi=3)
    r = c.run([["build", 0, s], ["find_crash", 0], ["dump", 0]])
    c.eq(r[1], 0 if st.threads_of(s) else None, "crash thread of the %s trace" % t)
    c.eq(r[2], s, "the trace afterwards")
    c.nontrivial(bool(st.threads_of(s)))
    c.label(t)


FACETS = [Facet("gdb", gdb, 8), Facet("core", core, 4), Facet("single", single, 1)]
