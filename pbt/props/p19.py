"""P19: normalising userspace threads."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal

ID = "P19"
CASES = (240000, 3000000)
RULE = ("GDB and core threads mixing ordinary frames with exit, abort, assertion, library-internal and null frames (source files that do and do not match "
        "the tables) are normalised and compared with a reference model; normalising again, normalising a copy and normalising inside a whole trace must "
        "agree. Non-trivial: at least one frame removed or renamed.")


def tag(t, fr, want, c):
    c.label(t, "unchanged" if want == fr else "all gone" if not want else "removed" if len(want) < len(fr) else "renamed")
    c.nontrivial(want != fr)


def thread(g, c):
    t = g.choice(["gdb", "core"])
    fr = normal.gen_frames(g, t)
    th = dict(st.defaults(st.TFIELDS[t], st.TDEF.get(t, {})), frames=fr)
    op = g.choice(["tnormalize", "%s_normalize%s" % (t, "_thread")])
    r = c.run([["bthread", 0, t, th], ["bthread", 2, t, th], [op, [0]], ["dump", 0], ["tdup", 1, [0]], ["tnormalize", [0]], ["dump", 0], ["dump", 1]]
              + [["gdb_exit_frame", [2]]])
    want = normal.userspace(t, fr)
    c.eq(r[3][0]["frames"], want, "%s thread normalised" % t)
    if t == "gdb":
        c.eq(r[3][0]["number"], th["number"], "thread number")
    c.eq(r[8], normal.exit_frame(t, fr), "exit frame found")
    again = normal.userspace(t, want)
    c.eq(r[6][0]["frames"], again, "thread normalised twice")
    null = sum(f["address"] == 0 and f["function_name"] in (None, "??") for f in fr)
    if null <= 1 and not any((f["function_name"] or "").startswith(("__GI_IA__", "__GI___GI")) for f in fr):
        c.eq(again, want, "model: normalisation is stable")          # sanity of the model and so of the library
    tag(t, fr, want, c)
    c.sample([(f["function_name"], f.get("source_file", f.get("file_name"))) for f in fr])


def whole(g, c):
    """A whole GDB trace: every thread, the crash frame's name, and the crash thread remembered."""
    s = dict(type="gdb", crash_tid=g.choice([st.U32, st.U32, 2, 9]), libs=[], crash=None)
    s["threads"] = [dict(number=i, tid=g.choice([1, 2, 3]) + 10 * i, frames=normal.gen_frames(g, "gdb", 5)) for i in range(g.weighted([(20, g.size(4)), (1, g.int(5, 30))]))]
    if g.bool():
        s["crash"] = normal.gen_frame(g, "gdb")
    r = c.run([["build", 0, s], ["find_crash", 0], ["gdb_normalize", 0], ["dump", 0]])
    d = r[3]
    want = [normal.userspace("gdb", th["frames"]) for th in s["threads"]]
    c.eq([th["frames"] for th in d["threads"]], want, "threads of the trace normalised")
    c.eq([(th["number"], th["tid"]) for th in d["threads"]], [(th["number"], th["tid"]) for th in s["threads"]], "thread numbers")
    if s["crash"] is None:
        c.eq(d["crash"], None, "crash frame")
    else:
        w = dict(s["crash"])
        if w["source_file"] is not None:
            w["function_name"] = normal.strip_prefix(w["function_name"])
        c.eq(d["crash"], w, "crash frame normalised")
    if s["crash_tid"] != st.U32:
        c.eq(d["crash_tid"], s["crash_tid"], "crash thread id")
    else:
        c.eq(d["crash_tid"], st.U32 if r[1] is None else s["threads"][r[1]]["tid"], "crash thread remembered")
    c.nontrivial(any(w != th["frames"] for w, th in zip(want, s["threads"])))
    c.sample([len(th["frames"]) for th in s["threads"]])


def predicates(g, c):
    """Exit frames one by one."""
    t = g.choice(["core", "gdb"])
    f = normal.gen_frame(g, t)
    if t == "core":
        r = c.run([["bframes", 0, t, [f]], ["core_is_exit", ["f", 0, 0]]])[-1]
        c.eq(bool(r), normal.is_exit(t, f), "is an exit frame: %r in %r" % (f["function_name"], f["file_name"]))
    else:
        r = c.run([["bthread", 0, t, dict(frames=[f])], ["gdb_exit_frame", [0]]])[-1]
        c.eq(r, 0 if normal.is_exit(t, f) else None, "is an exit frame: %r in %r" % (f["function_name"], f["source_file"]))
    c.nontrivial(normal.is_exit(t, f))
    c.label(t, str(normal.is_exit(t, f)))


def paired(g, c):
    def fr():
        f = st.frame_default("gdb")
        f["function_name"] = g.choice(["??", "??", "a", "b", None])
        f["library_name"] = g.choice([None, None, "l1", "l2"])
        return f
    a = [fr() for _ in range(g.size(7))]
    b = [fr() for _ in range(g.size(7))]
    if g.bool():                                 # alike, so that pairs exist
        b = [dict(f) for f in a]
        for f in b:
            if g.bool(1, 6):
                f.update(fr())
    r = c.run([["bthread", 0, "gdb", dict(frames=a)], ["bthread", 1, "gdb", dict(frames=b)], ["gdb_paired_unknown", [0], [1]], ["dump", 0], ["dump", 1]])
    wa, wb = normal.pair_model(a, b)
    c.eq(r[3][0]["frames"], wa, "first thread")
    c.eq(r[4][0]["frames"], wb, "second thread")
    c.nontrivial(wa != a)
    c.label("paired" if wa != a else "none")
    c.sample(([f["function_name"] for f in a], [f["function_name"] for f in b]))


FACETS = [Facet("thread", thread, 8), Facet("whole", whole, 3), Facet("predicates", predicates, 1), Facet("paired", paired, 1)]
