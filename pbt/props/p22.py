"""P22: editing traces is list editing (stateful)."""
import struct
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal

ID = "P22"
CASES = (120000, 2000000)
RULE = ("Random sequences of up to ten editing operations (remove a frame, remove the frames above one, keep the top N, limit depth, keep one thread, append or "
        "replace frames and threads, optimise, count, rate) on traces of every type run against a list model; after every operation the whole trace, the reported "
        "success and the counts must equal the model's. Non-trivial: at least two operations on a trace that holds a frame.")


def frame(g, t):
    if t in ("gdb", "core", "koops") and g.bool():
        return normal.gen_frame(g, t)
    f = st.gen_frame(g, t, text=st.plain)
    if t == "gdb" and g.bool(1, 5):
        f["function_name"] = g.choice(["main", "??", None])
    return f


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def gdb_ok(f):
    return bool(f["signal_handler_called"] or (f["function_name"] is not None and f["function_name"] != "??" and f["source_file"]))


def ok(t, f):
    return gdb_ok(f) if t == "gdb" else bool(f["is_native"] or f["file_name"] is not None)


def ratio(t, frames):
    return sum(ok(t, f) for f in frames) / len(frames) if frames else 1.0


def optimised(frames, maxn):
    fr = [f for f in normal.normalize("gdb", frames) if f["function_name"] is not None and f["function_name"] != "main"]
    return fr[:maxn] if maxn > 0 else fr


def new_thread(g, t):
    th = st.gen_thread(g, t, frame, 4, st.plain)
    if t == "core":
        th["id"] = g.draw(1000)
    return th


class Model:
    def __init__(self, s):
        self.s = s

    def ths(self):
        return st.threads_of(self.s)

    def snap(self):
        s = dict(self.s)
        if "threads" in s:
            s["threads"] = [dict(th, frames=[dict(f) for f in th["frames"]]) for th in s["threads"]]
        else:
            s["frames"] = [dict(f) for f in s["frames"]]
        return s


def step(g, m):
    """One operation: (commands, expected results of some of them) and the model updated."""
    s, t = m.s, m.s["type"]
    ths = m.ths()
    threaded = t in st.THREADED
    tref = lambda i: [0, i] if threaded else [0]
    live = [i for i, th in enumerate(ths) if th["frames"]]
    k = g.draw(14)
    if k <= 3 and live:
        i = g.choice(live)
        j = g.choice(live) if g.bool(1, 4) else i
        x = g.draw(len(ths[j]["frames"]))
        typed = ["typed"] if t in ("gdb", "java", "koops") and g.bool() else []
        if k <= 1:
            cmd = ["remove_frame", tref(i), ["t", 0, j, x]] + typed
            if i == j:
                del ths[i]["frames"][x]
        else:
            cmd = ["remove_above", tref(i), ["t", 0, j, x]] + (typed if t != "koops" else [])
            if i == j:
                del ths[i]["frames"][:x]
        return cmd[0] + ("" if i == j else " (foreign)"), [cmd], {0: int(i == j)}
    if k == 4 and ths:
        i = g.draw(len(ths))
        new = [frame(g, t) for _ in range(g.int(1, 3))]
        ths[i]["frames"] += new
        return "append frames", [["bframes", 9, t, new], ["fappend", tref(i), 9]], {}
    if k == 5 and t == "koops":
        new = frame(g, t)
        s["frames"].insert(0, new)
        return "prepend frame", [["bframes", 9, t, [new]], ["fprepend", [0], 9]], {}
    if k == 6 and ths:
        i = g.draw(len(ths))
        old = list(ths[i]["frames"])
        if g.bool():
            ths[i]["frames"] = []
            return "clear frames", [["set_frames", tref(i), None, 8], ["dump", 8], ["free", 8]], {1: old or None}
        new = [frame(g, t) for _ in range(g.int(1, 3))]
        ths[i]["frames"] = list(new)
        return "replace frames", [["bframes", 9, t, new], ["set_frames", tref(i), 9, 8], ["dump", 8], ["free", 8]], {2: old or None}
    if k == 7 and threaded:
        new = [new_thread(g, t) for _ in range(g.int(1, 2))]
        cmds = [["bthread", 9, t, new[0]]]
        if len(new) == 2:
            cmds += [["bthread", 7, t, new[1]], ["tappend", 9, 7]]
        s["threads"] += [dict(x, frames=list(x["frames"])) for x in new]
        return "append threads", cmds + [["tappend", 0, 9]], {}
    if k == 8 and threaded and not s.get("crash_thread") is not None:
        old = m.snap()["threads"]
        if g.bool(1, 3):
            s["threads"] = []
            return "clear threads", [["set_threads", 0, None, 8], ["dump", 8], ["free", 8]], {1: old or None}
        new = new_thread(g, t)
        s["threads"] = [dict(new, frames=list(new["frames"]))]
        return "replace threads", [["bthread", 9, t, new], ["set_threads", 0, 9, 8], ["dump", 8], ["free", 8]], {2: old or None}
    if k == 9 and t in ("gdb", "java") and ths:
        i, n = g.draw(len(ths)), g.count(g.draw(6))
        del ths[i]["frames"][n:]
        return "below n", [["below_n", [0, i], n]], {}
    if k == 10 and t == "gdb" and ths:
        if g.bool():
            n = g.count(g.int(1, 5))
            for th in ths:
                del th["frames"][n:]
            return "limit depth", [["gdb_limit_depth", 0, n]], {}
        i = g.draw(len(ths))
        s["threads"] = [ths[i]]
        return "except one", [["gdb_except_one", 0, [0, i]]], {}
    if k == 11 and t == "gdb" and ths:
        i = g.draw(len(ths))
        if g.bool():
            ths[i]["frames"] = [f for f in ths[i]["frames"] if f["function_name"] != "main"]
            return "optimise", [["gdb_optimize_thread", [0, i]]], {}
        n = g.weighted([(2, 0), (3, g.int(1, 4)), (1, -1)])
        want = dict(ths[i], frames=optimised([dict(f) for f in ths[i]["frames"]], n))
        return "optimised copy", [["gdb_optimized", 8, [0, i], None, n], ["dump", 8], ["free", 8]], {1: [want]}
    if k == 12 and t in ("gdb", "java") and ths:
        i = g.draw(len(ths))
        a, b = g.draw(3), g.draw(5)
        fr = ths[i]["frames"]
        return "quality", [["quality", [0, i], a, b]], {0: ("approx", [a + sum(ok(t, f) for f in fr), b + len(fr), ratio(t, fr)])}
    cmds, exp = [["nthreads", 0]], {0: len(ths)}
    for i in range(len(ths)):
        cmds.append(["fcount", tref(i)])
        exp[len(cmds) - 1] = len(ths[i]["frames"])
    if t in ("gdb", "core"):
        cmds.append([t + "_thread_count", 0])
        exp[len(cmds) - 1] = len(ths)
    return "counts", cmds, exp


def edit(g, c):
    t = g.choice(st.TYPES) if g.bool() else "gdb"
    s = st.gen_stack(g, t, frame=frame, hi=6, threads=4, text=st.plain)
    if t == "core":
        for th in s["threads"]:
            th["id"] = g.draw(1000)
    m = Model(s)
    start = m.snap()
    prog, checks, names = [["build", 0, start]], [], []
    for _ in range(g.count(g.int(1, 10), 30)):
        name, cmds, exp = step(g, m)
        for i, v in exp.items():
            checks.append((len(prog) + i, v, name))
        prog += cmds + [["dump", 0]]
        checks.append((len(prog) - 1, m.snap(), name))
        names.append(name)
    r = c.run(prog)
    for i, v, name in checks:
        what = "%s trace, %s (operations so far: %s)" % (t, name, ", ".join(names))
        if isinstance(v, tuple):
            c.eq(r[i][:2], v[1][:2], what)
            c.check(abs(r[i][2] - v[1][2]) < 1e-5, "%s: quality %r, expected %r" % (what, r[i][2], v[1][2]))
        else:
            c.eq(r[i], v, what)
    c.label(t, *names[:4])
    c.nontrivial(len(names) >= 2 and st.nframes(start) > 0)
    c.sample((t, names))


def quality(g, c):
    """Quality of whole GDB traces."""
    from . import p21
    s = p21.gen_gdb(g)
    for th in s["threads"]:
        for f in th["frames"]:
            if g.bool(1, 4):
                f["source_file"] = g.choice(["", "a.c", None])
    r = c.run([["build", 0, s], ["gdb_quality", 0], ["dump", 0]])
    allf = [f for th in s["threads"] for f in th["frames"]]
    simple = sum(map(gdb_ok, allf)) / len(allf) if allf else 0
    c.check(abs(r[1][0] - simple) < 1e-5, "quality %r, expected %r" % (r[1][0], simple))
    norm = [normal.normalize("gdb", [dict(f) for f in th["frames"]]) for th in s["threads"]]
    nf = [f for fr in norm for f in fr]
    q = sum(map(gdb_ok, nf)) / len(nf) if nf else 0
    ct = p21.gdb_crash(s)
    if ct is not None:
        q = 0.25 * q + 0.35 * ratio("gdb", norm[ct]) + 0.4 * ratio("gdb", norm[ct][:5])
    c.check(abs(r[1][1] - q) < 1e-5, "complex quality %r, expected %r" % (r[1][1], q))
    c.eq(r[2], s, "trace after rating it")
    c.nontrivial(bool(allf))
    c.label("crash thread" if ct is not None else "no crash thread")


def libs(g, c):
    """Lists of shared libraries."""
    a = [[st.gen_lib(g, st.plain) for _ in range(g.int(1, 3))] for _ in range(g.int(2, 4))]
    if g.bool(1, 3):
        a[0] = []                                  # an empty list
    p, want = [], []
    for i, l in enumerate(a):
        p += [["blibs", i, l]] if l else []
    for i in range(1, len(a)):
        p += [["sharedlib_append", 0, i], ["sharedlib_count", 0], ["dump", 0]]
        want += a[i] if i > 1 else a[0] + a[1]
        p[-1].append(list(want))
    w = [x.pop() for x in p if x[0] == "dump"]
    r = c.run(p)
    for i, x in enumerate(w):
        k = [j for j, y in enumerate(p) if y[0] == "dump"][i]
        c.eq(r[k - 1], len(x), "count after %d appends" % (i + 1))
        c.eq(r[k], x, "libraries after %d appends" % (i + 1))
    c.label("%d lists" % len(a))
    c.nontrivial(len(a) > 2)


FACETS = [Facet("edit", edit, 6), Facet("quality", quality, 1), Facet("libs", libs, 1)]
