"""P18: copies."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal

ID = "P18"
CASES = (180000, 3000000)
RULE = ("A trace, thread, frame, shared-library list or distance matrix is copied (with or without siblings); the copy must equal the original in every "
        "field, then one of the two is edited (fields overwritten, frames removed, normalised) and freed while the other must stay exactly as it was. "
        "Non-trivial: the object holds at least one frame, library or distance and was edited.")


def frame(g, t):
    if t in ("gdb", "core", "koops") and g.bool():
        return normal.gen_frame(g, t)
    return st.gen_frame(g, t, text=st.plain, consistent=False)


def stack(g, t):
    s = st.gen_stack(g, t, frame=frame, hi=5, threads=3, text=st.plain)
    if t == "core":
        for th in s["threads"]:
            th["id"] = g.int(0, 100000)
    return s


def new_fields(g, fields):
    d = {}
    for n, k in g.sample(fields, g.int(1, min(4, len(fields)))):
        d[n] = int(g.bool()) if k == 1 else g.opt(lambda: st.plain(g)) if k == st.S else g.opt(lambda: g.list(lambda: st.plain(g), 3)) if k == "strv" else \
            (g.choice([0, 0x11]) if n == "platform" else g.uint(k))
    return d


def edits(g, s, reg):
    """Operations that edit the trace in the register; never through a frame removed before."""
    t = s["type"]
    out = []
    ths = st.threads_of(s)
    counts = [len(th["frames"]) for th in ths]
    for _ in range(g.int(1, 4)):
        k = g.draw(6)
        live = [i for i, n in enumerate(counts) if n]
        if k <= 1 and live:
            i = g.choice(live)
            out.append(["mutate", ["t", reg, i, g.draw(counts[i])], new_fields(g, st.FIELDS[t])])
        elif k == 2 and live:
            i = g.choice(live)
            out.append(["remove_frame", [reg, i], ["t", reg, i, g.draw(counts[i])]])
            counts[i] -= 1
        elif k == 3 and live:
            i = g.choice(live)
            j = g.draw(counts[i])
            out.append(["remove_above", [reg, i], ["t", reg, i, j]])
            counts[i] -= j
        elif k == 4 and st.SFIELDS[t]:
            out.append(["mutate", ["s", reg], new_fields(g, st.SFIELDS[t])])
        elif k == 5 and t in st.THREADED and ths and st.TFIELDS[t]:
            out.append(["mutate", ["h", reg, g.draw(len(ths))], new_fields(g, st.TFIELDS[t])])
        elif t == "gdb" and s["libs"]:
            out.append(["mutate", ["l", reg, g.draw(len(s["libs"]))], g.choice([{"soname": "other"}, {"soname": None}, {"from": 1}])])
    if g.bool(1, 3) and ths:
        i = g.draw(len(ths))
        out.append(["tnormalize", [reg, i] if t in st.THREADED else [reg]])
    if t == "gdb" and s["crash"] and g.bool():
        out.append(["mutate", ["c", reg], new_fields(g, st.FIELDS[t])])
    return out


def trace(g, c):
    t = g.choice(st.TYPES)
    s = stack(g, t)
    victim = g.draw(2)
    ed = edits(g, s, victim)
    prog = [["build", 0, s], ["sdup", 1, 0], ["dump", 1], ["dump", 0]] + ed
    k = len(prog)
    prog += [["dump", 1 - victim], ["free", victim], ["dump", 1 - victim]]
    r = c.run(prog)
    c.eq(r[2], s, "copy of the %s trace" % t)
    c.eq(r[3], s, "%s trace after copying it" % t)
    who = ["the copy", "the original"][victim == 1]
    c.eq(r[k], s, "%s of the %s trace after editing the other" % (who, t))
    c.eq(r[k + 2], s, "%s of the %s trace after freeing the other" % (who, t))
    c.label(t, "edits %d" % min(len(ed), 4))
    c.nontrivial(bool(st.nframes(s) and ed))
    c.sample((s, ed))


def thread(g, c):
    t = g.choice(list(st.THREADED))
    s = stack(g, t)
    if not s["threads"]:
        s["threads"].append(dict(st.gen_thread(g, t, frame), **({"id": 4} if t == "core" else {})))
    i = g.draw(len(s["threads"]))
    how = g.draw(3)
    if how == 2:
        op, want = ["tdup", 1, [0, i]], [s["threads"][i]]
    else:
        op, want = ["tdupsib", 1, [0, i], how], s["threads"][i:] if how else [s["threads"][i]]
    nth = len(want)
    vict = g.draw(2)
    ed = []
    if vict == 0:
        ed = edits(g, s, 0)
    else:
        j = g.draw(nth)
        if want[j]["frames"]:
            ed.append(["mutate", ["t", 1, j, g.draw(len(want[j]["frames"]))], new_fields(g, st.FIELDS[t])])
            ed.append(["remove_frame", [1, j], ["t", 1, j, g.draw(len(want[j]["frames"]))]])
        if st.TFIELDS[t]:
            ed.append(["mutate", ["h", 1, j], new_fields(g, st.TFIELDS[t])])
        if g.bool():
            ed.append(["tnormalize", [1, j]])
    prog = [["build", 0, s], op, ["dump", 1], ["dump", 0]] + ed
    k = len(prog)
    r = c.run(prog + [["dump", 1 - vict], ["free", vict], ["dump", 1 - vict]])
    c.eq(r[2], want, "copy of %s thread %d (%s)" % (t, i, op[0]))
    c.eq(r[3], s, "%s trace after copying a thread" % t)
    left = want if vict == 0 else s
    c.eq(r[k], left, "untouched side after editing the other (%s thread)" % t)
    c.eq(r[k + 2], left, "untouched side after freeing the other (%s thread)" % t)
    c.label(t, op[0], "siblings %d" % (nth - 1))
    c.nontrivial(any(th["frames"] for th in want))


def frames(g, c):
    t = g.choice(st.TYPES)
    fr = [st.gen_frame(g, t, text=st.plain, consistent=False) for _ in range(g.int(1, 5))]
    k, sib = g.draw(len(fr)), g.draw(2)
    want = fr[k:] if sib else [fr[k]]
    vict = g.draw(2)
    ref = ["f", vict, g.draw(len(fr) if vict == 0 else len(want))]
    r = c.run([["bframes", 0, t, fr], ["fdup", 1, ["f", 0, k], sib], ["dump", 1], ["dump", 0], ["mutate", ref, new_fields(g, st.FIELDS[t])], ["dump", 1 - vict],
               ["free", vict], ["dump", 1 - vict]])
    c.eq(r[2], want, "copy of %s frame %d of %d (siblings: %d)" % (t, k, len(fr), sib))
    c.eq(r[3], fr, "%s frames after copying" % t)
    left = want if vict == 0 else fr
    c.eq(r[5], left, "untouched %s frames after editing the others" % t)
    c.eq(r[7], left, "untouched %s frames after freeing the others" % t)
    c.label(t, "siblings" if sib else "single")
    c.nontrivial(True)


def libs(g, c):
    ls = [st.gen_lib(g, st.plain) for _ in range(g.int(1, 4))]
    sib = g.draw(2)
    want = ls if sib else ls[:1]
    vict = g.draw(2)
    r = c.run([["blibs", 0, ls], ["sharedlib_dup", 1, 0, sib], ["dump", 1], ["mutate", ["L", vict, g.draw(len(want if vict else ls))], g.choice([{"soname": "x"}, {"soname": None}, {"symbols": 1}, {"to": 3}])],
               ["dump", 1 - vict], ["free", vict], ["dump", 1 - vict]])
    left = want if vict == 0 else ls
    c.eq(r[2], want, "copy of the library list (siblings: %d)" % sib)
    c.eq(r[4], left, "untouched library list after editing the other")
    c.eq(r[6], left, "untouched library list after freeing the other")
    c.nontrivial(True)
    c.label("siblings" if sib else "single")


def dist(g, c):
    m = g.int(1, 4)
    n = g.int(max(m, 2), 6)
    cells = [[i, j, g.draw(1000) / 8.0] for i in range(m) for j in range(i + 1, n) if g.bool(3, 4)]
    vict = g.draw(2)
    r = c.run([["dist_new", 0, m, n]] + [["dist_set", 0, i, j, v] for i, j, v in cells] + [["dist_dup", 1, 0], ["dist_all", 0], ["dist_all", 1],
              ["dist_set", vict, 0, 1, 777.0], ["dist_all", 1 - vict], ["free", vict], ["dist_all", 1 - vict]])
    k = len(cells) + 2
    want = r[k]
    for i, j, v in cells:
        c.eq(want[i][j], v, "distance %d,%d" % (i, j))
    c.eq(r[k + 1], want, "copy of the distances")
    c.eq(r[k + 3], want, "untouched distances after changing the other matrix")
    c.eq(r[k + 5], want, "untouched distances after freeing the other matrix")
    c.nontrivial(bool(cells))
    c.label("%dx%d" % (m, n))


FACETS = [Facet("trace", trace, 6), Facet("thread", thread, 4), Facet("frames", frames, 2), Facet("libs", libs, 1), Facet("dist", dist, 1)]
