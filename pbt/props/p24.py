"""P24: distance matrices, whole and in parts."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal
from . import p23

ID = "P24"
CASES = (60000, 1500000)
RULE = ("Lists of 2 to 8 threads of one type (with unknown functions for GDB) compared m against n with every metric: each entry must equal the reference distance of "
        "the two threads, in either index order, zero on the diagonal; the computation split into 1 to many parts, computed in random order and merged from a shuffled "
        "list must give the identical matrix; parts missing, not computed, of another matrix, metric or thread list or outside the matrix must be refused; matrices are "
        "set, read and copied against a model. Non-trivial: at least three threads, or at least three parts.")


def pairwise(kind, t, a, b):
    if t == "gdb":
        ok = all(f["signal_handler_called"] or (f["function_name"] not in (None, "??") and f["source_file"]) for f in a + b)
        if not ok:
            a, b = normal.pair_model(a, b)
    return p23.model(kind, t, a, b)


def gen_threads(g, t, n):
    p = p23.pool(g, t)
    if t == "gdb":
        for f in p:
            f["signal_handler_called"] = int(g.bool(1, 6))
            f["source_file"] = g.choice(["a.c", "", None])
    out = []
    for _ in range(n):
        out.append(p23.mutate(g, p, g.choice(out)) if out and g.bool(2, 3) else [g.choice(p) for _ in range(g.draw(g.weighted([(30, 7), (1, 80)])))])
    return [[dict(f) for f in fr] for fr in out]


def triangle(m, n):
    return [(i, j) for i in range(m) for j in range(i + 1, n)]


def shape(g, most=120):
    n = g.weighted([(79, g.int(2, 8)), (1, g.int(9, most))])
    return g.weighted([(3, n - 1), (4, g.int(1, n - 1)), (1, n), (1, n + 3)]), n


def same(c, got, want, what):
    for (i, j), w in want.items():
        c.check(abs(got[i][j] - w) < 2e-6, "%s: entry (%d, %d) is %r, expected %r" % (what, i, j, got[i][j], w))


def compare(g, c):
    t = g.choice(st.TYPES)
    m, n = shape(g)
    rows = min(m, n - 1)
    kind = g.draw(4)
    own = min(n, 50)                       # the rest of a long list are threads of its beginning again
    ths = gen_threads(g, t, own)
    prog = [p23.thread(10 + i, t, fr) for i, fr in enumerate(ths)]
    ths = [ths[i % own] for i in range(n)]
    refs = [[10 + i % own] for i in range(n)]
    k = len(prog)
    nparts = g.weighted([(5, g.int(1, 6)), (2, g.int(1, 40)), (1, 5000)])
    r = c.run(prog + [["compare", 0, refs, m, n, kind], ["dist_all", 0], ["parts_create", 1, m, n, kind, nparts], ["dump", 1]] + [["dump", 10 + i] for i in range(own)])
    whole = r[k + 1]
    c.eq((len(whole), len(whole[0])), (rows, n), "size of the matrix")
    want, known = {}, {}
    for i, j in triangle(rows, n):
        if (i % own, j % own) not in known:
            known[i % own, j % own] = pairwise(kind, t, ths[i], ths[j])
        want[i, j] = known[i % own, j % own]
        if j < rows:
            want[j, i] = want[i, j]
    for i in range(rows):
        want[i, i] = 0.0
    same(c, whole, want, "%s threads, metric %d" % (t, kind))
    for i in range(own):
        d = r[k + 4 + i]
        c.eq((d[0] if isinstance(d, list) else d)["frames"], ths[i], "thread %d after comparing" % i)
    parts = r[k + 3]
    cells = triangle(rows, n)
    c.eq([p["len"] for p in parts], [len(cells) // nparts + (i < len(cells) % nparts) for i in range(min(nparts, len(cells)))], "lengths of the parts")
    at = 0
    for p in parts:
        c.eq((p["m"], p["n"], p["dist_type"]), (rows, n, kind), "part")
        c.eq((p["m_begin"], p["n_begin"]), cells[at], "beginning of a part")
        at += p["len"]
    order = list(range(len(parts)))
    order = g.shuffle(order)
    prog += [["parts_create", 1, m, n, kind, nparts]] + [["parts_compute", 1, i, refs] for i in order] + [["dump", 1]]
    r2 = c.run(prog + [["parts_merge", 2, 1], ["dist_all", 2]])
    c.eq(r2[-1], whole, "matrix merged from %d parts" % len(parts))
    # the same parts stored, shuffled and read back
    done = r2[len(prog) - 1]
    c.check(len({p["checksum"] for p in done}) == 1, "parts of one computation have different checksums")
    sh = list(done)
    sh = g.shuffle(sh)
    r3 = c.run([["parts_build", 1, sh], ["parts_merge", 2, 1], ["dist_all", 2]])
    c.eq(r3[2], whole, "matrix merged from shuffled parts")
    # one part computed from other threads (recognised by their lengths)
    other = g.choice([i for i in range(n)])
    repl = [i for i in range(n) if len(ths[i]) != len(ths[other])]
    if len(parts) > 1 and repl:
        refs2 = list(refs)
        refs2[other] = refs[g.choice(repl)]
        odd = g.draw(len(parts))
        r5 = c.run(prog[:own + 1] + [["parts_compute", 1, i, refs2 if i == odd else refs] for i in order] + [["parts_merge", 2, 1]])
        c.eq(r5[-1], 0, "merging parts when part %d was computed with another thread at %d" % (odd, other))
        c.label("wrong threads")
    # and broken
    bad = [dict(p) for p in sh]
    b = g.choice(bad)
    others = len(bad) > 1
    what = g.draw(7)
    name = ["missing part", "part not computed", "other threads", "other metric", "other size", "beginning outside", "too long"][what]
    if what == 0:
        bad.remove(b)
        if others and g.bool():
            bad.append(dict(bad[0]))
    elif what == 1:
        b["distances"] = None
    elif what == 2:
        b["checksum"] = b["checksum"] ^ 1 << g.draw(32)
    elif what == 3:
        b["dist_type"] = (b["dist_type"] + 1) % 4
    elif what == 4:
        k = g.choice("mn")
        b[k] += g.choice([1, -1]) if b[k] > 2 else 1
    elif what == 5:
        b.update(g.choice([dict(m_begin=rows), dict(n_begin=n), dict(n_begin=b["m_begin"]), dict(m_begin=b["n_begin"])]))
    else:
        b["len"] = len(cells) + 1
        b["distances"] = b["distances"] + [0.5] * (b["len"] - len(b["distances"]))
    if what in (2, 3) and not others:
        name = None                        # nothing to be inconsistent with
    elif what == 4 and not others:
        name = None
    if name and bad:
        r4 = c.run([["parts_build", 1, bad], ["parts_merge", 2, 1]])
        c.eq(r4[1], 0, "merging parts with a defect: %s" % name)
        c.label(name)
    c.nontrivial(n > 2)
    c.label(t, "%d parts" % min(3, len(parts)), "full" if rows == n - 1 else "partial")
    c.sample((t, kind, m, n, nparts, whole))


def matrix(g, c):
    """Reading, writing and copying a matrix."""
    m, n = shape(g)
    rows = min(m, n - 1)
    vals = {}
    prog = [["dist_new", 0, m, n]]
    for i, j in triangle(rows, n):
        vals[i, j] = g.draw(1 << 20) / 1024
        prog.append(["dist_set", 0] + ([j, i] if g.bool() else [i, j]) + [vals[i, j]])
    for i in range(rows):
        if g.bool():
            prog.append(["dist_set", 0, i, i, 7.0])
    for _ in range(g.draw(6)):
        i, j = g.choice(list(vals))
        vals[i, j] = g.draw(1 << 20) / 1024
        prog.append(["dist_set", 0] + ([j, i] if g.bool() else [i, j]) + [vals[i, j]])
    full = [[0.0 if i == j else vals[min(i, j), max(i, j)] for j in range(n)] for i in range(rows)]
    k = len(prog)
    i, j = g.choice(list(vals))
    r = c.run(prog + [["dist_all", 0], ["dist_dup", 1, 0], ["dist_set", 0, i, j, -1.0], ["dist_all", 1], ["dist_get", 0, j, i], ["dist_set", 1, i, j, -2.0],
                      ["dist_get", 0, i, j], ["free", 0], ["dist_get", 1, j, i]])
    c.eq(r[0], [rows, n], "size")
    c.eq(r[k], full, "matrix")
    c.eq(r[k + 3], full, "copy of the matrix")
    c.eq((r[k + 4], r[k + 6], r[k + 8]), (-1.0, -1.0, -2.0), "entries after changing both")
    c.nontrivial(n > 2)
    c.label("matrix")


def none(g, c):
    m, n = shape(g)
    c.eq(c.run([["parts_create", 0, m, n, 1, 0]]), [0], "no parts")
    # the list of threads a part is computed from is told apart by its lengths
    t = g.choice(st.TYPES)
    a = gen_threads(g, t, 3)
    b = [list(x) for x in a]
    i = g.draw(3)
    b[i] = b[i] + [dict(st.frame_default(t))]
    prog = [p23.thread(10 + k, t, fr) for k, fr in enumerate(a + b)]
    r = c.run(prog + [["parts_create", 0, 2, 3, 2, 3], ["parts_compute", 0, 0, [[10], [11], [12]]], ["parts_compute", 0, 1, [[13], [14], [15]]],
                      ["parts_compute", 0, 2, [[10], [11], [12]]], ["parts_merge", 1, 0]])
    c.eq(r[-1], 0, "merging parts computed from different threads")
    c.nontrivial(True)


FACETS = [Facet("compare", compare, 8), Facet("matrix", matrix, 3), Facet("none", none, 1)]
