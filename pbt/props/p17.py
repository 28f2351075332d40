"""P17: comparisons of frames, threads, traces, packages and locations."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from . import p26

ID = "P17"
CASES = (200000, 3000000)
RULE = ("Groups of frames, threads and traces that differ in few facts (small and full-range numbers, unset strings) are compared pairwise in both orders: "
        "zero exactly when the compared facts agree, sign reversed when the operands are, transitive, an unset string below any set one, the distance comparison "
        "equal exactly when the identifying facts agree; packages and locations are compared with a model of the order. Non-trivial: at least one pair that "
        "differs, or an equal pair of distinct objects.")

# facts the comparison takes into account
CMP = {
    "core": ["build_id", "build_id_offset", "function_name", "file_name", "fingerprint"],
    "koops": [n for n, _ in st.FIELDS["koops"]],
    "java": ["is_exception", "name", "class_path", "file_name", "is_native", "file_line"],
    "python": ["function_name", "file_name", "file_line", "special_function", "special_file", "line_contents"],
    "ruby": ["function_name", "file_name", "file_line", "special_function", "block_level", "rescue_level"],
    "js": ["function_name", "file_name", "file_line", "line_column"],
    "gdb": ["function_name", "function_type", "source_file", "source_line", "library_name"],
}
DIST = {"koops": ["function_name"], "java": ["name"], "python": ["function_name", "file_name", "special_function", "special_file"],
        "ruby": ["function_name", "file_name", "special_function"], "js": ["file_line", "function_name", "file_name"]}


def key(t, f, number=False):
    if t == "gdb" and f["signal_handler_called"]:
        return ("signal",)
    if t == "java" and f["is_exception"]:
        return (1, f["name"])
    return tuple(f[k] for k in CMP[t]) + ((f["number"],) if number else ())


def dist_equal(t, a, b):
    if t == "core":
        if a["function_name"] is not None and b["function_name"] is not None:
            return a["function_name"] == b["function_name"]
        if (a["build_id"], a["build_id_offset"]) == (b["build_id"], b["build_id_offset"]):
            return True
        return a["fingerprint"] is not None and a["fingerprint"] == b["fingerprint"]
    if t == "gdb":
        if a["function_name"] == "??" or a["function_name"] != b["function_name"]:
            return False
        return a["library_name"] is None or b["library_name"] is None or a["library_name"] == b["library_name"]
    return all(a[k] == b[k] for k in DIST[t])


def sgn(x):
    return (x > 0) - (x < 0)


STR = ["", "a", "b", "ab", "??", "A", "\xc3\xa9", "a b"]
NUMS = {1: [0, 1], 32: [0, 1, 2, 1 << 31, (1 << 31) + 1, st.U32, st.U32 - 1, 1 << 16], 64: [0, 1, 2, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, st.U64, st.U64 - 1, 1 << 33],
        16: [0, 6, 11]}


def fact(g, kind):
    if kind == st.S:
        return g.weighted([(1, None), (4, g.choice(STR)), (1, st.plain(g))])
    return g.choice(NUMS[kind]) if g.bool(5, 6) or kind == 1 else g.uint(kind)


def vary(g, t, f):
    f = dict(f)
    names = st.FIELDS[t]
    for _ in range(g.weighted([(1, 0), (5, 1), (2, 2), (1, 4)])):
        n, k = g.choice(names)
        f[n] = fact(g, k)
    return f


def gen_base(g, t):
    return {n: fact(g, k) for n, k in st.FIELDS[t]}


def group(g, t, n):
    base = gen_base(g, t)
    out = [base]
    while len(out) < n:
        out.append(vary(g, t, g.choice(out)))
    return out


def build(reg, t, frames, **kw):
    if t in st.THREADED:
        return ["bthread", reg, t, dict(frames=frames, **kw)]
    return ["build", reg, dict(type=t, frames=frames, **kw)]


def check_order(c, m, keys, what):
    """m[i][j]: the comparison of i with j."""
    n = len(keys)
    for i in range(n):
        c.eq(m[i][i], 0, "%s compared with itself" % what)
        for j in range(n):
            c.check((m[i][j] == 0) == (keys[i] == keys[j]), "%s: comparison gives %d for\n  %r\n  %r" % (what, m[i][j], keys[i], keys[j]))
            c.check(sgn(m[i][j]) == -sgn(m[j][i]), "%s: comparing in reverse gives %d and %d for\n  %r\n  %r" % (what, m[i][j], m[j][i], keys[i], keys[j]))
            for k in range(n):
                if m[i][j] < 0 and m[j][k] < 0:
                    c.check(m[i][k] < 0, "%s: not transitive for\n  %r\n  %r\n  %r" % (what, keys[i], keys[j], keys[k]))


def frames(g, c):
    t = g.choice(st.TYPES)
    n = 3 if g.bool() else 4
    fr = group(g, t, n)
    number = int(g.bool())
    op = "fcmptyped" if g.bool() else "fcmp"
    prog = [build(0, t, fr)]
    for i in range(n):
        for j in range(n):
            a, b = ["t", 0, 0, i], ["t", 0, 0, j]
            prog.append([op, a, b, number] if op == "fcmptyped" else [op, a, b])
            prog.append(["fcmpd", a, b])
    r = c.run(prog + [["dump", 0]])
    c.eq(r[-1][0]["frames"] if t in st.THREADED else r[-1]["frames"], fr, "%s frames after comparing" % t)
    cells = r[1:-1]
    num = t == "gdb" and op == "fcmptyped" and number
    m = [[cells[2 * (i * n + j)] for j in range(n)] for i in range(n)]
    d = [[cells[2 * (i * n + j) + 1] for j in range(n)] for i in range(n)]
    if op == "fcmptyped":
        for i in range(n):
            for j in range(n):
                c.eq(m[i][j][1], d[i][j], "%s distance comparison" % t)
        m = [[x[0] for x in row] for row in m]
    keys = [key(t, f, num) for f in fr]
    check_order(c, m, keys, "%s frames" % t)
    for i in range(n):
        for j in range(n):
            c.check((d[i][j] == 0) == dist_equal(t, fr[i], fr[j]), "%s frames: distance comparison gives %d for\n  %r\n  %r" % (t, d[i][j], fr[i], fr[j]))
            diff = [k for k in range(len(keys[i])) if keys[i][k] != keys[j][k]] if len(keys[i]) == len(keys[j]) else []
            if len(diff) == 1 and keys[i][diff[0]] is None:
                c.check(m[i][j] < 0, "%s frames: an unset string is not the smallest in\n  %r\n  %r" % (t, keys[i], keys[j]))
    c.label(t)
    c.nontrivial(len(set(keys)) > 1 or n > 1)
    c.sample((t, keys))


def gen_thread(g, t, pool):
    return [dict(f) for f in g.many(lambda: g.choice(pool), g.size(4))]


def tkw(g, t):
    if t == "gdb":
        return dict(number=g.choice([0, 1, 2, 1 << 31, st.U32]), tid=g.choice([0, 5, 1 << 31]))
    if t == "java":
        return dict(name=g.choice([None, "", "main", "a"]))
    return {}


def threads(g, c):
    t = g.choice(st.TYPES)
    pool = group(g, t, g.int(2, 3))
    n = 3
    base = gen_thread(g, t, pool)
    kw = tkw(g, t)
    objs = [(base, kw)]
    while len(objs) < n:
        fr, k = objs[g.draw(len(objs))]
        fr = [dict(f) for f in fr]
        how = g.draw(5)
        if how == 0 and fr:
            fr[g.draw(len(fr))] = dict(g.choice(pool))
        elif how == 1:
            fr.append(dict(g.choice(pool)))
        elif how == 2 and fr:
            fr.pop(g.choice([0, len(fr) - 1]))
        elif how == 3 and t in ("gdb", "java"):
            k = tkw(g, t)
        elif how == 4 and len(fr) > 1:
            fr = g.shuffle(fr)
        objs.append((fr, k))
    op = t + "_thread_cmp" if t in st.THREADED and g.bool() else "tcmp"
    prog = [build(i, t, fr, **k) for i, (fr, k) in enumerate(objs)]
    prog += [[op, [i], [j]] for i in range(n) for j in range(n)]
    r = c.run(prog)[n:]
    m = [r[i * n:(i + 1) * n] for i in range(n)]
    keys = [([k.get("number")] if t == "gdb" else [k.get("name")] if t == "java" else []) + [key(t, f, t == "gdb") for f in fr] for fr, k in objs]
    check_order(c, m, keys, "%s threads" % t)
    c.label(t, "equal" if keys[0] == keys[1] else "different")
    c.nontrivial(True)
    c.sample((t, keys))


def traces(g, c):
    """Java traces compare thread by thread."""
    pool = group(g, "java", 3)
    n = 3
    objs = [[dict(frames=gen_thread(g, "java", pool), **tkw(g, "java")) for _ in range(g.size(3))]]
    while len(objs) < n:
        th = [dict(x, frames=[dict(f) for f in x["frames"]]) for x in g.choice(objs)]
        how = g.draw(4)
        if how == 0:
            th.append(dict(frames=gen_thread(g, "java", pool), **tkw(g, "java")))
        elif how == 1 and th:
            th.pop(g.draw(len(th)))
        elif how == 2 and th:
            x = th[g.draw(len(th))]
            if x["frames"]:
                x["frames"][-1] = vary(g, "java", x["frames"][-1])
        objs.append(th)
    prog = [["build", i, dict(type="java", threads=th)] for i, th in enumerate(objs)]
    prog += [["java_stack_cmp", i, j] for i in range(n) for j in range(n)]
    r = c.run(prog)[n:]
    keys = [[(x["name"], [key("java", f) for f in x["frames"]]) for x in th] for th in objs]
    check_order(c, [r[i * n:(i + 1) * n] for i in range(n)], keys, "Java traces")
    c.label("equal" if keys[0] == keys[1] else "different")
    c.nontrivial(any(keys))
    c.sample(keys)


def kinds(g, c):
    """Objects of different types are never equal."""
    a = g.choice(st.TYPES)
    b = g.choice([t for t in st.TYPES if t != a])
    fa, fb = gen_base(g, a), gen_base(g, b)
    ra, rb = ["t", 0, 0, 0], ["t", 1, 0, 0]
    r = c.run([build(0, a, [fa]), build(1, b, [fb]), ["fcmp", ra, rb], ["fcmp", rb, ra], ["fcmpd", ra, rb], ["fcmpd", rb, ra], ["tcmp", [0], [1]], ["tcmp", [1], [0]]])
    for i in (2, 4, 6):
        c.check(r[i] != 0 and sgn(r[i]) == -sgn(r[i + 1]), "%s and %s objects compare as %d and %d" % (a, b, r[i], r[i + 1]))
    c.nontrivial(True)
    c.label(a + "/" + b)


def locations(g, c):
    n = 3
    ls = [[g.choice([1, 2, 3, 1000, 2147483647]), g.choice([0, 1, 2, 80, 2147483647]), g.choice([None, "", "a", "b"])] for _ in range(n)]
    for l in ls[1:]:
        k = g.draw(3)
        l[k:] = ls[0][k:]
    msg = int(g.bool())
    r = c.run([["loc_cmp", a, b, msg] for a in ls for b in ls])
    keys = [tuple(l[:2]) + ((l[2] is not None, l[2] or "") if msg else ()) for l in ls]
    check_order(c, [r[i * n:(i + 1) * n] for i in range(n)], keys, "locations")
    for i in range(n):
        for j in range(n):
            c.eq(sgn(r[i * n + j]), (keys[i] > keys[j]) - (keys[i] < keys[j]), "order of locations %r and %r" % (ls[i], ls[j]))
    c.nontrivial(True)
    c.label("messages" if msg else "positions")


FACETS = [Facet("frames", frames, 8), Facet("threads", threads, 5), Facet("traces", traces, 1), Facet("kinds", kinds, 1), Facet("packages", p26.compare, 2),
          Facet("locations", locations, 1)]
