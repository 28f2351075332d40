"""P23: distances between threads."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from . import p17

ID = "P23"
CASES = (60000, 2000000)
RULE = ("Pairs of threads of every type over small pools of frames (repeated frames, unknown names, unknown libraries, empty threads, one a mutation of the other: "
        "insertions, deletions, swaps of neighbours, moves) up to 60 frames; the four distances in both directions must equal reference implementations over the "
        "library's frame equality, leave the threads alone and be 1 between different types. Non-trivial: both threads hold frames and share at least one.")
JW, JACCARD, LEV, DAM = range(4)


def equal(t):
    return lambda a, b: p17.dist_equal(t, a, b)


def edit(a, b, eq, swaps):
    """Levenshtein distance; with swaps of neighbours (optimal string alignment)."""
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if not i or not j:
                d[i][j] = i + j
                continue
            cost = 0 if eq(a[i - 1], b[j - 1]) else 1
            d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + cost)
            if swaps and i > 1 and j > 1 and eq(a[i - 1], b[j - 2]) and eq(a[i - 2], b[j - 1]):
                d[i][j] = min(d[i][j], d[i - 2][j - 2] + cost)
    return d[len(a)][len(b)]


def jaccard(a, b, eq):
    def dist(x):
        return [f for i, f in enumerate(x) if not any(eq(f, o) for o in x[i + 1:])]
    sa, sb = dist(a), dist(b)
    inter = sum(any(eq(f, o) for o in b) for f in sa)
    union = len(sa) + len(sb) - inter
    return max(0.0, 1 - inter / union) if union else 0.0


def jaro_winkler(a, b, eq):
    """Similarity as the header describes it: matches not farther away than half the longer thread minus one (at least the same position),
    a match elsewhere than at the same position is half a transposition, bonus for up to four common first frames."""
    if not a and not b:
        return 1.0
    reach = max(0, max(len(a), len(b)) // 2 - 1)
    m = moved = 0
    for i, f in enumerate(a):
        at = next((j for j, o in enumerate(b) if abs(i - j) <= reach and eq(f, o)), None)
        if at is not None:
            m += 1
            moved += at != i
    if not m:
        return 0.0
    prefix = 0
    while prefix < min(4, len(a), len(b)) and eq(a[prefix], b[prefix]):
        prefix += 1
    jaro = (m / len(a) + m / len(b) + (m - moved / 2) / m) / 3
    return jaro + prefix * 0.2 * (1 - jaro)


def model(kind, t, a, b):
    eq = equal(t)
    if kind == JW:
        return jaro_winkler(a, b, eq)
    if kind == JACCARD:
        return jaccard(a, b, eq)
    n = max(len(a), len(b))
    return edit(a, b, eq, kind == DAM) / n if n else 0.0


def pool(g, t):
    n = g.int(1, 6)
    out = []
    for _ in range(n):
        f = st.gen_frame(g, t, text=st.plain)
        if g.bool(2, 3):
            for k in ("function_name", "name"):
                if k in f:
                    f[k] = g.choice(["a", "b", "c", "??", "main", None])
        if t == "gdb":
            f["library_name"] = g.choice([None, None, "l1", "l2"])
        if t == "core":
            f["build_id"] = g.choice([None, "b1", "b2"])
            f["build_id_offset"] = g.draw(3)
            f["fingerprint"] = g.choice([None, "f1", "f2"])
        if t in ("python", "ruby", "js") and g.bool():
            f["file_name"] = g.choice(["x", "y", None])
        if t == "js":
            f["file_line"] = g.draw(3)
        out.append(f)
    return out


def mutate(g, p, a):
    b = list(a)
    for _ in range(g.draw(5)):
        k = g.draw(5)
        if k == 0:
            b.insert(g.draw(len(b) + 1), g.choice(p))
        elif b and k == 1:
            del b[g.draw(len(b))]
        elif len(b) > 1 and k == 2:
            i = g.draw(len(b) - 1)
            b[i], b[i + 1] = b[i + 1], b[i]
        elif b and k == 3:
            b.insert(g.draw(len(b)), b.pop(g.draw(len(b))))
        elif b:
            b[g.draw(len(b))] = g.choice(p)
    return b


def noise(g, t, f):
    """Change a fact that does not identify the frame."""
    f = dict(f)
    k = {"gdb": "address", "core": "address", "koops": "address", "java": "file_line", "python": "file_line", "ruby": "file_line", "js": "line_column"}[t]
    f[k] = g.draw(1000)
    return f


def gen_pair(g, t):
    p = pool(g, t)
    hi = g.weighted([(120, 8), (40, 20), (20, 60), (1, 160)])
    lo = 0 if hi < 100 else 90
    a = [g.choice(p) for _ in range(g.int(lo, hi))]
    if a and g.bool(1, 4):
        a.append(pool(g, t)[0])            # not met before
    b = mutate(g, p, a) if g.bool(2, 3) else [g.choice(p) for _ in range(g.int(lo, hi))]
    if g.bool():
        b = [noise(g, t, f) for f in b]
    return [dict(f) for f in a], [dict(f) for f in b]


def thread(reg, t, frames):
    return ["bthread", reg, t, dict(frames=frames)] if t in st.THREADED else ["build", reg, dict(type=t, frames=frames)]


def pair(g, c):
    t = g.choice(st.TYPES)
    a, b = gen_pair(g, t)
    prog = [thread(0, t, a), thread(1, t, b)]
    for k in range(4):
        prog += [["distance", k, [0], [1]], ["distance", k, [1], [0]], ["distance", k, [0], [0]]]
    r = c.run(prog + [["dump", 0], ["dump", 1]])
    for k, name in enumerate(("Jaro-Winkler", "Jaccard", "Levenshtein", "Damerau-Levenshtein")):
        for got, x, y in zip(r[2 + 3 * k:5 + 3 * k], (a, b, a), (b, a, a)):
            want = model(k, t, x, y)
            c.check(abs(got - want) < 2e-6, "%s of %s threads is %r, expected %r for\n  %r\n  %r" % (name, t, got, want, [show(t, f) for f in x], [show(t, f) for f in y]))
    c.eq([x["frames"] for x in (r[-2] if isinstance(r[-2], list) else [r[-2]])], [a], "first thread afterwards")
    c.eq([x["frames"] for x in (r[-1] if isinstance(r[-1], list) else [r[-1]])], [b], "second thread afterwards")
    eq = equal(t)
    c.nontrivial(any(eq(x, y) for x in a for y in b))
    c.label(t, "%s frames" % (0 if not a or not b else "1-8" if max(len(a), len(b)) < 9 else "9+"))
    c.sample((t, [show(t, f) for f in a], [show(t, f) for f in b]))


def show(t, f):
    if t == "core":
        return (f["function_name"], f["build_id"], f["build_id_offset"], f["fingerprint"])
    if t == "gdb":
        return (f["function_name"], f["library_name"])
    return tuple(f[k] for k in p17.DIST[t])


def kinds(g, c):
    """Threads of different types have nothing in common."""
    t = g.choice(st.TYPES)
    u = g.choice([x for x in st.TYPES if x != t])
    a, b = gen_pair(g, t)[0], gen_pair(g, u)[0]
    r = c.run([thread(0, t, a), thread(1, u, b)] + [["distance", k, [0], [1]] for k in range(4)])
    c.eq(r[2:], [1.0] * 4, "distance of a %s thread from a %s thread" % (t, u))
    c.label("types")
    c.nontrivial(bool(a and b))


FACETS = [Facet("pair", pair, 12), Facet("kinds", kinds, 1)]
