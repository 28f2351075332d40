"""P25: clustering and cutting of dendrograms."""
import struct
from ..core import Facet
from ..gen import *

ID = "P25"
CASES = (180000, 1500000)
RULE = ("Distance matrices over 2 to 14 (rarely up to 40) objects: random ones, points on a line or in groups, and ultrametric ones full of equal distances, complete or with fewer rows. "
        "The dendrogram must be that of a reference average-linkage clustering computed from the definition (unique merges) or, with equal distances, separate at every "
        "level exactly the groups closer than it; the leaf order must be a permutation; cuts at levels on, between and beyond the merge levels with minimum sizes must "
        "return the groups of the definition; the matrix must be unchanged. Non-trivial: at least four objects.")


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def setup(m, n, d):
    return [["dist_new", 0, m, n]] + [["dist_set", 0, i, j, d[i][j]] for i in range(m) for j in range(i + 1, n)]


def linkage(d, n):
    """Merges of average-linkage clustering by the definition: [(level, frozenset, frozenset, gap)], gap to the next best pair."""
    cl = [frozenset([i]) for i in range(n)]
    out = []
    while len(cl) > 1:
        pairs = sorted((sum(d[i][j] for i in x for j in y) / (len(x) * len(y)), a, b) for a, x in enumerate(cl) for b, y in enumerate(cl) if a < b)
        lv, a, b = pairs[0]
        out.append((lv, cl[a], cl[b], pairs[1][0] - lv if len(pairs) > 1 else 1))
        new = cl[a] | cl[b]
        cl = [x for k, x in enumerate(cl) if k not in (a, b)] + [new]
    return out


def groups(order, levels, cut):
    """Runs of the leaf order whose internal levels are at or below the cut."""
    out = [[order[0]]]
    for o, l in zip(order[1:], levels):
        if l <= cut:
            out[-1].append(o)
        else:
            out.append([o])
    return out


def components(d, n, cut):
    rest, out = set(range(n)), set()
    while rest:
        todo = {rest.pop()}
        comp = set()
        while todo:
            x = todo.pop()
            comp.add(x)
            near = {y for y in rest if d[x][y] <= cut}
            rest -= near
            todo |= near
        out.add(frozenset(comp))
    return out


def check_cut(g, c, order, levels, prog, reg):
    """Cuts of one dendrogram."""
    n = len(order)
    pick = sorted(set(levels))
    cuts = [g.choice(pick) + g.choice([0, 0, 0.125, -0.125]) for _ in range(3)] + [-1.0, max(levels) + 1, 0.0]
    cuts = [f32(x) for x in cuts]
    sizes = [g.weighted([(3, 1), (2, 2), (2, g.int(0, n + 1)), (1, -1)]) for _ in cuts]
    p = list(prog)
    for lv, sz in zip(cuts, sizes):
        p += [["cut", reg + 1, reg, lv, sz], ["dump", reg + 1], ["free", reg + 1]]
    r = c.run(p + [["dump", reg]])
    for i, (lv, sz) in enumerate(zip(cuts, sizes)):
        want = [x for x in groups(order, levels, lv) if len(x) >= sz]
        got = r[len(prog) + 3 * i + 1]
        got = [] if got is None else got
        c.eq(sorted(got), sorted(want), "cutting %r %r at %r with minimum size %d" % (order, levels, lv, sz))
    return r[-1]


def cluster(g, c):
    n = g.weighted([(5, 2), (10, 3), (30, g.int(4, 9)), (10, g.int(10, 14)), (1, g.int(15, 40))])
    kind = g.draw(3)
    if kind == 0:
        pts = None
        d = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                d[i][j] = d[j][i] = f32(g.uint(30) / 2.0 ** 30)
    else:
        # points near a few centres
        centres = [g.uint(24) / 2.0 ** 20 for _ in range(g.int(1, 4))]
        pts = [f32(g.choice(centres) + g.uint(24) / 2.0 ** (24 if kind == 1 else 18)) for _ in range(n)]
        d = [[f32(abs(x - y)) for y in pts] for x in pts]
    prog = setup(n - 1, n, d)
    r = c.run(prog + [["dist_all", 0], ["cluster", 1, 0], ["dump", 1], ["dist_all", 0]])
    k = len(prog)
    order, levels = r[k + 2]["order"], r[k + 2]["merge_levels"]
    c.eq(r[k + 3], r[k], "matrix after clustering")
    c.eq(sorted(order), list(range(n)), "objects of the leaf order")
    merges = linkage(d, n)
    clear = all(m[3] > (1e-5 if kind == 0 else 1e-4) for m in merges)
    if clear:
        pos = {o: i for i, o in enumerate(order)}
        for lv, x, y, _ in merges:
            ps = sorted(pos[o] for o in x | y)
            c.eq(ps, list(range(ps[0], ps[0] + len(ps))), "places of the merged group %r in the leaf order %r" % (sorted(x | y), order))
            first = x if pos[min(x, key=pos.get)] == ps[0] else y
            b = ps[0] + len(first)
            c.check(abs(levels[b - 1] - lv) < 1e-5 * max(1, abs(lv)) * 4, "level between %r and %r is %r, expected %r" % (sorted(x), sorted(y), levels[b - 1], lv))
            # the two runs are turned so that their closest outer objects meet
            e1 = {order[ps[0]], order[b - 1]}
            e2 = {order[b], order[ps[-1]]}
            best = min(d[i][j] for i in e1 for j in e2)
            c.eq(d[order[b - 1]][order[b]], best, "distance of the outer objects that meet between %r and %r in %r" % (order[ps[0]:b], order[b:ps[-1] + 1], order))
        if max(len(m[1] | m[2]) for m in merges[:-1] or merges) > 3:
            c.label("turned groups")
    check_cut(g, c, order, levels, prog + [["cluster", 1, 0]], 1)
    c.label(["random", "groups", "spread"][kind], "clear" if clear else "close")
    c.nontrivial(n >= 4 and clear)
    c.sample((n, d[0], order, levels))


def orient(g, c):
    """Neighbouring groups are turned so that their closest ends meet."""
    d = [[0.0] * 4 for _ in range(4)]
    # two close pairs; all distances between the pairs differ
    a = [0, 1, 2, 3]
    a = g.shuffle(a)
    cross = [0.5 + 0.05 * i for i in range(4)]
    cross = g.shuffle(cross)
    def put(i, j, v):
        d[a[i]][a[j]] = d[a[j]][a[i]] = f32(v)
    put(0, 1, 0.01)
    put(2, 3, 0.02)
    ends = [(0, 2), (0, 3), (1, 2), (1, 3)]
    for (i, j), v in zip(ends, cross):
        put(i, j, v)
    r = c.run(setup(3, 4, d) + [["cluster", 1, 0], ["dump", 1]])
    order = r[-1]["order"]
    i, j = ends[cross.index(min(cross))]
    meet = {order[1], order[2]}
    c.eq(meet, {a[i], a[j]}, "neighbours where the two pairs of %r join in %r" % (d, order))
    c.nontrivial(True)
    c.label("orientation")


def ultra(g, c):
    """Ultrametric matrices: the groups at every level are known whatever order equal distances are merged in."""
    n = g.count(g.int(3, 14), 30)
    lv = sorted({g.draw(16) / 16 for _ in range(g.int(1, 4))})
    lab = [[0] for _ in range(n)]
    for depth in range(len(lv)):
        for l in lab:
            l.append(g.draw(3))
    # distance: the level at which two label paths part
    def dist(i, j):
        for depth in range(len(lv)):
            if lab[i][depth + 1] != lab[j][depth + 1]:
                return lv[len(lv) - 1 - depth]
        return 0.0
    d = [[dist(i, j) if i != j else 0.0 for j in range(n)] for i in range(n)]
    prog = setup(n - 1, n, d)
    r = c.run(prog + [["cluster", 1, 0], ["dump", 1], ["dist_all", 0]])
    k = len(prog)
    order, levels = r[k + 1]["order"], r[k + 1]["merge_levels"]
    c.eq(sorted(order), list(range(n)), "objects of the leaf order")
    c.eq(r[k + 2], [d[i] for i in range(n - 1)], "matrix after clustering")
    for cut in [0.0] + lv + [x - 1 / 32 for x in lv] + [x + 1 / 32 for x in lv]:
        c.eq({frozenset(x) for x in groups(order, levels, cut)}, components(d, n, cut), "groups at level %r (order %r, levels %r)" % (cut, order, levels))
    check_cut(g, c, order, levels, prog + [["cluster", 1, 0]], 1)
    c.label("ultrametric")
    c.nontrivial(n >= 4 and len(set(levels)) > 1)
    c.sample((n, d[0], order, levels))


def partial(g, c):
    """Fewer rows: unknown distances do not take part, known ones are averaged by group size."""
    n = g.count(g.int(3, 12), 30)
    m = g.int(1, n - 2)
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = f32(g.uint(30) / 2.0 ** 30)
    prog = setup(m, n, d)
    r = c.run(prog + [["dist_all", 0], ["cluster", 1, 0], ["dump", 1], ["dist_all", 0]])
    k = len(prog)
    c.eq(r[k + 3], r[k], "matrix after clustering")
    order, levels = r[k + 2]["order"], r[k + 2]["merge_levels"]
    c.eq(sorted(order), list(range(n)), "objects of the leaf order")
    e = [row[:] for row in d]
    cl = {i: [i] for i in range(n)}
    lev = {}
    clear = True
    while len(cl) > 1:
        pairs = sorted((e[i][j], i, j) for i in cl for j in cl if i < j and i < m)
        if len(pairs) > 1 and pairs[1][0] - pairs[0][0] < 1e-5:
            clear = False
            break
        v, a, b = pairs[0]
        for i in cl:
            if i in (a, b) or not (b < m or i < m):
                continue
            e[i][a] = e[a][i] = (e[i][a] * len(cl[a]) + e[i][b] * len(cl[b])) / (len(cl[a]) + len(cl[b]))
        lev[cl[b][0]] = v
        cl[a] = cl[a] + cl.pop(b)
    if clear:
        want = next(iter(cl.values()))
        c.eq(order, want, "leaf order of the partial matrix")
        for o, l in zip(order[1:], levels):
            c.check(abs(l - lev[o]) < 1e-5, "level before object %d is %r, expected %r" % (o, l, lev[o]))
    check_cut(g, c, order, levels, prog + [["cluster", 1, 0]], 1)
    c.label("partial", "clear" if clear else "close")
    c.nontrivial(n >= 4 and clear)


def cut(g, c):
    n = g.count(g.int(2, 12))
    order = list(range(n))
    order = g.shuffle(order)
    pool = [f32(g.draw(17) / 16) for _ in range(g.int(1, 5))]
    levels = [g.choice(pool) for _ in range(n - 1)]
    after = check_cut(g, c, order, levels, [["dendro_build", 0, order, levels]], 0)
    c.eq((after["order"], after["merge_levels"]), (order, levels), "dendrogram after cutting it")
    c.label("cut")
    c.nontrivial(n >= 4)
    c.sample((order, levels))


FACETS = [Facet("cluster", cluster, 5), Facet("orient", orient, 1), Facet("ultra", ultra, 4), Facet("partial", partial, 2), Facet("cut", cut, 3)]
