"""P26: RPM packages."""
import functools
from ..core import Facet
from ..gen import *

ID = "P26"
CASES = (300000, 3000000)
RULE = ("Package strings are built from parts (and from damaged parts) and must split into exactly the parts or be refused without touching the outputs; "
        "package lists are sorted, made unique, compared and parsed from generated dso_list files and compared with a Python model. Non-trivial: "
        "a string with all parts, a refused string, or a list of at least two packages.")
NAMEC = list(LOWER) + list("0123456789_+.")
VERC = list(LOWER) + list("0123456789_+.~^")


def part(g, al, hi=8):
    return g.text(al, hi, 1)


def gen_name(g):
    return "-".join(part(g, NAMEC) for _ in range(g.weighted([(4, 1), (2, 2), (1, 3)])))


def gen_parts(g):
    n = gen_name(g)
    e = g.weighted([(3, None), (1, 0), (1, 1), (2, g.uint(32))])
    v, r = part(g, VERC), part(g, VERC)
    a = g.choice(["x86_64", "i686", "noarch", "s390x", "src"]) if g.bool(3, 4) else part(g, [c for c in VERC if c != "."])
    return n, e, v, r, a


def nevra_text(p):
    n, e, v, r, a = p
    return "%s-%s%s-%s.%s" % (n, "" if e is None else "%d:" % e, v, r, a)


def nevra(g, c):
    p = gen_parts(g)
    txt = nevra_text(p)
    bad = None
    if g.bool(1, 3):
        n, e, v, r, a = p
        bad = g.choice(["noarch", "norel", "nover", "noname", "epoch", "bigepoch", "emptyepoch", "noverafterepoch", "nodash", "onedash", "noarch2", "signepoch"])
        one = n.replace("-", "").replace(".", "")
        nodot = lambda s: s.replace(".", "") or "1"
        txt = {"noarch": "%s-%s-%s." % (n, v, r), "norel": "%s-%s-.%s" % (n, v, a), "nover": "%s--%s.%s" % (n, r, a), "noname": "-%s-%s.%s" % (v, r, a),
               "epoch": "%s-%s:%s-%s.%s" % (n, g.choice(["x", "1x", "0x1", "x1", "1.0", "~"]), v, r, a),
               "bigepoch": "%s-%s:%s-%s.%s" % (n, g.choice(["4294967296", "18446744073709551616", "99999999999999999999999999"]), v, r, a),
               "emptyepoch": "%s-:%s-%s.%s" % (n, v, r, a), "noverafterepoch": "%s-1:-%s.%s" % (n, r, a), "nodash": one + v + "." + a,
               "onedash": "%s-%s.%s" % (one or "x", r, a), "noarch2": "%s-%s-%s" % (nodot(n), nodot(v), nodot(r)),
               "signepoch": "%s-%s:%s-%s.%s" % (n, g.choice(["+1", " 1", "\t1", "1 "]), v, r, a)}[bad]
    if txt.startswith("-") and bad is None:
        bad = "noname"
    res = c.one(["rpm_nevra", txt])
    if bad:
        c.eq(res, 0, "package name %r (%s) must be refused without side effects" % (txt, bad))
        c.label(bad)
    else:
        c.eq(res, [p[0], p[1] or 0, p[2], p[3], p[4]], "parts of %r" % txt)
        c.label("epoch" if p[1] is not None else "no epoch")
    c.nontrivial(True)
    c.sample(txt)


def nvr(g, c):
    n, _, v, r, _ = gen_parts(g)
    k = g.weighted([(6, None), (1, "norel"), (1, "nover"), (1, "noname"), (1, "nodash"), (1, "onedash"), (1, "empty")])
    txt = {None: "%s-%s-%s" % (n, v, r), "norel": "%s-%s-" % (n, v), "nover": "%s--%s" % (n, r), "noname": "-%s-%s" % (v, r), "nodash": n.replace("-", ""),
           "onedash": n.replace("-", "") + "-" + v, "empty": g.choice(["", "-", "--", "---"])}[k]
    res = c.one(["rpm_nvr", txt])
    if k:
        c.eq(res, 0, "package name %r (%s) must be refused without side effects" % (txt, k))
        c.label(k)
    else:
        c.eq(res, [n, v, r], "parts of %r" % txt)
    c.nontrivial(True)
    c.sample(txt)


BIG = [0, 1, 2, 3, 5, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 30]


def gen_pkg(g, small=True):
    f = lambda *xs: g.choice(xs)
    return dict(name=f("a", "b", "ab", "B"), epoch=f(*BIG) if g.bool(1, 3) else f(0, 0, 1), version=f("1", "2", "10", "1.0"), release=f("1", "2", "1.el6"),
                architecture=f("x86_64", "x86_64", "i686", None, "noarch"), install_time=f(0, 0, 5, 1 << 32, (1 << 63), (1 << 64) - 1, 7, 1 << 31), role=f(0, 0, 1))


def s(x):
    return (x is not None, x or "")


def nvr_key(p):
    return (s(p["name"]), s(p["version"]), s(p["release"]))


def nevra_key(p):
    return nvr_key(p) + (p["epoch"], s(p["architecture"]))


def sgn(x):
    return (x > 0) - (x < 0)


def cmp3(a, b):
    return (a > b) - (a < b)


def gen_cons(g):
    l = []
    for _ in range(g.weighted([(3, 0), (1, 1), (1, 2)])):
        d = {k: int(g.bool(1, 6)) for k in ("owner_changed", "group_changed", "mode_changed", "md5_mismatch", "size_changed", "major_number_changed",
                                             "minor_number_changed", "symlink_changed", "modification_time_changed")}
        d["path"] = g.choice(["/a", "/b", None])
        l.append(d)
    return l


CONSF = ("owner_changed", "group_changed", "mode_changed", "md5_mismatch", "size_changed", "major_number_changed", "minor_number_changed", "symlink_changed", "modification_time_changed")


def cons_key(l):
    # a list that ends first is smaller
    return tuple((1, s(d["path"])) + tuple(d[f] for f in CONSF) for d in l)


def compare(g, c):
    a = gen_pkg(g)
    b = dict(a) if g.bool(1, 3) else gen_pkg(g)
    for k in g.sample(list(a), g.draw(3)):
        b[k] = gen_pkg(g)[k]
    for p in (a, b):
        for k in ("name", "version", "release"):
            if g.bool(1, 12):
                p[k] = None
    a["consistency"] = gen_cons(g)
    b["consistency"] = [dict(x) for x in a["consistency"]] if g.bool() else gen_cons(g)
    r = c.run([["brpm", 0, [a]], ["brpm", 1, [b]], ["rpm_cmp", 0, 1], ["rpm_cmp", 1, 0], ["rpm_cmp", 0, 0]])
    full = lambda p: nevra_key(p) + (p["install_time"], cons_key(p["consistency"]))
    e = [cmp3(full(a), full(b)), cmp3(nvr_key(a), nvr_key(b)), cmp3(nevra_key(a), nevra_key(b))]
    c.eq([sgn(x) for x in r[2]], e, "order of %r and %r (full, NVR, NEVRA)" % (a, b))
    c.eq([sgn(x) for x in r[3]], [-x for x in e], "reversed order of %r and %r" % (a, b))
    c.eq(r[4], [0, 0, 0], "comparison with itself")
    if a["consistency"] and b["consistency"]:
        r = c.run([["bcons", 0, a["consistency"]], ["bcons", 1, b["consistency"]], ["cons_cmp", 0, 1]])[2]
        ka, kb = cons_key(a["consistency"]), cons_key(b["consistency"])
        c.eq([sgn(x) for x in r], [cmp3(ka[0], kb[0]), cmp3(ka, kb)], "order of consistency records")
    c.nontrivial(a != b)
    c.label("equal" if e[0] == 0 else "different")
    c.sample((a, b))


def merge(p, q):
    if nvr_key(p) != nvr_key(q) or p["epoch"] != q["epoch"]:
        return None
    if None not in (p["architecture"], q["architecture"]) and p["architecture"] != q["architecture"]:
        return None
    m = dict(p)
    m["architecture"] = q["architecture"] if p["architecture"] is None else p["architecture"]
    m["install_time"] = p["install_time"] or q["install_time"]
    m["role"] = p["role"] or q["role"]
    return m


def uniq(l):
    out = []
    for p in l:
        m = merge(out[-1], p) if out else None
        if m:
            out[-1] = m
        else:
            out.append(p)
    return out


def strip(d):
    return [{k: v for k, v in p.items() if k != "consistency"} for p in d or []]


def lists(g, c):
    l = g.many(lambda: gen_pkg(g), g.size(10))
    for _ in range(g.draw(4)):
        if l:
            d = dict(g.choice(l))
            if g.bool(1, 3): d["architecture"] = None
            if g.bool(1, 3): d["install_time"] = g.choice([0, 9])
            if g.bool(1, 3): d["role"] = 1 - d["role"]
            l.insert(g.draw(len(l) + 1), d)
    # the order of equal packages is not determined: make duplicates differ only where the merge does not depend on it
    ops = g.choice([["sort"], ["uniq"], ["sort", "uniq"], ["count"]])
    prog = [["brpm", 0, l], ["rpm_count", 0]]
    k = g.draw(len(l) + 1)
    prog = [["brpm", 0, l[:k]], ["brpm", 1, l[k:]], ["rpm_append", 0, 1], ["rpm_count", 0]]
    for o in ops:
        if o != "count":
            prog.append(["rpm_" + o, 0])
    prog.append(["dump", 0])
    r = c.run(prog)
    c.eq(r[3], len(l), "package count")
    res = strip(r[-1])
    fz = lambda p: tuple(sorted((k, repr(v)) for k, v in p.items()))
    if ops == ["sort"]:
        c.eq(sorted(map(fz, res)), sorted(map(fz, l)), "sorting keeps the packages")
        c.eq([nevra_key(p) for p in res], sorted(nevra_key(p) for p in l), "sorted order")
    elif ops == ["uniq"]:
        c.eq(res, uniq(l), "uniq")
    elif ops == ["count"]:
        c.eq(res, l, "appended list")
    else:
        # identical packages collapse to one; roles and install times come from one of them, a known one if any
        kk = [nevra_key(p)[:4] for p in res]
        for p in res:
            grp = [q for q in l if nevra_key(q)[:4] == nevra_key(p)[:4]]
            same = [q for q in grp if q["architecture"] == p["architecture"] or q["architecture"] is None]
            c.check(any(q["architecture"] == p["architecture"] for q in grp), "package %r invented" % p)
            exact = [q for q in grp if q["architecture"] == p["architecture"]]
            c.check(p["install_time"] in [q["install_time"] for q in same] and (p["install_time"] or not any(q["install_time"] for q in exact)), "install time of %r" % p)
            c.check(p["role"] in [q["role"] for q in same] and (p["role"] or not any(q["role"] for q in exact)), "role of %r" % p)
        keys = [nevra_key(p) for p in res]
        c.check(len(set(keys)) == len(keys), "a package is listed twice: %r" % (keys,))
        c.eq(keys, sorted(keys), "order after uniq")
        want = {nevra_key(p) for p in l if p["architecture"] is not None} | {nevra_key(p) for p in l if p["architecture"] is None and not any(
            q["architecture"] is not None and nevra_key(q)[:4] == nevra_key(p)[:4] for q in l)}
        c.eq(sorted(keys), sorted(want), "packages after sort and uniq")
    c.label("+".join(ops))
    c.nontrivial(len(l) >= 2)
    c.sample((ops, l))


def gen_dso(g, mkpkg):
    """A library list and the packages it names; mkpkg gives (parts, install time)."""
    txt, exp = "", []
    for _ in range(g.count(g.size(8))):
        k = g.draw(8)
        lib = "/usr/lib64/" + ident(g) + ".so.%d" % g.draw(9)
        if k == 0:
            txt += g.choice(["", lib, lib + " ", lib + " " + nevra_text(gen_parts(g)), lib + "  x 1"]) + "\n"                       # no package
            continue
        p, t = mkpkg()
        if k == 1:
            txt += lib + " " + g.choice(["foo", "foo-1.x86_64", "x-y-z", "n-x:1-1.noarch", "n-1-1."]) + " (Vendor) %d\n" % t     # malformed package
            continue
        if k == 2:
            txt += lib + " " + nevra_text(p) + " (Vendor) " + g.choice(["x", "", "-1", "18446744073709551616"]) + "\n"      # no install time
            continue
        txt += "%s %s (%s) %d\n" % (lib, nevra_text(p), g.choice(["Fedora Project", "Red Hat, Inc.", "", "x"]), t)
        exp.append(dict(name=p[0], epoch=p[1] or 0, version=p[2], release=p[3], architecture=p[4], install_time=t, role=0))
    if txt.endswith("\n") and g.bool(1, 3):
        txt = txt[:-1]
    return txt, exp


def gen_named_parts(g):
    p = gen_parts(g)
    while p[0].startswith("-"):
        p = gen_parts(g)
    return p


def dso(g, c):
    txt, exp = gen_dso(g, lambda: (gen_named_parts(g), g.uint(64)))
    r = c.one(["dso_list", 0, txt])
    c.eq(strip(r), exp, "packages of the library list")
    c.nontrivial(len(exp) >= 1)
    c.label("%d packages" % min(len(exp), 4))
    c.sample(txt)


FACETS = [Facet("nevra", nevra, 4), Facet("nvr", nvr, 2), Facet("compare", compare, 3), Facet("lists", lists, 4), Facet("dso", dso, 3)]
