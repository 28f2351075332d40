"""P15: the duplicate hash."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal

ID = "P15"
CASES = (200000, 3000000)
RULE = ("Threads of every type with arbitrary facts, any frame limit, prefix and flags: the hash text must equal the text a reference model derives from the "
        "(normalised) frames, the hash its SHA-1, the thread must be unchanged, and changing every fact that is not identifying must not change the hash. "
        "Non-trivial: at least two frames in the thread.")

# facts that never occur in the hash text nor steer normalisation
FREE = {"gdb": ["number", "source_line", "library_name"], "koops": ["reliable", "function_offset", "function_length", "from_address", "from_function_name",
        "from_function_offset", "from_function_length", "from_module_name", "special_stack"],
        "core": ["fingerprint_hashed"], "java": ["is_native", "is_exception", "message"], "js": ["line_column", "function_name"],
        "python": ["special_file", "special_function", "function_name", "line_contents"], "ruby": ["special_function", "function_name", "block_level", "rescue_level"]}


def gen(g):
    t = g.choice(st.TYPES)
    if t in ("gdb", "core", "koops") and g.bool(3, 4):
        fr = normal.gen_frames(g, t, 8)
    else:
        fr = g.many(lambda: st.gen_frame(g, t, text=st.plain), g.size(8))
    return t, fr


def build(reg, t, fr, **kw):
    if t in st.THREADED:
        return [["bthread", reg, t, dict(frames=fr, **kw)]]
    return [["build", reg, dict(type=t, frames=fr, **kw)]]


def frames_of(d, t):
    return d[0]["frames"] if t in st.THREADED else d["frames"]


def text(g, c):
    t, fr = gen(g)
    n = g.weighted([(2, 0), (4, g.int(1, 4)), (2, g.int(1, 12)), (1, 2147483647), (1, -1)])
    prefix = g.weighted([(2, None), (1, ""), (1, "component"), (1, st.anystr(g))])
    fl = (1 if g.bool() else 0) | (st.NONORMALIZE if g.bool() else 0) | (st.KOOPS_COMPAT if g.bool(1, 4) or (t == "koops" and g.bool()) else 0)
    r = c.run(build(0, t, fr) + [["duphash", [0], n, prefix, fl | st.NOHASH], ["duphash", [0], n, prefix, fl], ["dump", 0]])
    nf = fr if fl & st.NONORMALIZE else normal.normalize(t, fr)
    if n < 0:
        want = (prefix or "") + ("" if fl & st.KOOPS_COMPAT else "Thread\n")
        want = None if fl & st.KOOPS_COMPAT and not want else want
    else:
        want = st.duphash_text(t, nf, n, prefix, fl)
    c.eq(r[1], want, "%s hash text (limit %d, flags %d)" % (t, n, fl))
    c.eq(r[2], None if want is None else st.sha1(want), "%s hash" % t)
    c.eq(frames_of(r[3], t), fr, "the thread after hashing")
    c.label(t, "flags %d" % fl, "limited" if 0 < n < len(nf) else "all")
    c.nontrivial(len(fr) >= 2)
    c.sample(want)


def irrelevant(g, c):
    """Facts that do not identify never influence the hash; those that do, do."""
    t, fr = gen(g)
    n = g.choice([0, 0, 1, 3])
    fl = st.NOHASH | (st.NONORMALIZE if g.bool() else 0)
    other = [dict(f) for f in fr]
    for f in other:
        for k in FREE[t]:
            kind = dict(st.FIELDS[t])[k]
            f[k] = int(g.bool()) if kind == 1 else g.uint(kind) if kind != st.S else g.opt(lambda: st.plain(g))
    kw, kw2 = {}, {}
    if t == "gdb":
        kw, kw2 = dict(number=1, tid=5), dict(number=g.uint(32), tid=g.uint(32))
    if t == "java":
        kw, kw2 = dict(name="main"), dict(name=g.opt(lambda: st.plain(g)))
    if t == "core" and not fl & st.NONORMALIZE:
        for f in other:
            if f["address"] and (f["build_id"] or f["function_name"]):
                f["address"] = g.uint(64) or 1
    r = c.run(build(0, t, fr, **kw) + build(1, t, other, **kw2) + [["duphash", [0], n, None, fl], ["duphash", [1], n, None, fl],
              ["duphash", [0], n, None, fl & ~st.NOHASH], ["duphash", [1], n, None, fl & ~st.NOHASH]])
    c.eq(r[3], r[2], "%s hash text after changing facts that do not identify" % t)
    c.eq(r[5], r[4], "%s hash after changing facts that do not identify" % t)
    c.label(t)
    c.nontrivial(len(fr) >= 2 and other != fr)
    c.sample(r[2])


FACETS = [Facet("text", text, 6), Facet("irrelevant", irrelevant, 2)]
