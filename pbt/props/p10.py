"""P10: JSON output is valid and states exactly the trace."""
from ..core import Facet
from ..gen import *
from .. import stacks as st

ID = "P10"
CASES = (180000, 1500000)
RULE = ("Traces, threads, frames, packages and operating systems are built field by field with arbitrary bytes in their strings and full-range numbers; "
        "the JSON text is read by an independent strict reader (no control characters, duplicate members or trailing text) and must equal the document "
        "derived from the fields. Non-trivial: at least two frames, or a string that needs escaping.")


def same(c, text, want, what):
    c.check(text is not None, what + ": no JSON")
    try:
        got = st.parse_json(text)
    except ValueError as e:
        c.fail("%s: invalid JSON: %s" % (what, e), text[:4000])
    if not st.same_json(got, want):
        c.eq(got, want, what)
        c.fail("%s: %r, expected %r" % (what, got, want))


def rich(x):
    return any(ch in x for ch in ("\\", "\n", "\\u", "\\\"", "\x7f", "\x80", "\xff"))


def stack(g, c):
    t = g.choice(st.JSON_TYPES)
    s = st.gen_stack(g, t)
    before = dict(s)
    r = c.run([["build", 0, s], ["tojson", 0], ["dump", 0]])
    same(c, r[1], st.stack_json(s), t + " trace JSON")
    c.eq(st.strip_ids(r[2]), before, "the trace after writing it")
    c.label(t, "%d+ frames" % min(2, st.nframes(s)))
    c.nontrivial(st.nframes(s) >= 2 or rich(r[1]))
    c.sample(r[1])


def frame(g, c):
    t = g.choice(st.JSON_TYPES)
    f = st.gen_frame(g, t)
    r = c.run([["bframes", 0, t, [f]], ["fjson", ["f", 0, 0]]])
    same(c, r[1], st.frame_json(t, f), t + " frame JSON")
    c.label(t)
    c.nontrivial(len(st.frame_json(t, f)) >= 2)
    c.sample(r[1])


def thread(g, c):
    t = g.choice(["core", "java"])
    th = st.gen_thread(g, t)
    crash = g.bool()
    r = c.run([["bthread", 0, t, th], ["tjson", [0], int(crash)]])
    same(c, r[1], st.thread_json(t, th, crash), t + " thread JSON")
    c.label(t)
    c.nontrivial(len(th["frames"]) >= 2)
    c.sample(r[1])


def gen_rpm(g, text=st.anystr):
    p = dict(name=g.opt(lambda: text(g), 4, 5), epoch=g.uint(32), version=g.opt(lambda: text(g), 4, 5), release=g.opt(lambda: text(g), 4, 5),
             architecture=g.opt(lambda: text(g), 4, 5), install_time=g.weighted([(1, 0), (3, g.uint(64))]), role=g.draw(2))
    return p


def rpm_json(p):
    d = {"epoch": p["epoch"]}
    for k in ("name", "version", "release", "architecture"):
        st.put(d, k, p[k])
    st.put(d, "install_time", p["install_time"], p["install_time"] > 0)
    if p["role"]:
        d["package_role"] = "affected"
    return d


def gen_os(g, text=st.anystr):
    o = {k: g.opt(lambda: text(g), 2, 3) for k in ("name", "version", "architecture", "cpe", "desktop", "variant")}
    o["uptime"] = g.weighted([(1, 0), (3, g.uint(64))])
    return o


def os_json(o):
    d = {}
    for k in ("name", "version", "architecture", "cpe", "desktop", "variant"):
        st.put(d, k, o[k])
    st.put(d, "uptime", o["uptime"], o["uptime"] > 0)
    return d


def other(g, c):
    if g.bool():
        ps = g.many(lambda: gen_rpm(g), g.size(4, 1))
        r = c.run([["brpm", 0, ps], ["rpm_json", 0, 1], ["rpm_json", 0, 0], ["rpm_fromjson", 1, "[]", 1]])
        same(c, r[1], [rpm_json(p) for p in ps], "package list JSON")
        same(c, r[2], rpm_json(ps[0]), "package JSON")
        r2 = c.run([["rpm_fromjson", 0, r[1], 1], ["dump", 0], ["rpm_fromjson", 1, r[2], 0], ["dump", 1]])
        c.eq(r2[0], [0, 1, None], "reading the package list")
        c.eq([{k: v for k, v in p.items() if k != "consistency"} for p in r2[1]], ps, "package list read back")
        c.eq(r2[2], [0, 1, None], "reading the package")
        c.eq([{k: v for k, v in p.items() if k != "consistency"} for p in r2[3]], ps[:1], "package read back")
        c.nontrivial(len(ps) >= 2 or rich(r[1]))
    else:
        o = gen_os(g)
        r = c.run([["bos", 0, o], ["os_json", 0]])
        same(c, r[1], os_json(o), "operating system JSON")
        if os_json(o):
            r2 = c.run([["os_fromjson", 0, r[1]], ["dump", 0]])
            c.eq(r2[0], [1, None], "reading the operating system")
            c.eq(r2[1], o, "operating system read back")
        c.nontrivial(len(os_json(o)) >= 2)
    c.sample(r[1])


def escape(g, c):
    """The escaping itself, for every byte."""
    s = st.anystr(g, 60)
    r = c.one(["json_escape", s])
    same(c, r, s, "escaped string")
    c.nontrivial(s != r[1:-1])
    c.sample(repr(s))


FACETS = [Facet("stack", stack, 8), Facet("frame", frame, 3), Facet("thread", thread, 2), Facet("other", other, 2), Facet("escape", escape, 1)]
