"""P11: JSON round trip preserves every trace."""
from ..core import Facet
from ..gen import *
from .. import stacks as st

ID = "P11"
CASES = (150000, 1200000)
RULE = ("Traces of every type that has JSON, with arbitrary strings and full-range numbers, are written, read back and written again; the copy must equal "
        "the original in every serialised field, give the same text, duplicate hashes, backtrace hash and short text. Non-trivial: two frames or more.")


def normal_form(s):
    """What of a trace the JSON carries."""
    s = dict(s)
    if s["type"] == "core" and s["crash_thread"] is None and s["threads"]:
        s["crash_thread"] = 0
    if s["type"] == "koops":
        s["reason"] = None
    return s


def stack(g, c):
    t = g.choice(st.JSON_TYPES)
    s = st.gen_stack(g, t)
    n = g.draw(6)
    r = c.run([["build", 0, s], ["tojson", 0]])
    how = g.choice(["fromjson", "fromjsonobj"])
    prog = [["build", 0, s], [how, 1, t, r[1]], ["dump", 1], ["tojson", 1], ["bthash", 0, 2], ["bthash", 1, 2]]
    nth = len(st.threads_of(s))
    fl = g.choice([0, 2, 6, 10, 14])
    for i in range(nth):
        prog += [["duphash", [0, i] if t in st.THREADED else [0], n, "p", fl], ["duphash", [1, i] if t in st.THREADED else [1], n, "p", fl]]
    # the short text prints a name a core or JavaScript frame must have
    texts = t == "java" or t not in ("core", "js") or all(
        (f["function_name"] is not None or f["build_id"] is not None) if t == "core" else f["file_name"] is not None
        for th in st.threads_of(s) for f in th["frames"])
    if t == "core" and s["crash_thread"] is None and nth > 1:
        texts = False                      # the crash thread becomes known
    if t == "ruby" and any(f["rescue_level"] > 10000 for f in s["frames"]):
        texts = False                      # prints one word per level
    if texts:
        prog += [["short", 0, n], ["short", 1, n]]
    r2 = c.run(prog)
    c.eq(r2[1], [1, None], "reading back what was written")
    c.eq(st.strip_ids(r2[2]), normal_form(s), "%s trace read back" % t)
    c.eq(r2[3], r[1], "JSON of the trace read back")
    c.eq(r2[5], r2[4], "backtrace hash text of the trace read back")
    for i in range(6, len(r2), 2):
        c.eq(r2[i + 1], r2[i], "hash or short text of the trace read back")
    c.label(t, "%d+ frames" % min(2, st.nframes(s)), "texts" if texts else "no texts")
    c.nontrivial(st.nframes(s) >= 2)
    c.sample(r[1])


def parts(g, c):
    t = g.choice(st.JSON_TYPES)
    if t in ("core", "java") and g.bool():
        th = st.gen_thread(g, t)
        r = c.run([["bthread", 0, t, th], ["tjson", [0], 0]])
        r2 = c.run([["tfromjson", 1, t, r[1]], ["dump", 1]])
        c.eq(r2[0], [1, None], "reading a thread back")
        c.eq([{k: v for k, v in x.items() if k != "id"} for x in r2[1]], [th], t + " thread read back")
        c.nontrivial(len(th["frames"]) >= 2)
    else:
        f = st.gen_frame(g, t)
        r = c.run([["bframes", 0, t, [f]], ["fjson", ["f", 0, 0]]])
        r2 = c.run([["ffromjson", 1, t, r[1]], ["dump", 1]])
        c.eq(r2[0], [1, None], "reading a frame back")
        c.eq(r2[1], [f], t + " frame read back")
        c.nontrivial(True)
    c.label(t)
    c.sample(r[1])


FACETS = [Facet("stack", stack, 4), Facet("parts", parts, 1)]
