"""P16: the backtrace hash."""
from ..core import Facet
from ..gen import *
from .. import stacks as st

ID = "P16"
CASES = (200000, 2500000)
RULE = ("Traces of every type with arbitrary facts: the hash text must equal the text a reference model derives from every documented field, the hash its "
        "SHA-1; a trace with one documented fact changed must give another text, and an equal trace the same hash. Non-trivial: at least one frame.")
UNHASHED = {"core": ["function_name", "fingerprint_hashed"], "js": ["line_column"], "koops": ["special_stack"]}


def text(g, c):
    t = g.choice(st.TYPES)
    s = st.gen_stack(g, t, text=st.anystr)
    if t == "koops":
        s["reason"] = g.opt(lambda: "reason")
    r = c.run([["build", 0, s], ["bthash", 0, 2 + g.draw(2)], ["bthash", 0, g.draw(2)], ["dump", 0]])
    want = st.bthash_text(s)
    c.eq(r[1], want, "%s backtrace hash text" % t)
    c.eq(r[2], st.sha1(want), "%s backtrace hash" % t)
    c.eq(st.strip_ids(r[3]), s, "the trace after hashing")
    c.label(t, "%d+ threads" % min(2, len(st.threads_of(s))))
    c.nontrivial(st.nframes(s) >= 1)
    c.sample(want)


def differ(g, c):
    """One fact of one frame differs: the hashes differ. Texts stay free of separators so that the layout cannot hide it."""
    t = g.choice(st.TYPES)
    word = lambda g: ident(g, 5)
    s = st.gen_stack(g, t, frame=lambda g, t: st.gen_frame(g, t, text=word), text=word)
    ths = [th for th in st.threads_of(s) if th["frames"]]
    if not ths:
        return
    th = ths[g.draw(len(ths))]
    i = g.draw(len(th["frames"]))
    f = th["frames"][i]
    n, k = g.choice([(n, k) for n, k in st.FIELDS[t] if n not in UNHASHED.get(t, [])])
    g2 = dict(f)
    if k == 1:
        g2[n] = 1 - f[n]
    elif k == st.S:
        g2[n] = None if f[n] is not None and g.bool(1, 3) else (f[n] or "") + "x"
    else:
        g2[n] = (f[n] + 1 + g.draw(3)) & ((1 << k) - 1)
    s2 = dict(s)
    if t in st.THREADED:
        s2["threads"] = [dict(x, frames=[g2 if x is th and j == i else y for j, y in enumerate(x["frames"])]) for x in s["threads"]]
    else:
        s2["frames"] = [g2 if j == i else y for j, y in enumerate(s["frames"])]
    r = c.run([["build", 0, s], ["build", 1, s2], ["build", 2, s], ["bthash", 0, 1], ["bthash", 1, 1], ["bthash", 2, 1]])
    c.check(r[3] != r[4], "%s: changing %s from %r to %r does not change the backtrace hash" % (t, n, f[n], g2[n]))
    c.eq(r[5], r[3], "backtrace hash of an equal trace")
    c.label(t, n)
    c.nontrivial(True)
    c.sample((t, n, f[n], g2[n]))


FACETS = [Facet("text", text, 4), Facet("differ", differ, 2)]
