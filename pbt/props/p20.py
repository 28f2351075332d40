"""P20: normalising kernel oopses; other languages' threads are left alone."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal

ID = "P20"
CASES = (200000, 3000000)
RULE = ("Kernel oopses mixing bookkeeping functions (with and without compiler suffixes and modules) and other frames are normalised and compared with a "
        "reference model, twice; threads of Python, Ruby, Java and JavaScript must come out unchanged. Non-trivial: a frame removed or renamed, or a "
        "managed-language thread of at least one frame.")


def koops(g, c):
    s = dict(type="koops", **st.stack_default("koops"))
    s["frames"] = fr = normal.gen_frames(g, "koops", 10)
    s["version"] = "5.1"
    s["modules"] = g.opt(lambda: ["a", "b"])
    op = [["koops_normalize", 0], ["tnormalize", [0]]][g.draw(2)]
    r = c.run([["build", 0, s], op, ["dump", 0], op, ["dump", 0]])
    want = dict(s, frames=normal.koops(fr))
    c.eq(r[2], want, "kernel oops normalised")
    c.eq(r[4], want, "kernel oops normalised twice")
    c.nontrivial(want["frames"] != fr)
    c.label("kept %d of %d" % (min(3, len(want["frames"])), min(3, len(fr))))
    c.sample([(f["function_name"], f["module_name"]) for f in fr])


def managed(g, c):
    t = g.choice(["python", "ruby", "java", "js"])
    s = st.gen_stack(g, t, frame=lambda g, t: st.gen_frame(g, t, text=lambda g: g.choice(normal.KOOPS + ["abort", "__kernel_vsyscall", "a.b"]) if g.bool() else st.plain(g)))
    prog = [["build", 0, s]]
    for i in range(len(st.threads_of(s))):
        prog.append(["tnormalize", [0, i] if t == "java" else [0]])
    r = c.run(prog + [["dump", 0]])
    c.eq(r[-1], s, "%s trace normalised" % t)
    c.nontrivial(st.nframes(s) >= 1)
    c.label(t)


FACETS = [Facet("koops", koops, 5), Facet("managed", managed, 1)]
