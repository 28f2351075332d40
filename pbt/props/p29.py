"""P29: human-readable texts state the trace exactly."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, normal
from . import p21, p22

ID = "P29"
CASES = (150000, 4000000)
RULE = ("Traces of every type (strings over a printable alphabet, unset fields, several threads, all crash-thread situations of P21, library tables for GDB) with "
        "frame limits from below zero to beyond the trace; the short text, the full texts of GDB traces and threads, the one-line reason and the function lists must equal "
        "a reference rendering, and rendering must not alter the trace. Non-trivial: the rendered text lists two frames or more.")


def libname(libs, addr):
    """Name a GDB frame gets from the library table, or None."""
    if addr == st.U64:
        return None
    for l in libs:
        if l["from"] <= addr <= l["to"]:
            base = l["soname"].rsplit("/", 1)[-1]
            k = base.find(".so")
            return base if k < 0 else base[:k + 3]
    return None


def gen_libs(g):
    r = []
    a = g.draw(5000)
    for _ in range(g.count(g.draw(5))):
        a += g.draw(3)
        b = a + g.draw(2000)
        r.append({"from": a, "to": b, "symbols": g.draw(3), "soname": g.choice(["/lib64/libc.so.6", "/usr/lib/libfoo-1.2.so", "/bin/x", "libz.so", "/a.so.d/plugin", "x.so/y",
                                                                               "/usr/lib64/ld-linux.so.2.so.3", "", "/"])})
        a = b if g.bool(1, 4) else b + 1
    r = g.shuffle(r)
    return r


def address(g, libs):
    if libs and g.bool(4, 5):
        l = g.choice(libs)
        return max(0, g.choice([l["from"], l["to"], l["from"] - 1, l["to"] + 1, g.int(l["from"], l["to"])]))
    return g.weighted([(2, st.U64), (1, g.draw(9000)), (1, g.uint(64))])


def gdb_text(f, verbose):
    if not verbose:
        return st.frame_text("gdb", f)
    r = " #%d" % f["number"]
    r += "".join(" " + f[k] for k in ("function_type", "function_name") if f[k] is not None)
    if f["source_file"] is not None:
        r += (" at" if f["function_name"] is not None else "") + " " + f["source_file"] + (":%d" % f["source_line"] if f["source_line"] != st.U32 else "")
    return r + (" <signal handler called>" if f["signal_handler_called"] else "")


def gdb_thread_text(th, verbose):
    head = "Thread no. %d (%d frames)\n" % (th["number"], len(th["frames"])) if verbose else "Thread\n"
    return head + "".join(gdb_text(f, verbose) + "\n" for f in th["frames"])


def gdb_trace(g):
    s = p21.gen_gdb(g)
    s["libs"] = gen_libs(g) if g.bool(2, 3) else []
    for th in s["threads"]:
        for f in th["frames"]:
            f["address"] = address(g, s["libs"])
            if g.bool(1, 6):
                f["function_name"] = g.choice(["main", None, "??"])
            if g.bool(1, 4):
                f["function_type"] = st.plain(g)
            if g.bool(1, 3):
                f["source_file"] = st.plain(g)
                f["source_line"] = g.choice([1, st.U32, g.uint(32)])
            if g.bool(1, 6):
                f["library_name"] = st.plain(g)
            if g.bool(1, 3):
                f["number"] = g.uint(32)
    return s


def named(frames, libs):
    return [dict(f, library_name=f["library_name"] if libname(libs, f["address"]) is None else libname(libs, f["address"])) for f in frames]


def gdb(g, c):
    s = gdb_trace(g)
    n = g.weighted([(2, 0), (1, -1), (1, -g.int(1, 50)), (6, g.int(1, 8))])
    fn = g.choice(["short", "gdb_short"])
    prog = [["build", 0, s], [fn, 0, n], ["gdb_to_text", 0, 1], ["gdb_to_text", 0, 0], ["dump", 0], ["reason", 0]]
    for i in range(len(s["threads"])):
        prog += [["gdb_thread_text", [0, i], 1], ["gdb_thread_text", [0, i], 0], ["gdb_format_funs", [0, i]]]
    r = c.run(prog)
    ct = p21.gdb_crash(s)
    want = None
    if ct is not None:
        th = s["threads"][ct]
        want = gdb_thread_text(dict(th, frames=p22.optimised(named(th["frames"], s["libs"]), n)), True)
    c.eq(r[1], want, "short text (%d frames) of the GDB trace" % n)
    crash = "Crash frame: " + gdb_text(s["crash"], True) + "\n" if s["crash"] else ""
    c.eq(r[2], "Thread count: %d\n" % len(s["threads"]) + crash + "".join(gdb_thread_text(th, True) for th in s["threads"]), "verbose text")
    c.eq(r[3], "".join(gdb_thread_text(th, False) for th in s["threads"]), "text")
    c.eq(r[4], s, "trace after rendering it")
    c.eq(r[5], None, "reason of a GDB trace")
    for i, th in enumerate(s["threads"]):
        c.eq(r[6 + 3 * i], gdb_thread_text(th, True), "verbose text of a thread")
        c.eq(r[7 + 3 * i], gdb_thread_text(th, False), "text of a thread")
        c.eq(r[8 + 3 * i], "".join(f["function_name"] + (" " + f["library_name"] if f["library_name"] is not None else "") + "\n"
                                   for f in th["frames"] if f["function_name"] is not None), "function list")
    c.label("limit %s" % ("none" if n <= 0 else "some"), "none" if want is None else "crash thread", "libs" if s["libs"] else "no libs")
    c.nontrivial(want is not None and want.count("\n") > 2)
    c.sample(want)


def optimised(g, c):
    """The copy of a thread prepared for the short text."""
    s = gdb_trace(g)
    if not s["threads"]:
        return
    i = g.draw(len(s["threads"]))
    th = s["threads"][i]
    n = g.count(g.draw(6))
    how = g.draw(3)
    libs = gen_libs(g)
    for f in th["frames"]:
        if g.bool():
            f["address"] = address(g, libs)
    prog = [["build", 0, s], ["blibs", 5, libs]]
    use = [[], libs, s["libs"]][how]
    r = c.run(prog + [["gdb_optimized", 8, [0, i], [None, 5, ["s", 0]][how] if how != 1 or libs else None, n], ["dump", 8], ["dump", 0]])
    c.eq(r[3], [dict(th, frames=p22.optimised(named(th["frames"], use), n))], "thread optimised with%s libraries" % ["out", "", " the trace's"][how])
    c.eq(r[4], s, "trace after optimising a copy")
    if libs:
        r = c.run(prog + [["gdb_thread_set_libnames", [0, i], 5], ["dump", 0]])
        c.eq(r[3]["threads"][i]["frames"], named(th["frames"], libs), "library names of one thread")
    r = c.run(prog + [["gdb_set_libnames", 0], ["dump", 0]])
    c.eq([t["frames"] for t in r[3]["threads"]], [named(t["frames"], s["libs"]) for t in s["threads"]], "library names of the trace")
    c.nontrivial(len(th["frames"]) > 1)
    c.label("libs %d" % min(2, len(use)))


def funs(g, c):
    """Function lists can be read back."""
    fr = []
    for i in range(g.count(g.size(5))):
        fn = ident(g) if g.bool(2, 3) else g.choice(["operator new", "foo(int, char)", "std::vector<int> x", "a b  c"])
        lib = g.choice(["libc.so", "x", "lib-1.2.so", "[vdso]", "(deleted)"]) if " " in fn or g.bool(2, 3) else None
        fr.append(dict(st.frame_default("gdb"), function_name=fn, library_name=lib, number=i))
    text = "".join(f["function_name"] + (" " + f["library_name"] if f["library_name"] else "") + "\n" for f in fr)
    if g.bool(1, 5):
        text += ident(g)                   # a line that is not complete
    r = c.run([["gdb_parse_funs", 0, text], ["dump", 0], ["gdb_format_funs", [0]]])
    c.eq(r[1][0]["frames"], fr, "frames of the function list %r" % text)
    c.eq(r[2], text[:text.rfind("\n") + 1], "function list written again")
    c.nontrivial(len(fr) > 1)
    c.sample(text)


def short(g, c):
    t = g.choice(st.JSON_TYPES)
    s = st.gen_stack(g, t, text=st.plain, hi=6)
    for th in st.threads_of(s):
        for f in th["frames"]:
            if t == "core" and f["function_name"] is None and f["build_id"] is None:
                f["build_id"] = st.plain(g)
            if t == "js" and f["file_name"] is None:
                f["file_name"] = st.plain(g)
            if t == "ruby":
                f["rescue_level"] = g.draw(4)
                f["block_level"] = g.choice([0, 1, 2, 3, g.uint(32)])
            if t == "core" and f["file_name"] is not None and g.bool():
                f["file_name"] = path(g)
    if t == "core":
        for i, th in enumerate(s["threads"]):
            th["id"] = i
        if s["threads"] and g.bool(2, 3):
            s["crash_thread"] = g.draw(len(s["threads"]))
    n = g.weighted([(3, 0), (1, -g.int(1, 9)), (6, g.int(1, 8))])
    ths = st.threads_of(s)
    prog = [["build", 0, s], ["short", 0, n], ["dump", 0]]
    at = []
    for i, th in enumerate(ths):
        for k, f in enumerate(th["frames"]):
            prog.append(["ftext", ["t", 0, i, k]])
            at.append(f)
    r = c.run(prog)
    if t == "core":
        ct = s["crash_thread"]
        if ct is None and len(ths) == 1:
            ct = 0
        if ct is None:
            ct = next((i for i, th in enumerate(ths) if normal.exit_frame("core", th["frames"]) is not None), None)
    else:
        ct = 0 if ths else None
    want = None
    if ct is not None:
        fr = ths[ct]["frames"]
        lines = ["#%d %s\n" % (i + 1, st.frame_text(t, f)) for i, f in enumerate(fr)]
        want = "".join(lines[:n] if n > 0 else lines if n == 0 else lines[:1])
    if n >= 0:
        c.eq(r[1], want, "short text (%d frames) of the %s trace" % (n, t))
    c.eq(r[2], s, "trace after rendering it")
    for f, got in zip(at, r[3:]):
        c.eq(got, st.frame_text(t, f), "text of a %s frame" % t)
    c.label(t, "limit" if n else "no limit", "none" if want is None else "text")
    c.nontrivial(want is not None and want.count("\n") >= 2)
    c.sample(want)


def java_thread(g, c):
    th = st.gen_thread(g, "java", text=st.plain)
    for f in th["frames"]:
        f["is_exception"] = int(g.bool(1, 3))
    blocks = []
    for f in th["frames"]:
        if f["is_exception"] or not blocks:
            blocks.append("")
        blocks[-1] += st.frame_text("java", f) + "\n"
    r = c.run([["bthread", 0, "java", th], ["java_thread_text", [0]], ["java_format_funs", [0]], ["dump", 0]])
    # exceptions are kept innermost first and printed outermost first
    want = "Exception in thread \"%s\" " % (th["name"] or "")
    if blocks:
        want += blocks[-1] + "".join("Caused by: %s\t...\n" % b for b in reversed(blocks[:-1]))
    c.eq(r[1], want, "text of the Java thread")
    c.eq(r[2], "".join(f["name"] + "\n" for f in th["frames"] if f["name"] is not None), "function list of the Java thread")
    c.eq(r[3], [th], "thread after rendering it")
    c.nontrivial(len(th["frames"]) > 1)
    c.label("blocks %d" % min(3, len(blocks)))


def reason(g, c):
    t = g.choice(st.JSON_TYPES)
    s = st.gen_stack(g, t, text=st.plain, hi=4)
    if t == "core":
        for i, th in enumerate(s["threads"]):
            th["id"] = i
    if t == "koops":
        for f in s["frames"]:
            if g.bool():
                f["function_name"] = normal.gen_frame(g, "koops")["function_name"]
            f["reliable"] = int(g.bool(4, 5))
        s["reason"] = g.weighted([(2, None), (2, st.plain(g)), (2, st.plain(g) + "general protection fault: 0000 [#1] SMP"), (2, "BUG: unable to handle kernel paging request at f7" + st.plain(g)),
                                  (1, "general protection fault"), (1, "kernel paging request")])
    fr = s["frames"] if "frames" in s else s["threads"][0]["frames"] if s["threads"] else []
    if t in ("python", "ruby", "js"):
        for f in fr:
            if f["file_name"] is None:
                f["file_name"] = path(g)
    r = c.run([["build", 0, s], ["reason", 0], ["dump", 0]])
    opt = lambda x, d: d if x is None else x
    if t == "core":
        want = "Program %s was terminated by signal %d" % (opt(s["executable"], "<unknown>"), s["signal"])
    elif t in ("python", "ruby"):
        f = (fr[-1] if t == "python" else fr[0]) if fr else dict(file_name="<unknown>", file_line=0)
        want = "%s in %s:%d" % (opt(s["exception_name"], "Unknown error"), f["file_name"], f["file_line"])
    elif t == "js":
        f = fr[0] if fr else dict(file_name="<unknown>", file_line=0, line_column=0)
        want = "%s at %s:%d:%d" % (opt(s["exception_name"], "Error"), f["file_name"], f["file_line"], f["line_column"])
    elif t == "java":
        exc = next((f["name"] for f in fr if f["is_exception"] and f["name"] is not None), "<unknown>")
        f = fr[-1] if fr and fr[-1]["file_name"] is not None else dict(file_name="<unknown>", file_line=0)
        want = "Exception %s occurred in %s:%d" % (exc, f["file_name"], f["file_line"])
    else:
        left = normal.normalize("koops", fr)
        top = left[0] if left else dict(function_name=None, module_name=None)
        fn = opt(top["function_name"], "<unknown>")
        why = s["reason"]
        want = "Kernel oops in " + fn if why is None else "general protection fault in " + fn if "general protection fault: " in why else \
            "kernel paging request at " + fn if "kernel paging request at" in why else why
        if top["module_name"] is not None:
            want += " [%s]" % top["module_name"]
    c.eq(r[1], want, "reason of the %s trace" % t)
    c.eq(r[2], s, "trace after asking for its reason")
    c.label(t)
    c.nontrivial(len(fr) > 1)
    c.sample(want)


FACETS = [Facet("gdb", gdb, 5), Facet("optimised", optimised, 3), Facet("funs", funs, 1), Facet("short", short, 5), Facet("java_thread", java_thread, 1), Facet("reason", reason, 3)]
