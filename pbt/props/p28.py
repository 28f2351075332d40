"""P28: private data does not reach parsed traces."""
from ..core import Facet
from ..gen import *
from .. import stacks as st, gdbtext
from . import p05, p06, p07, p08

ID = "P28"
CASES = (150000, 1500000)
RULE = ("Traces of Python, Ruby, JavaScript and GDB are printed twice from one structure with two different private texts (exception message, text after it, arguments, variables); "
        "everything observable of the parsed traces (fields, JSON, hashes, short text, reason, full texts) must be identical and must not contain the texts. Paths inside and "
        "outside of home directories are placed into every format that replaces account names and into the library function; the stored name must equal a reference replacement "
        "and nothing observable may contain the account name. Non-trivial: the private text is really printed. Distinct by program text.")
TOKEN = "S3cr3tT0k3nX"
OBSERVE = [["dump", 0], ["tojson", 0], ["short", 0, 5], ["reason", 0], ["bthash", 0, 0], ["bthash", 0, 1], ["duphash", [0], 0, None, 0], ["duphash", [0], 4, "x", 1],
           ["duphash", [0], 3, None, 8]]


def observe(c, ty, text, extra=()):
    r = c.run([["parse", 0, ty, text]] + (OBSERVE if ty != "gdb" else [OBSERVE[0]] + OBSERVE[2:3] + OBSERVE[4:]) + list(extra))
    c.check(r[0][0] == 1, "well-formed %s trace rejected: %s" % (ty, r[0][1]))
    return r


def secret(g, excl):
    s = free(g, excl, 20) + TOKEN + free(g, excl, 20)
    return s


def compare(c, a, b, what):
    c.eq(a, b, "%s traces differing in private text only" % what)
    c.check(TOKEN not in repr(a), "private text of a %s trace is observable: %r" % (what, [x for x in a if TOKEN in repr(x)]))
    c.nontrivial(True)
    c.label(what)


def python(g, c):
    kind, text, frames, exc = p05.gen_trace(g)

    def tail():
        t = ": " + secret(g, "")
        if g.bool():
            t += "\n" + secret(g, "\n") + "\n"
        if g.bool(1, 3):
            t += "\n\nLocal variables in innermost frame:\nx: " + secret(g, "\n") + "\n"
        return t
    a, b = tail(), tail()
    compare(c, observe(c, "python", text + a), observe(c, "python", text + b), "python")
    c.sample(text + a)


def ruby(g, c):
    frames, _, cls = p06.gen_trace(g)
    frames.append(p06.gen_frame(g))

    def text():
        m = secret(g, "\t")
        if g.bool(1, 3):
            m += "\n" + secret(g, "\t")
        h, r = p06.render(frames, m, cls, "\n")
        return h + r
    a = text()
    compare(c, observe(c, "ruby", a), observe(c, "ruby", text()), "ruby")
    c.sample(a)


def js(g, c):
    exc, _ = p08.gen_head(g)
    rest = "\n".join(p08.gen_frame(g)[0] for _ in range(g.int(1, 5))) + "\n"
    a, b = [exc + ": " + secret(g, "\n") + "\n" + rest for _ in range(2)]
    compare(c, observe(c, "js", a), observe(c, "js", b), "javascript")
    c.sample(a)


def gdb(g, c):
    mark = "@MARK@"
    gdbtext.SECRET = mark
    try:
        text, s = gdbtext.gen_trace(g, 4, 3)
    finally:
        gdbtext.SECRET = None

    def plain():
        return "".join(g.choice(list("abcXYZ 019=,.;")) for _ in range(g.draw(12))) + TOKEN + g.text("abc ", 5)
    a, b = text.replace(mark, plain()), text.replace(mark, plain())
    extra = [["gdb_to_text", 0, 1], ["gdb_to_text", 0, 0], ["gdb_short", 0, 10]]
    if mark not in text:
        return
    compare(c, observe(c, "gdb", a, extra), observe(c, "gdb", b, extra), "gdb")
    c.sample(a)


def core(g, c):
    """A core trace made from the debugger's output."""
    gdbtext.SECRET = "@MARK@"
    try:
        text, s = gdbtext.gen_trace(g, 4, 2)
    finally:
        gdbtext.SECRET = None
    if "@MARK@" not in text:
        return
    ls = "0x400000+0x207000 3c139e3 /usr/bin/x - x\n"
    r = [c.run([["core_create", 0, text.replace("@MARK@", t), ls, "/x"], ["tojson", 0]] + OBSERVE[2:6]) for t in (TOKEN, TOKEN[::-1])]
    compare(c, r[0], r[1], "core")


ACCOUNT = "Acc0untN4me"


def home(g, excl):
    """(path, what is stored)"""
    k = g.draw(8)
    rest = "/" + free(g, excl + "\n", 12)
    for ch in excl + "\n":
        rest = rest.replace(ch, "")
    if k <= 4:
        who = ACCOUNT
        if g.bool():
            extra = lambda: "".join(x for x in g.choice(["", ".", "-", "_", "john.", ".d", "@corp.example", "42", " ", "\\", "$", "+x", "\xc3\xa9", "home", "x" * 100, "~", "a" * 33, "..", "#", "%s"]) if x not in excl)
            who = extra() + ACCOUNT + extra()
        return "/home/" + who + rest, "/home/anonymized" + rest
    if k == 5:
        p = g.choice(["/root/x", "/usr/home/joe/x", "home/joe/x", "/homes/joe/x", "/Home/joe/x", "/home", "/home/", "/home/joe", "//home/joe/x", "./home/joe/x", "/x/home/joe/y"])
        return p, p
    if k == 6:
        return "/home//x", "/home/anonymized/x"
    p = path(g, excl + "\n")
    return p, anonymize(p)


def paths(g, c):
    k = g.draw(5)
    text = None
    if k == 0:
        p, e = home(g, '"\n<>')
        what, ty, key = "python", "python", "file_name"
        text = 'Traceback (most recent call last):\n  File "%s", line 3, in f\n    x\nE: m\n' % p
    elif k == 1:
        p, e = home(g, "`\n\t")
        p, e = p.replace(":in ", "") or "f", e.replace(":in ", "") or "f"
        what, ty, key = "ruby", "ruby", "file_name"
        text = "%s:3:in `f': m (E)\n\tfrom %s:5:in `main'\n" % (p, p)
    elif k == 2:
        p, e = home(g, "\n")
        what, ty, key = "js", "js", "file_name"
        text = "E: m\n    at f (%s:1:2)\n" % p
    elif k == 3:
        p, e = home(g, ":)\n(")
        if p.startswith(("Native Method", "Unknown Source")):
            p = e = "A.java"
        what, ty, key = "java file", "java", "file_name"
        text = "E: m\n\tat f.g(%s:12)\n" % p
    else:
        p, e = home(g, ":]!\n[")
        what, ty, key = "java class path", "java", "class_path"
        text = "E: m\n\tat f.g(A.java:12) [%s]\n" % g.choice(["file:%s", "jar:file:%s!/A.class"]) % p
    r = observe(c, ty, text)
    d = r[1]
    frames = d["frames"] if "frames" in d else d["threads"][0]["frames"]
    f = frames[-1]
    c.eq(f[key], e, "%s name stored for %r" % (what, p))
    if p.startswith("/home/") and ACCOUNT in p.split("/")[2]:
        c.check(ACCOUNT not in repr(r), "the account name is observable: %r" % [x for x in r if ACCOUNT in repr(x)])
        c.label("home")
    c.label(what)
    c.nontrivial("home" in c.labels)
    c.sample(text)


def function(g, c):
    p, e = home(g, "")
    if g.bool(1, 20):
        p = e = None
    r = c.run([["anonymize", p]])
    c.eq(r[0], e, "anonymised path")
    c.nontrivial(p != e)


def normalised(g, c):
    """Core frames are anonymised when the trace is normalised."""
    p, e = home(g, "")
    s = dict(type="core", **st.stack_default("core"))
    f = dict(st.frame_default("core"), file_name=p, function_name="f" + ident(g), address=g.uint(48), build_id="ab", build_id_offset=g.uint(20))
    s["threads"] = [{"frames": [f]}]
    r = c.run([["build", 0, s], ["tnormalize", [0, 0]], ["dump", 0]])
    c.eq([x["file_name"] for x in r[2]["threads"][0]["frames"]], [e], "file name after normalisation")
    c.nontrivial(p != e)


FACETS = [Facet("python", python, 2), Facet("ruby", ruby, 2), Facet("js", js, 2), Facet("gdb", gdb, 2), Facet("core", core, 1), Facet("paths", paths, 4), Facet("function", function, 1),
          Facet("normalised", normalised, 1)]
