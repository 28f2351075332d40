"""P07: Java stack traces."""
from ..core import Facet
from ..gen import *

ID = "P07"
CASES = (160000, 3000000)
RULE = ("A chain of exceptions (class, message, frames with method, file, line, native/unknown source, class path annotation, suppressed exceptions, "
        "'... N more') is generated, printed in the JVM's layout by an independent printer and parsed; thread name and the bottom-up frame list must "
        "equal the structure. Non-trivial: a chain of at least two exceptions, suppressed exceptions, at least two frames, or a refused variant.")


def gen_name(g):
    k = g.draw(6)
    if k <= 2:
        return ".".join(ident(g, 6) for _ in range(g.int(1, 4)))
    if k == 3:
        return g.choice(["com.foo.Bar.<init>", "Foo$1.run", "java.base/java.lang.Thread.run", "at.at.at", "Foo.lambda$main$0", "Caused", "native",
                         "sun.reflect.NativeMethodAccessorImpl.invoke0", "app//x.Y.z", "that.format"])
    s = free(g, "(\n", 20, 1).strip(" \t\x0b\x0c\r")
    return s or "m"


def gen_loc(g):
    k = g.draw(9)
    if k == 8:
        return ("", None, 0, 0)
    if k == 0:
        return ("Native Method", None, 0, 1)
    if k == 1:
        return ("Unknown Source", None, 0, 0)
    f = path(g, ":)\n") if g.bool(1, 3) else ident(g) + ".java"
    if g.bool(1, 8):
        f = g.choice(["NativeMethodAccessorImpl.java", "Native", "Native.java", "UnknownHostException.java", "Unknown", "Native_Method.java", "Unknown Sourc", "native method"])
    if k == 3 and g.bool():
        n = g.uint(32)
        return ("Native Method:%d" % n, None, n, 1)
    if f.startswith("Native Method") or f.startswith("Unknown Source"):
        f = "x" + f
    if k == 2:
        return (f, f, 0, 0)
    n = g.uint(32)
    return ("%s:%d" % (f, n), f, n, 0)


def gen_url(g):
    """(text, class path); the class path is False when its value is not specified"""
    k = g.draw(10)
    p = path(g, ":!\n[" if k in (6, 8) else ":]!\n[")
    if k <= 4:
        return "", None
    if k == 5:
        return " [file:%s]" % p, p
    if k == 6:
        return " [jar:file:%s!/%s.class]" % (p, ident(g)), p
    if k == 7:
        u = g.choice(["http://", "https://", "ftp://"]) + ident(g) + "/" + p
        return " [%s]" % u, u
    if k == 8:
        u = "http://" + ident(g) + "/" + p
        return " [jar:%s!/%s.class]" % (u, ident(g)), u
    return g.choice([(" [unknown]", None), (" ~[?]", None), (" [foo.jar]", None), (" ~[foo.jar:1.2]", False), (" ~[?:?]", False)])


def gen_frame(g):
    loc, fi, line, nat = gen_loc(g)
    url, cp = gen_url(g)
    name = gen_name(g)
    text = "%sat %s(%s)%s\n" % (g.weighted([(8, "\t"), (1, "        "), (1, "    \t"), (1, " ")]), name, loc, url)
    return text, dict(name=name, file_name=anonymize(fi), file_line=line, class_path=cp if cp in (None, False) else anonymize(cp), is_native=nat,
                      is_exception=0, message=None)


def gen_msg(g):
    k = g.draw(6)
    if k == 0:
        return None
    if k == 1:
        return ""
    s = free(g, "\n", 40, 1).lstrip(" \t\r\x0b\x0c")
    return s or "m"


def gen_exc(g):
    k = g.draw(3)
    n = ".".join(ident(g, 6) for _ in range(g.int(1, 4))) if k else (free(g, ": \t\n\r\x0b\x0c", 12, 1) or "E")
    m = gen_msg(g)
    text = n + ("" if m is None else (": " + m)) + "\n"
    return text, dict(name=n, file_name=None, file_line=0, class_path=None, is_native=0, is_exception=1, message=m or None)


def gen_suppressed(g, depth):
    """An indented block of one or more suppressed exceptions."""
    out = ""
    for _ in range(g.int(1, 2)):
        out += "\tSuppressed: " + gen_exc(g)[0]
        for _ in range(g.int(0, 3)):
            out += "\t" + gen_frame(g)[0]
        if g.bool():
            out += "\t\t... %d more\n" % g.int(1, 99)
        if g.bool(1, 4):
            out += "\tCaused by: " + gen_exc(g)[0] + "\t\tat x.y(Z.java:1)\n\t\t... 1 more\n"
    tab = g.weighted([(4, "\t"), (1, "    "), (1, "        "), (1, " "), (1, " \t")])
    return "".join(tab * (len(l) - len(l.lstrip("\t"))) + l.lstrip("\t") + "\n" for l in out.split("\n")[:-1])


def gen_trace(g):
    """(text, frames expected, features)"""
    n = g.weighted([(4, 1), (3, 2), (2, 3), (1, g.int(4, 10))])
    text, chain, feats = "", [], set()
    for i in range(n):
        if i:
            text += "Caused by: "
        t, e = gen_exc(g)
        text += t
        fr = series(g, gen_frame, g.size(6, 0 if g.bool(1, 5) else 1))
        text += "".join(f[0] for f in fr)
        if i and g.bool(3, 4):
            text += "\t... %d more\n" % g.uint(16)
            feats.add("more")
        if g.bool(1, 5):
            text += gen_suppressed(g, 0)
            feats.add("suppressed")
        chain.append([e] + [f[1] for f in fr])
    frames = [f for c in reversed(chain) for f in c]
    return text, frames, feats, n


def unspec(actual, exp):
    for a, e in zip(actual or [], exp):
        if e["class_path"] is False:
            e["class_path"] = a.get("class_path")


def parse(g, c):
    text, frames, feats, n = gen_trace(g)
    name = None
    if g.bool():
        name = g.choice(["main", "Thread-1", "AWT-EventQueue-0"]) if g.bool() else free(g, "\"\n", 20)
        text = 'Exception in thread "%s" ' % name + text
    if g.bool(1, 3):
        text = text[:-1]         # no newline at the end
    how = g.choice(["parse", "loc", "thread"])
    if how == "parse":
        r = c.run([["parse", 0, "java", text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed trace rejected: %s" % r[0][1])
        th = r[1]["threads"]
    elif how == "loc":
        r = c.run([["parseloc", 0, "java", text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed trace rejected: %s" % r[0][4])
        th = r[1]["threads"]
    else:
        r = c.run([["threadparse", 0, "java", text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed trace rejected: %s" % r[0][4])
        th = r[1]
    c.eq(len(th), 1, "number of threads")
    unspec(th[0]["frames"], frames)
    c.eq(th[0]["name"], name, "thread name")
    c.eq(th[0]["frames"], frames, "frames")
    c.label("chain of %d" % min(n, 4), *feats)
    c.nontrivial(n >= 2 or len(frames) > 2 or bool(feats))
    c.sample(text)


def frame(g, c):
    text, f = gen_frame(g)
    rest = g.choice(["", "\tat x.y(Z.java:1)\n", "\t... 3 more\n", "Caused by: X\n"])
    r = c.run([["frameparse", 0, "java", text + rest], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed frame rejected: %s" % r[0][4])
    c.eq(r[0][1], len(text), "read position after the frame")
    unspec(r[1], [f])
    c.eq(r[1], [f], "parsed frame")
    c.nontrivial(True)
    c.sample(text)


def reject(g, c):
    k = g.choice(["threadname", "noexc", "noframe", "innername", "blank"])
    if k == "threadname":
        t = 'Exception in thread "' + free(g, "\"\n", 20) + g.choice(["", "\n\tat x.y(Z.java:1)\n", "\n\"\n"])
    elif k == "noexc":
        t = 'Exception in thread "main" ' + g.choice(["", ":", ": foo\n\tat x.y(Z.java:1)\n", " \t:x"])
    elif k == "blank":
        t = g.choice(["", "\n", " \t\n", ":", ": x\n"])
    elif k == "innername":
        t = "Foo: bar\n" + "".join(gen_frame(g)[0] for _ in range(g.draw(3))) + "Caused by: " + g.choice(["", ":x\n", "\n", ": \n"])
    else:
        s = free(g, "", 30, 1)
        while "at" in s:
            s = s.replace("at", "")
        t = "Foo: bar\n" + "".join(gen_frame(g)[0] for _ in range(g.draw(3))) + "\t" + (s.strip() or "x").replace("... ", "").replace("Caused by: ", "").replace("Suppressed: ", "")
        while "at" in t[t.rindex("\t"):]:
            t = t.replace("at", "")
    r = c.run([["parse", 0, "java", t], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "malformed trace (%s) must be refused" % k)
    c.check(r[0][1], "refusal without a message")
    c.label(k)
    c.nontrivial(True)
    c.sample(t)


FACETS = [Facet("parse", parse, 9), Facet("frame", frame, 3), Facet("reject", reject, 1)]
