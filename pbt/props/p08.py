"""P08: JavaScript stack traces."""
from ..core import Facet
from ..gen import *

ID = "P08"
CASES = (300000, 3000000)
RULE = ("A V8 trace structure (exception, message, frames with or without a function, file names with colons, spaces, brackets and parentheses, line, "
        "column) is generated, printed in V8's layout by an independent printer and parsed; the trace must equal the structure. Platform and engine "
        "names are mapped in both directions. Non-trivial: two frames or more, a feature, or a refused variant.")


def fn_head(g):
    k = g.draw(4)
    if k <= 1:
        return g.choice(["Object.<anonymous>", "Module._compile", "Function.executeUserEntryPoint", "Array.forEach", "process._tickCallback", "foo", "Foo.bar[baz]"])
    if k == 2:
        return ident(g)
    s = free(g, " \n", 14, 1)
    return s


def gen_frame(g):
    """(text, expected)"""
    lead = g.choice(["    ", "   ", "", " ", "        "])
    fi = path(g, "\n")
    if g.bool(1, 3):
        fi = g.choice(["[stdin]-wrapper", "node:internal/main", "file:///home/joe/a b.mjs", "/home/joe/x (1).js", "/home/joe/a:b.js", "eval at foo (x.js:1:2), <anonymous>",
                       "<anonymous>", "C:\\x\\y.js", "[eval]", "/tmp/(weird)", "bootstrap_node.js"])
    line, col = g.uint(32), g.uint(32)
    trail = " " * g.weighted([(6, 0), (1, 1), (1, 3)])
    gap = " " * g.weighted([(6, 0), (1, 1), (1, 4)])
    if g.bool(3, 4):
        name = fn_head(g)
        extra = g.weighted([(6, ""), (1, " [as foo]"), (1, " <anonymous>"), (1, " x y")])
        text = "%sat %s%s%s (%s:%d:%d)%s" % (lead, gap, name, extra, fi, line, col, trail)
        fun = name
    else:
        fi = fi.lstrip(" ") or "f"
        text = "%sat %s%s:%d:%d%s" % (lead, gap, fi, line, col, trail)
        fun = None
    return text, dict(file_name=anonymize(fi), file_line=line, line_column=col, function_name=fun)


def gen_head(g):
    exc = g.choice(["ReferenceError", "TypeError", "Error"]) if g.bool(2, 3) else free(g, ":\n", 12, 1)
    msg = free(g, "\n", 40)
    return exc, msg


def parse(g, c):
    exc, msg = gen_head(g)
    fr = series(g, gen_frame, g.size(8))
    text = exc + ": " + msg + "\n" + "\n".join(f[0] for f in fr) + ("\n" if fr and g.bool() else "")
    how = g.choice(["parse", "js", "js_v8", "js_node"])
    if how == "parse":
        r = c.run([["parse", 0, "js", text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed trace rejected: %s" % r[0][1])
    else:
        r = c.run([["parseloc", 0, how, text], ["dump", 0]])
        c.check(r[0][0] == 1, "well-formed trace rejected: %s" % r[0][4])
        c.eq(r[0][1], len(text), "read position after the trace")
    plat = {"parse": 1, "js": 1, "js_v8": 0, "js_node": 0x11}[how]
    c.eq(r[1], dict(type="js", exception_name=exc, platform=plat, frames=[f[1] for f in fr]), "parsed trace")
    for f in fr:
        c.label("function" if f[1]["function_name"] is not None else "top-level")
    c.nontrivial(len(fr) >= 2)
    c.sample(text)


def frame(g, c):
    text, e = gen_frame(g)
    rest = g.choice(["", "\n", "\n    at x (y:1:2)\n"])
    r = c.run([["frameparse", 0, g.choice(["js", "js_v8"]), text + rest], ["dump", 0]])
    c.check(r[0][0] == 1, "well-formed frame rejected: %s" % r[0][4])
    c.eq(r[0][1], len(text), "read position after the frame")
    c.eq(r[1], [e], "parsed frame")
    c.nontrivial(True)
    c.sample(text)


def reject(g, c):
    exc, msg = gen_head(g)
    k = g.choice(["nocolon", "noexc", "nospace", "nonewline", "noat", "nocol", "noline", "badcol", "badline", "nobrace", "noname", "big"])
    fr = [gen_frame(g)[0] for _ in range(g.draw(3))]
    if k in ("nocolon", "noexc", "nospace", "nonewline"):
        head = {"nocolon": exc + "\n", "noexc": ": " + msg + "\n", "nospace": exc + ":" + (msg.lstrip(" ") or "x") + "\n", "nonewline": exc + ": " + msg}[k]
        text = head + ("" if k == "nonewline" else "\n".join(fr))
    else:
        bad = {"noat": "    foo (a.js:1:2)", "nocol": "    at foo (a.js)", "noline": "    at foo (12)", "badcol": "    at foo (a.js:1:x)", "badline": "    at foo (a.js:x:1)",
               "nobrace": "    at foo a.js:1:2)", "noname": "    at (a.js:1:2)", "big": "    at foo (a.js:%s)" % g.choice(["4294967296:1", "1:4294967296", "1:99999999999999999999999"])}[k]
        fr.insert(g.draw(len(fr) + 1), bad)
        text = exc + ": " + msg + "\n" + "\n".join(fr)
    r = c.run([["parse", 0, "js", text], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "malformed trace (%s) must be refused" % k)
    c.check(r[0][1], "refusal without a message")
    c.label(k)
    c.nontrivial(True)
    c.sample(text)


def platforms(g, c):
    """A platform's parser is that of its engine; unknown runtimes and engines have none."""
    if g.bool():
        text, x = gen_frame(g)[0] + g.choice(["", "\n", " x"]), "frame"
        plain = ["frameparse", 1, "js_v8", text]
    else:
        h = gen_head(g)
        text, x = h[0] + ": " + h[1] + "".join("\n" + gen_frame(g)[0] for _ in range(g.size(4))) + "\n", "stack"
        plain = ["parseloc", 1, "js_v8", text]
    if g.bool(1, 4):
        p = g.draw(len(text) + 1)
        text = text[:p] + g.choice(["", "(", "\n", "x"]) + text[p + 1:]
        plain[3] = text
    p = g.choice([0x11, 0x11, 0x01, 0x10, 0x00, 0x12, 0x21, 0xf1, 0x1f])
    r = c.run([["js_platform_parse", 0, p, x, text], ["dump", 0], plain, ["dump", 1]])
    if p == 0x11:
        c.eq(r[0], r[2], "%s read for the platform" % x)
        w = r[3] and dict(r[3], platform=0x11) if x == "stack" else r[3]
        c.eq(r[1], w, "%s of the platform" % x)
    else:
        c.eq([r[0][:2], r[1]], [[0, 0], None], "%s of the unknown platform %#x" % (x, p))
    c.label(x, "known" if p == 0x11 else "unknown", "read" if r[1] else "refused")
    c.nontrivial(True)
    c.sample((p, x, text))


def names(g, c):
    """Platform, runtime and engine names."""
    n = g.choice(["Node.js", "V8", "node.js", "Node", "", "<unknown>", "SpiderMonkey", "Node.js "]) if g.bool(3, 4) else free(g, "\n", 8)
    v = g.opt(lambda: g.choice(["v12.1", "", "7"]))
    rt, en = int(n == "Node.js"), int(n == "V8")
    k = g.draw(20)
    p = g.choice([0x11, 0x01, 0x10])
    rs = "Node.js" if p >> 4 else "<unknown>"
    es = "V8" if p & 15 else "<unknown>"
    r = c.run([["js_platform", n, v], ["js_engine", n], ["js_runtime", n], ["js_engine_str", k], ["js_runtime_str", k], ["js_platform_json", p],
               ["js_platform_from_json", '{"engine": "%s", "runtime": "%s"}' % (es, rs)]])
    c.eq(r[0][0], 0x11 if rt else 0, "platform of runtime %r" % n)
    c.eq(r[0][1] is None, bool(rt), "error message of the platform lookup")
    c.eq([r[1], r[2]], [en, rt], "engine and runtime of %r" % n)
    c.eq([r[3], r[4]], ["V8" if k == 1 else None, "Node.js" if k == 1 else None], "names of engine and runtime %d" % k)
    import json
    c.eq(json.loads(r[5]), {"engine": es, "runtime": rs}, "platform JSON")
    c.eq(r[6], [p, None], "platform from JSON")
    e2, r2 = g.choice(["V8", "v8", "", "<unknown>", "<unknown", "<unknown>x", "V8x", "x"]), g.choice(["Node.js", "", "<unknown>", "<unknown", "<unknown> ", "Node.js5", "x"])
    r = c.one(["js_platform_from_json", json.dumps({"engine": e2, "runtime": r2})])
    ok = e2 in ("V8", "<unknown>") and r2 in ("Node.js", "<unknown>")
    if ok:
        c.eq(r, [(0x10 if r2 == "Node.js" else 0) + (e2 == "V8"), None], "platform from JSON")
    else:
        c.check(r[0] == 0 and r[1] is not None, "unknown platform accepted")
    c.note((n, v, k, p, e2, r2))
    c.nontrivial(rt or en)
    c.sample((n, v, k, p, e2, r2))


FACETS = [Facet("parse", parse, 9), Facet("frame", frame, 3), Facet("reject", reject, 2), Facet("names", names, 1), Facet("platforms", platforms, 1)]
