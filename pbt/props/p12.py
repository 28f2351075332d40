"""P12: JSON input is type-checked, never half-read."""
from ..core import Facet
from ..gen import *
from .. import stacks as st

ID = "P12"
CASES = (200000, 1200000)
RULE = ("Documents for every type are generated member by member (any subset, any order, unknown members, any layout and escapes) and the trace read must "
        "equal a reader model; the same documents with one member anywhere given another JSON type, or cut short, must be refused with a message and no "
        "trace. Non-trivial: every case whose document has at least two members.")

# (member, kind) of every object; kinds: s string, b boolean, 16/32/64 unsigned, ("a", X) array of X, or the name of an object
OBJ = {
    "core": [("signal", 16), ("executable", "s"), ("only_crash_thread", "b"), ("stacktrace", ("a", "core_thread"))],
    "core_thread": [("crash_thread", "b"), ("frames", ("a", "core_frame"))],
    "core_frame": [("address", 64), ("build_id", "s"), ("build_id_offset", 64), ("function_name", "s"), ("file_name", "s"), ("fingerprint", "s"),
                   ("fingerprint_hashed", "b")],
    "python": [("exception_name", "s"), ("stacktrace", ("a", "python_frame"))],
    "python_frame": [("file_name", "s"), ("special_file", "s"), ("function_name", "s"), ("special_function", "s"), ("line_contents", "s"), ("file_line", 32)],
    "ruby": [("exception_name", "s"), ("stacktrace", ("a", "ruby_frame"))],
    "ruby_frame": [("file_name", "s"), ("function_name", "s"), ("special_function", "s"), ("file_line", 32), ("block_level", 32), ("rescue_level", 32)],
    "js": [("exception_name", "s"), ("stacktrace", ("a", "js_frame")), ("platform", "js_platform")],
    "js_frame": [("file_name", "s"), ("function_name", "s"), ("file_line", 32), ("line_column", 32)],
    "js_platform": [("engine", ("V8", "<unknown>")), ("runtime", ("Node.js", "<unknown>"))],
    "java": [("threads", ("a", "java_thread"))],
    "java_thread": [("name", "s"), ("frames", ("a", "java_frame"))],
    "java_frame": [("name", "s"), ("file_name", "s"), ("file_line", 32), ("class_path", "s"), ("is_native", "b"), ("is_exception", "b"), ("message", "s")],
    "koops": [("version", "s"), ("raw_oops", "s"), ("taint_flags", ("a", "flag")), ("modules", ("a", "s")), ("frames", ("a", "koops_frame"))],
    "koops_frame": [(n, "s" if k == "str" else "b" if k == 1 else k) for n, k in st.FIELDS["koops"]],
}
ALL = sorted({m for o in OBJ.values() for m, _ in o})


def utf(g, hi=10):
    return g.choice(["", "a\tb", "é".encode().decode("latin-1"), "\x01\x1f", "\"\\/"]) if g.bool(1, 3) else free(g, "", hi)


def anyvalue(g, depth=0):
    k = g.draw(8 if depth < 2 else 6)
    if k == 0:
        return utf(g)
    if k == 1:
        return g.uint(31)
    if k == 2:
        return g.bool()
    if k == 3:
        return None
    if k == 4:
        return 1.5
    if k == 5:
        return ""
    if k == 6:
        return [anyvalue(g, depth + 1) for _ in range(g.draw(3))]
    return {utf(g, 4) + str(i): anyvalue(g, depth + 1) for i in range(g.draw(3))}


def gen_value(g, k, t):
    if k == "s":
        return utf(g)
    if k == "b":
        return g.bool()
    if k == "flag":
        return g.choice(st.FLAGS) if g.bool(4, 5) else g.choice(["nonsense", "", "warnin", "taint_warning"])
    if isinstance(k, int):
        return g.uint(k)
    if isinstance(k, tuple) and k[0] == "a":
        n = g.size(5) if k[1] != "s" or not g.bool(1, 10) else g.int(126, 260)
        return g.many(lambda: gen_value(g, k[1], t), n, 70)
    if isinstance(k, tuple):
        return g.choice(k)
    return gen_object(g, k, t)


def gen_object(g, name, t):
    ms = [(m, k) for m, k in OBJ[name] if name == "js_platform" or g.bool(3, 4)]
    if any(m == "special_file" for m, _ in ms):
        ms = [(m, k) for m, k in ms if m != "file_name"]
    if any(m == "special_function" for m, _ in ms):
        ms = [(m, k) for m, k in ms if m != "function_name"]
    d = [(m, gen_value(g, k, t)) for m, k in ms]
    known = [m for m, _ in OBJ[name]]
    if g.bool(1, 3):
        for _ in range(g.int(1, 3)):
            x = g.choice([m for m in ALL if m not in known]) if g.bool() else "x" + ident(g, 4)
            if x not in known and all(x != m for m, _ in d):
                d.append((x, anyvalue(g)))
    return dict(g.shuffle(d))


def gen_doc(g, t):
    return gen_object(g, t, t)


def read(g, c):
    t = g.choice(st.JSON_TYPES)
    d = gen_doc(g, t)
    text = st.dump_json(g, d)
    how = g.choice(["fromjson", "fromjsonobj"]) if t != "core" else g.choice(["fromjson", "fromjsonobj", "parse"])
    r = c.run([[how, 0, t, text], ["dump", 0]])
    c.eq(r[0], [1, None], "a well-typed document was refused")
    c.eq(st.strip_ids(r[1]), st.stack_from(t, d), "%s trace read" % t)
    c.label(t)
    c.nontrivial(len(d) >= 2)
    c.sample(text)


def sites(name, v, k, path=()):
    """Every (path, kind, error name) of known members and array elements present in v."""
    if isinstance(k, tuple) and k[0] == "a":
        for i, x in enumerate(v):
            yield path + (i,), k[1], None
            yield from sites(name, x, k[1], path + (i,))
    elif isinstance(k, str) and k in OBJ:
        for m, kk in OBJ[k]:
            if m in v:
                yield path + (m,), kk, m
                yield from sites(name, v[m], kk, path + (m,))


def wrong(g, k):
    """A value of another JSON type."""
    vals = ["", "text", 0, 17, True, False, None, 1.5, [], {}, [1], {"a": 1}]
    if k in ("s", "flag") or (isinstance(k, tuple) and k[0] != "a"):
        vals = [v for v in vals if not isinstance(v, str)]
    elif k == "b":
        vals = [v for v in vals if not isinstance(v, bool)]
    elif isinstance(k, int):
        vals = [v for v in vals if isinstance(v, bool) or not isinstance(v, int)] + ["12"]
    elif isinstance(k, tuple):
        vals = [v for v in vals if not isinstance(v, list)]
    elif k == "js_platform":
        vals = [v for v in vals if not isinstance(v, dict)]
    else:
        vals = [v for v in vals if not isinstance(v, dict)]
    return g.choice(vals)


def put_at(v, path, x):
    if not path:
        return x
    if isinstance(v, list):
        return v[:path[0]] + [put_at(v[path[0]], path[1:], x)] + v[path[0] + 1:]
    return {k: (put_at(y, path[1:], x) if k == path[0] else y) for k, y in v.items()}


def refuse(g, c):
    t = g.choice(st.JSON_TYPES)
    d = gen_doc(g, t)
    ss = list(sites(t, d, t)) + [((), t, "stacktrace")]
    p, k, name = ss[g.draw(len(ss))]
    bad = put_at(d, p, wrong(g, k))
    if g.bool(1, 8) and t == "js" and "platform" in d:
        bad = put_at(d, ("platform", g.choice(["engine", "runtime"])), g.choice(["v8", "", "node.js", "V8 ", "<unknown", "<unknown>>", "unknown", "Node.jsx", "SpiderMonkey", "JavaScriptCore"]))
        p, k, name = ("platform", "name"), "js_platform", None
    text = st.dump_json(g, bad)
    how = g.choice(["fromjson", "fromjsonobj"])
    r = c.run([[how, 0, t, text], ["dump", 0]])
    if how == "fromjsonobj" and bad is None and r[0] == [0, None]:
        return                             # json-c has no object for null
    c.eq([r[0][0], r[1]], [0, None], "a document with a member of the wrong type (%s) was accepted" % "/".join(map(str, p)))
    c.check(r[0][1], "refusal without a message (%s)" % "/".join(map(str, p)))
    if name and not isinstance(k, str) or k in ("s", "b"):
        if name:
            c.check(name in r[0][1], "the message does not name the member %s: %s" % (name, r[0][1]))
    c.label(t, "depth %d" % len(p))
    c.nontrivial(True)
    c.sample((text, r[0][1]))


def broken(g, c):
    """Text that is not a document."""
    t = g.choice(st.JSON_TYPES)
    text = st.dump_json(g, gen_doc(g, t)).strip(" \t\n")
    k = g.draw(3)
    if k == 0:
        text = text[:g.draw(len(text))]
    elif k == 1:
        i = g.draw(len(text))
        text = text[:i] + g.choice(["\x01", "@", "}", "]", ",,", ":", "{"]) + text[i:]
        try:
            st.parse_json(text)
            return
        except ValueError:
            pass
        # what the JSON library tolerates is not ours to judge: only consistency is required
        r = c.run([["fromjson", 0, t, text], ["dump", 0]])
        c.eq(r[0][0] == 1, r[1] is not None, "result and success disagree")
        c.eq(r[0][0] == 1, r[0][1] is None, "error message and success disagree")
        c.nontrivial(True)
        return
    else:
        text = g.choice(["", "{", "nope", "\"", "[", "{\"a\"", "{\"a\":", "\x00"[:0], "tru", "-"])
    r = c.run([["fromjson", 0, t, text], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "text that is no document was accepted")
    c.check(r[0][1], "refusal without a message")
    c.label("cut")
    c.nontrivial(True)
    c.sample(text)


def gdb(g, c):
    """GDB traces have no JSON form: always refused with a message."""
    text = st.dump_json(g, gen_doc(g, g.choice(st.JSON_TYPES)))
    r = c.run([["fromjson", 0, "gdb", text], ["dump", 0]])
    c.eq([r[0][0], r[1]], [0, None], "a GDB trace was read from JSON")
    c.check(r[0][1], "refusal without a message")
    c.nontrivial(True)


FACETS = [Facet("read", read, 5), Facet("refuse", refuse, 6), Facet("broken", broken, 2), Facet("gdb", gdb, 1)]
