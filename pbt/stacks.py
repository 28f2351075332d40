"""Generators and independent models for the traces of all seven types.

A stack is the dict the harness dumps: {"type", stack fields, "frames": [...]} or {"threads": [...], "libs", "crash", "crash_thread"}.
Frames always carry every field, so that dumps compare with ==."""
import json, hashlib
from .gen import *

U64 = (1 << 64) - 1
U32 = (1 << 32) - 1
S = "str"          # kinds
FIELDS = {
    "core": [("address", 64), ("build_id", S), ("build_id_offset", 64), ("function_name", S), ("file_name", S), ("fingerprint", S), ("fingerprint_hashed", 1)],
    "gdb": [("function_name", S), ("function_type", S), ("number", 32), ("source_file", S), ("source_line", 32), ("signal_handler_called", 1),
            ("address", 64), ("library_name", S)],
    "java": [("name", S), ("file_name", S), ("file_line", 32), ("class_path", S), ("is_native", 1), ("is_exception", 1), ("message", S)],
    "js": [("file_name", S), ("file_line", 32), ("line_column", 32), ("function_name", S)],
    "koops": [("address", 64), ("reliable", 1), ("function_name", S), ("function_offset", 64), ("function_length", 64), ("module_name", S),
              ("from_address", 64), ("from_function_name", S), ("from_function_offset", 64), ("from_function_length", 64), ("from_module_name", S),
              ("special_stack", S)],
    "python": [("special_file", 1), ("file_name", S), ("file_line", 32), ("special_function", 1), ("function_name", S), ("line_contents", S)],
    "ruby": [("file_name", S), ("file_line", 32), ("special_function", 1), ("function_name", S), ("block_level", 32), ("rescue_level", 32)],
}
FDEF = {
    "core": dict(address=U64, build_id_offset=U64, fingerprint_hashed=1),
    "gdb": dict(number=U32, source_line=U32, address=U64),
    "java": {}, "js": {}, "koops": {}, "python": {}, "ruby": {},
}
FLAGS = ["module_proprietary", "forced_module", "smp_unsafe", "forced_removal", "mce", "page_release", "userspace", "died_recently", "acpi_overridden",
         "warning", "staging_driver", "firmware_workaround", "module_out_of_tree", "unsigned_module", "soft_lockup", "live_patched"]
SFIELDS = {
    "core": [("signal", 16), ("executable", S), ("only_crash_thread", 1)],
    "python": [("exception_name", S)], "ruby": [("exception_name", S)], "js": [("exception_name", S), ("platform", 32)],
    "koops": [("version", S)] + [("taint_" + f, 1) for f in FLAGS] + [("modules", "strv"), ("raw_oops", S), ("reason", S)],
    "java": [], "gdb": [("crash_tid", 32)],
}
SDEF = {"gdb": dict(crash_tid=U32)}
TFIELDS = {"core": [], "java": [("name", S)], "gdb": [("number", 32), ("tid", 32)]}
TDEF = {"gdb": dict(number=U32, tid=U32)}      # number: see gdb_thread_init
THREADED = ("core", "gdb", "java")
TYPES = ["core", "python", "koops", "java", "ruby", "js", "gdb"]
JSON_TYPES = ["core", "python", "koops", "java", "ruby", "js"]


def defaults(fields, d):
    return {n: d.get(n, None if k in (S, "strv") else 0) for n, k in fields}


def frame_default(t):
    return defaults(FIELDS[t], FDEF[t])


def stack_default(t):
    return defaults(SFIELDS[t], SDEF.get(t, {}))


# ------------------------------------------------------------------ strings
CTRL = [chr(i) for i in range(1, 32)] + ["\x7f", "\x80", "\xff", "\xc3"]


def anystr(g, hi=16):
    """Any byte string without NUL."""
    k = g.draw(8)
    if k <= 2:
        return ident(g, 6)
    if k <= 4:
        return free(g, "", hi)
    if k == 5:
        return g.text(CTRL + ["\"", "\\", "/", "u", "n", "a"], hi)
    if k == 6:
        return "".join(chr(g.int(1, 255)) for _ in range(g.size(hi)))
    return g.choice(["", "\\", "\"", "\\u0041", "</script>", "\n", "%s%n", "null", "é".encode().decode("latin-1"), "a" * 300, "{\"a\": 1}"])


def plain(g, hi=12):
    """Printable text, no newline."""
    return free(g, "\n", hi) if g.bool(1, 3) else ident(g, 6)


FUNCS = ["foo", "bar", "main", "baz", "raise", "abort", "__kernel_vsyscall", "g_logv", "??", "clone", "operator()", "memcpy", "foo"]
FILES = ["/usr/bin/will_abort", "/lib/libc.so.6", "/usr/lib/libfoo.so", "a.py", "/x/y.rb", "f.js", "x"]


def pooled(pool, other):
    def f(g):
        return g.choice(pool) if g.bool(3, 4) else other(g)
    return f


def num(g, bits):
    return g.uint(bits)


def smallnum(g, bits):
    return g.weighted([(5, 0), (3, 1), (1, 2)]) or g.int(0, 3)


def gen_frame(g, t, text=anystr, number=num, pset=(2, 3), consistent=True, fpool=None):
    """A frame with each field set with probability pset. consistent: stay within the states the library itself produces."""
    f = frame_default(t)
    for n, k in FIELDS[t]:
        if k == 1:
            f[n] = int(g.bool())
        elif g.bool(*pset):
            if k == S:
                f[n] = (fpool or text)(g)
            else:
                f[n] = number(g, k)
    if consistent:
        fix_frame(t, f)
    return f


def fix_frame(t, f):
    """Normalises combinations that carry no meaning."""
    if t == "core" and f["fingerprint"] is None:
        f["fingerprint_hashed"] = 1
    if t in ("python", "ruby") and f["function_name"] is None:
        f["special_function"] = 0
    if t == "python" and f["file_name"] is None:
        f["special_file"] = 0
    if t == "java" and f["file_name"] is None:
        f["file_line"] = 0
    return f


def gen_thread(g, t, frame=gen_frame, hi=6, text=anystr, number=num):
    th = defaults(TFIELDS[t], TDEF.get(t, {}))
    for n, k in TFIELDS[t]:
        if g.bool(3, 4):
            th[n] = text(g) if k == S else number(g, k)
    th["frames"] = g.many(lambda: frame(g, t), g.size(hi))
    return th


def gen_stack(g, t, frame=gen_frame, hi=6, threads=4, text=anystr, number=num):
    s = dict(type=t)
    s.update(stack_default(t))
    for n, k in SFIELDS[t]:
        if n == "platform":
            s[n] = g.choice([0, 0x11, 0x01, 0x10])
        elif n == "reason":
            continue                                  # not part of any output the traces share
        elif k == 1:
            s[n] = int(g.bool())
        elif k == "strv":
            s[n] = g.opt(lambda: g.list(lambda: text(g), g.weighted([(8, 6), (1, 130)])))
        elif k == S:
            s[n] = g.opt(lambda: text(g), 3, 4)
        else:
            s[n] = number(g, k) if g.bool(3, 4) else s[n]
    if t not in THREADED:
        s["frames"] = g.many(lambda: frame(g, t), g.size(hi))
        return s
    s["threads"] = g.many(lambda: gen_thread(g, t, frame, hi, text, number), g.size(threads), 40)
    if t == "core":
        s["crash_thread"] = g.draw(len(s["threads"])) if s["threads"] and g.bool(2, 3) else None
    if t == "gdb":
        s["libs"] = g.many(lambda: gen_lib(g, text), g.size(3), 70)
        s["crash"] = g.opt(lambda: frame(g, t), 1, 3)
    return s


def gen_lib(g, text=anystr):
    a = g.uint(64)
    return {"from": a, "to": min(U64, a + g.uint(20)), "symbols": g.draw(3), "soname": g.opt(lambda: text(g), 3, 4)}


def threads_of(s):
    return s["threads"] if s["type"] in THREADED else [s]


def nframes(s):
    return sum(len(t["frames"]) for t in threads_of(s))


# ------------------------------------------------------------------ JSON model
def put(d, k, v, cond=True):
    if cond and v is not None:
        d[k] = v


def frame_json(t, f):
    d = {}
    if t == "core":
        put(d, "address", f["address"], f["address"] != U64)
        put(d, "build_id", f["build_id"])
        put(d, "build_id_offset", f["build_id_offset"], f["build_id_offset"] != U64)
        for k in ("function_name", "file_name", "fingerprint"):
            put(d, k, f[k])
        if f["fingerprint"] is not None and not f["fingerprint_hashed"]:
            d["fingerprint_hashed"] = False
    elif t in ("python", "ruby"):
        put(d, "special_file" if f.get("special_file") else "file_name", f["file_name"])
        put(d, "file_line", f["file_line"], f["file_line"] != 0)
        put(d, "special_function" if f["special_function"] else "function_name", f["function_name"])
        if t == "python":
            put(d, "line_contents", f["line_contents"])
        else:
            put(d, "block_level", f["block_level"], f["block_level"] > 0)
            put(d, "rescue_level", f["rescue_level"], f["rescue_level"] > 0)
    elif t == "js":
        put(d, "file_name", f["file_name"])
        put(d, "file_line", f["file_line"], f["file_line"] != 0)
        put(d, "line_column", f["line_column"], f["line_column"] != 0)
        put(d, "function_name", f["function_name"])
    elif t == "koops":
        for n, k in FIELDS[t]:
            v = f[n]
            if k == S:
                put(d, n, v)
            elif n == "reliable":
                d[n] = bool(v)
            elif n.endswith("address"):
                put(d, n, v, v != 0)
            else:
                d[n] = v
    elif t == "java":
        put(d, "name", f["name"])
        put(d, "file_name", f["file_name"])
        put(d, "file_line", f["file_line"], f["file_name"] is not None)
        put(d, "class_path", f["class_path"])
        d["is_native"] = bool(f["is_native"])
        d["is_exception"] = bool(f["is_exception"])
        put(d, "message", f["message"])
    return d


def thread_json(t, th, crash=False):
    d = {}
    if t == "core":
        if crash:
            d["crash_thread"] = True
        if th["frames"]:
            d["frames"] = [frame_json(t, f) for f in th["frames"]]
    else:
        put(d, "name", th["name"])
        if th["frames"]:
            d["frames"] = [frame_json(t, f) for f in th["frames"]]
    return d


def stack_json(s):
    """The document sr_stacktrace_to_json() must produce (None: the type has none)."""
    t = s["type"]
    if t == "gdb":
        return None
    d = {}
    if t == "core":
        d["signal"] = s["signal"]
        put(d, "executable", s["executable"])
        put(d, "only_crash_thread", True, s["only_crash_thread"])
        ct = s["crash_thread"]
        d["stacktrace"] = [thread_json(t, th, i == (0 if ct is None else ct)) for i, th in enumerate(s["threads"])]
    elif t == "java":
        d["threads"] = [thread_json(t, th) for th in s["threads"]]
    elif t == "koops":
        put(d, "raw_oops", s["raw_oops"])
        put(d, "version", s["version"])
        d["taint_flags"] = [f for f in FLAGS if s["taint_" + f]]
        put(d, "modules", s["modules"])
        if s["frames"]:
            d["frames"] = [frame_json(t, f) for f in s["frames"]]
    else:
        put(d, "exception_name", s["exception_name"])
        if s["frames"]:
            d["stacktrace"] = [frame_json(t, f) for f in s["frames"]]
        if t == "js" and s["platform"]:
            d["platform"] = {"engine": "V8" if s["platform"] & 15 else "<unknown>", "runtime": "Node.js" if s["platform"] >> 4 else "<unknown>"}
    return d


class DupKey(Exception):
    pass


def parse_json(text):
    """Strict JSON: no duplicate members, no control characters, nothing trailing; raises ValueError."""
    def pairs(p):
        d = {}
        for k, v in p:
            if k in d:
                raise ValueError("member %r occurs twice" % k)
            d[k] = v
        return d

    def const(x):
        raise ValueError("constant %s" % x)
    return json.loads(text, object_pairs_hook=pairs, parse_constant=const)


def same_json(a, b):
    """== that distinguishes true from 1."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ JSON reading model
def frame_from(t, d):
    f = frame_default(t)
    for n, k in FIELDS[t]:
        if n in d and not n.startswith("special_f"):
            f[n] = int(d[n]) if k == 1 else d[n]
    if t in ("python", "ruby"):
        for n in (("file", "function") if t == "python" else ("function",)):
            if n + "_name" in d:
                f[n + "_name"], f["special_" + n] = d[n + "_name"], 0
            elif "special_" + n in d:
                f[n + "_name"], f["special_" + n] = d["special_" + n], 1
    return f


def stack_from(t, d):
    """The stack reading the document must give."""
    s = dict(type=t)
    s.update(stack_default(t))
    if t == "core":
        for k in ("signal", "executable", "only_crash_thread"):
            if k in d:
                s[k] = int(d[k]) if k != "executable" else d[k]
        s["threads"] = [dict(frames=[frame_from(t, f) for f in th.get("frames", [])]) for th in d.get("stacktrace", [])]
        s["crash_thread"] = None
        for i, th in enumerate(d.get("stacktrace", [])):
            if th.get("crash_thread"):
                s["crash_thread"] = i
    elif t == "java":
        s["threads"] = [dict(name=th.get("name"), frames=[frame_from(t, f) for f in th.get("frames", [])]) for th in d.get("threads", [])]
    elif t == "koops":
        s["version"], s["raw_oops"] = d.get("version"), d.get("raw_oops")
        for f in d.get("taint_flags", []):
            if f in FLAGS:
                s["taint_" + f] = 1
        s["modules"] = d.get("modules")
        s["frames"] = [frame_from(t, f) for f in d.get("frames", [])]
    else:
        s["exception_name"] = d.get("exception_name")
        s["frames"] = [frame_from(t, f) for f in d.get("stacktrace", [])]
        if t == "js" and "platform" in d:
            s["platform"] = (0x10 if d["platform"]["runtime"] == "Node.js" else 0) + (d["platform"]["engine"] == "V8")
    return s


def strip_ids(s):
    """Without the members the library leaves undefined."""
    if isinstance(s, dict) and s.get("type") == "core":
        s = dict(s, threads=[{k: v for k, v in th.items() if k != "id"} for th in s["threads"]])
    return s


def dump_json(g, v, ascii=True):
    """A rendering of the value v (strings are latin-1 views of UTF-8 bytes) with varying layout; member order as in v."""
    ws = lambda: g.choice(["", "", " ", "\n", "\t "])

    def s(x):
        out = ['"']
        for ch in x:
            o = ord(ch)
            if ch in '"\\':
                out.append("\\" + ch)
            elif o < 32:
                out.append({8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o) if o in (8, 9, 10, 12, 13) and g.bool() else "\\u%04x" % o)
            elif o < 127 and g.bool(1, 30):
                out.append("\\u%04X" % o)
            elif ch == "/" and g.bool(1, 4):
                out.append("\\/")
            else:
                out.append(ch)
        return "".join(out) + '"'

    def r(x):
        if x is None:
            return "null"
        if x is True or x is False:
            return "true" if x else "false"
        if isinstance(x, str):
            return s(x)
        if isinstance(x, list):
            return "[" + ws() + ("," + ws()).join(r(y) for y in x) + ws() + "]"
        if isinstance(x, dict):
            return "{" + ws() + ("," + ws()).join(s(k) + ws() + ":" + ws() + r(y) for k, y in x.items()) + ws() + "}"
        if isinstance(x, float):
            return repr(x)
        return str(x)
    return ws() + r(v) + ws()


# ------------------------------------------------------------------ text models
def unk(x):
    return "<unknown>" if x is None else x


def bthash_frame(t, f):
    if t == "core":
        return "%s, %s+0x%x, %s, %s\n" % ("0x%x" % f["address"] if f["address"] else "<unknown>", unk(f["build_id"]), f["build_id_offset"],
                                          unk(f["file_name"]), unk(f["fingerprint"]))
    if t == "gdb":
        return "%s, %s, %d, %s, %d, %d, 0x%x, %s\n" % (unk(f["function_name"]), unk(f["function_type"]), f["number"], unk(f["source_file"]), f["source_line"],
                                                      f["signal_handler_called"], f["address"], unk(f["library_name"]))
    if t == "koops":
        return "0x%x, %d, %s, 0x%x, 0x%x, %s, 0x%x, %s, 0x%x, 0x%x, %s\n" % (
            f["address"], f["reliable"], unk(f["function_name"]), f["function_offset"], f["function_length"], unk(f["module_name"]),
            f["from_address"], unk(f["from_function_name"]), f["from_function_offset"], f["from_function_length"], unk(f["from_module_name"]))
    if t == "java":
        return "%s, %s, %d, %s, %d, %d, %s\n" % (unk(f["name"]), unk(f["file_name"]), f["file_line"], unk(f["class_path"]), f["is_native"],
                                                f["is_exception"], unk(f["message"]))
    if t == "python":
        return "%s, %d, %d, %s, %d, %s\n" % (unk(f["file_name"]), f["special_file"], f["file_line"], unk(f["function_name"]), f["special_function"],
                                            unk(f["line_contents"]))
    if t == "ruby":
        return "%s, %d, %s, %d, %d, %d\n" % (unk(f["file_name"]), f["file_line"], unk(f["function_name"]), f["special_function"], f["block_level"],
                                            f["rescue_level"])
    return "%s, %d, %s\n" % (unk(f["file_name"]), f["file_line"], unk(f["function_name"]))


def bthash_text(s):
    t = s["type"]
    if t == "core":
        h = "Executable: %s\nSignal: %d\n\n" % (unk(s["executable"]), s["signal"])
    elif t == "gdb":
        h = "".join("%x-%x, %s\n" % (l["from"], l["to"], unk(l["soname"])) for l in s["libs"]) + "\n"
    elif t == "koops":
        h = "Version: %s\nFlags: \nModules: %s\n\n" % (unk(s["version"]), ", ".join(s["modules"] or []))
    elif t == "java":
        h = ""
    else:
        h = "%s: %s\n\n" % ("Error" if t == "js" else "Exception", unk(s["exception_name"]))
    parts = []
    for th in threads_of(s):
        p = "Thread %d\n" % th["number"] if t == "gdb" else "Thread %s\n" % unk(th["name"]) if t == "java" else ""
        parts.append(p + "".join(bthash_frame(t, f) for f in th["frames"]))
    return h + "\n".join(parts)


NONORMALIZE, NOHASH, KOOPS_COMPAT = 1 << 2, 1 << 1, 1 << 3


def duphash_frame(t, f, compat=False):
    if t == "core":
        if f["build_id"] is not None:
            return "%s+0x%x\n" % (f["build_id"], f["build_id_offset"])
        if f["function_name"] is not None:
            return "  %s\n" % f["function_name"]
        if f["fingerprint"] is not None:
            return "%s+0x%x\n" % (f["fingerprint"], f["build_id_offset"])
        return "0x%x\n" % f["address"]
    if t == "gdb":
        return " " + "".join(" " + f[k] for k in ("function_type", "function_name") if f[k] is not None) + \
            (" <signal handler called>" if f["signal_handler_called"] else "") + "\n"
    if t == "koops":
        if compat and not f["reliable"]:
            return ""
        return f["function_name"] + "\n" if f["function_name"] is not None else "0x%x\n" % f["address"]
    if t == "java":
        return f["name"] + "\n" if f["name"] is not None else "%s/%s:%d\n" % (unk(f["class_path"]), unk(f["file_name"]), f["file_line"])
    return "%s:%d\n" % (unk(f["file_name"]), f["file_line"])


def duphash_text(t, frames, n, prefix, flags):
    """frames: already normalised where requested."""
    out = prefix or ""
    if not flags & KOOPS_COMPAT:
        out += "Thread\n"
    left = n if n else 1 << 62
    for f in frames:
        if left <= 0:
            break
        x = duphash_frame(t, f, bool(flags & KOOPS_COMPAT))
        out += x
        left -= x != ""
    if flags & KOOPS_COMPAT and out == "":
        return None
    return out


def sha1(text):
    return hashlib.sha1(text.encode("latin-1")).hexdigest()


def frame_text(t, f):
    """The line of a frame in the short text."""
    if t == "core":
        r = ""
        if f["file_name"] is not None:
            r = "[%s]" % f["file_name"].rsplit("/", 1)[-1]
        if f["function_name"] is not None:
            return r + " " + f["function_name"]
        return r + " %s+%d" % (f["build_id"], f["build_id_offset"])
    if t == "gdb":
        return " " + "".join(" " + f[k] for k in ("function_type", "function_name") if f[k] is not None) + \
            (" <signal handler called>" if f["signal_handler_called"] else "")
    if t == "koops":
        return ("[%s] " % f["special_stack"] if f["special_stack"] is not None else "") + ("" if f["reliable"] else "? ") + \
            ("??" if f["function_name"] is None else f["function_name"]) + (" in " + f["module_name"] if f["module_name"] is not None else "")
    if t == "java":
        if f["is_exception"]:
            return (f["name"] or "") + (": " + f["message"] if f["message"] is not None else "")
        r = "\tat %s(" % (f["name"] or "")
        r += "Native Method" if f["is_native"] else "Unknown Source" if f["file_name"] is None else f["file_name"]
        if f["file_line"]:
            r += ":%d" % f["file_line"]
        r += ")"
        cp = f["class_path"]
        if cp is None:
            return r + " [unknown]"
        def at(c):
            k = cp.find(c)
            return len(cp) if k < 0 else k
        return r + " [" + ("file:" if at(":") > at("/") else "") + cp + "]"
    if t == "python":
        r = ""
        if f["file_name"] is not None:
            r = "[" + ("<%s>" if f["special_file"] else "%s") % f["file_name"] + (":%d" % f["file_line"] if f["file_line"] else "") + "]"
        return r + " " + ("<%s>" if f["special_function"] else "%s") % ("??" if f["function_name"] is None else f["function_name"])
    if t == "ruby":
        r = "rescue in " * f["rescue_level"]
        r += "block in " if f["block_level"] == 1 else "block (%d levels) in " % f["block_level"] if f["block_level"] > 1 else ""
        r += ("<%s>" if f["special_function"] else "%s") % ("??" if f["function_name"] is None else f["function_name"])
        if f["file_name"] is not None:
            r += " in " + f["file_name"] + (":%d" % f["file_line"] if f["file_line"] else "")
        return r
    loc = "%s:%d:%d" % (f["file_name"], f["file_line"], f["line_column"])
    return "at " + ("%s (%s)" % (f["function_name"], loc) if f["function_name"] is not None else loc)
