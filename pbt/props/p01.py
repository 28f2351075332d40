"""P01: every parser is total and memory safe on arbitrary text."""
import glob, os, subprocess, tempfile, shutil, time, base64
from ..core import Facet, VERIF, SAN_ENV, summarize_report
from ..gen import *
from .. import stacks as st, gdbtext, koopstext
from ..build import REPO
from . import p05, p06, p07, p08, p09, p12, p13, p26, p27

ID = "P01"
BUILD = ["server", "fuzz:parsers"]
CASES = (150000, 5000000)
RULE = ("Valid texts from every printer of the other checks and the recorded traces of the repository are cut, spliced, repeated and edited byte-, token- and line-wise and "
        "given to every parser; a crash, assertion, sanitizer report or hang, a success without result or with an unusable result, a failure with result or without diagnosis, "
        "and a read position or line outside the input are violations. Non-trivial: a text of at least 8 bytes with one edit or more. Distinct by program text.")
ASSUMPTIONS = ["texts are NUL-terminated (the interface takes C strings)"]

FIX = {"gdb": ["gdb_stacktraces/*"], "java": ["java_stacktraces/*"], "js": ["js_stacktraces/node-0?"], "koops": ["kerneloopses/*"], "python": ["python_stacktraces/*"],
       "ruby": ["ruby_stacktraces/*"], "json": ["json_files/*", "js_stacktraces/*json"]}
_cache = {}


def fixtures(kind):
    if kind not in _cache:
        out = []
        for pat in FIX[kind]:
            for f in sorted(glob.glob(os.path.join(REPO, "tests", pat))):
                if os.path.isfile(f):
                    out.append(open(f, "rb").read().decode("latin-1").replace("\0", " "))
        _cache[kind] = out or ["x"]
    return _cache[kind]


TOK = {
    "gdb": ["#0 ", "#1  0x", " in ", " at ", " from ", "Thread ", "(LWP ", "(Thread 0x", "):\n", " (", ")", "()", "<", ">", "operator", "operator()", "::", "{", "}", "(anonymous namespace)",
            "\\\"", "\"", "'", "<signal handler called>", "From ", "To  ", "Syms Read", "Shared Object Library", "No  ", "Yes (*)", "[New Thread", "Core was generated by `", "??", "\n", "=", "@entry=",
            "__libc_start_main", "vtable for ", "~", "operator<<", "operator->", "operator new[]", "const", "warning: "],
    "koops": ["[<", ">]", "+0x", "/0x", "? ", "[", "]", "(", ")", "RIP: ", "EIP:", "IP:", "Call Trace:", "Modules linked in: ", "Tainted: ", "Not tainted", "CPU: ", "Pid: ", "<IRQ>", "<EOI>", "<4>",
              "<<EOE>>", "[<0000>]", "0010:", "SS:ESP", " <0> ", "[last unloaded: ", "from ", "Code: ", "LR: ", "PC is at ", "BUG: ", "Process ", "Stack:", "\n", "[  12.34]", "---[ end trace"],
    "python": ["  File \"", "\", line ", ", in ", "Traceback (most recent call last):\n", "    ", "^", "invalid syntax (", ", line", ")", "<module>", "<string>", "\n", ":", "Local variables in innermost frame:\n"],
    "ruby": ["from ", ":in `", "'", ": ", "block ", "(2 levels) in ", "rescue in ", "<main>", "<class:", ">", "\t", "\n", "(", ")", "block (", " levels) in "],
    "java": ["\tat ", "Caused by: ", "Exception in thread \"", "\" ", "(", ")", ".java:", "Unknown Source", "Native Method", "[jar:file:", "]", "... 12 more", "\n", "Suppressed: ", "com.x.Y", ": ", "file:/", "!/",
             "more\n", "!", "jar:"],
    "js": ["at ", "    at ", " (", ")", ":1:2", "new ", "[as ", "]", "anonymous", "<anonymous>", "Error: ", "\n", "eval at ", "native", "async ", "Promise.all (index 0)"],
    "unstrip": ["0x", "+0x", "@0x", " - ", " . ", "[exe]", "\n", "-", " "],
    "os": ["NAME=", "VERSION=", "\"", "'", "\\", "#", "\n", "=", "ID=", " release ", "(", "VERSION_ID=", "VARIANT=", "CPE_NAME="],
    "rpm": ["-", ":", ".", "1:", "fc20", "x86_64", "."],
    "json": ["{", "}", "[", "]", ":", ",", "\"", "null", "true", "false", "-1", "1e999", "\\u0000", "\\ud800", "\"stacktrace\"", "\"frames\"", "\"crash_thread\":true", "\"problem\"", "\"type\":", "\"core\"",
             "\"koops\"", "\"user\"", "\"packages\"", "\"os\"", "\"reporter\"", "\"file_line\":", "\"address\":", "99999999999999999999", "{}", "[]", "\"platform\""],
}
NUMS = ["0", "-1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "2147483648", "0x", "0xffffffffffffffff", "0x1ffffffffffffffff",
        "1e5", "00000000000000000000001", "+1", " 7"]
BYTES = ["\x80", "\xff", "\xc3", "\x01", "\x7f", "\r", "\t", "\v", " ", "\n", "\xa0", "%s%n", "\x1b"]


def cut(g, s, most):
    """A piece of a long text, at line borders mostly."""
    if len(s) <= most:
        return s
    if g.bool(1, 4):
        return s[:most]
    if g.bool(1, 4):
        return s[-most:]
    a = g.draw(len(s) - most // 2)
    if g.bool(3, 4):
        a = s.rfind("\n", 0, a + 1) + 1
    return s[a:a + most]


def mutate(g, s, kind, other, most=6):
    n = g.weighted([(1, 0), (3, 1), (3, 2), (2, 3), (1, most)])
    for _ in range(n):
        k = g.draw(13)
        p = g.draw(len(s) + 1)
        if g.bool(1, 4):                                   # around structure rather than anywhere
            t = g.choice(TOK[kind])
            q = s.find(t, p)
            if q >= 0:
                p = q + g.choice([0, len(t), 1])
        w = g.choice([1, 1, 2, 4, 16, 80])
        if k == 0:
            s = s[:p]
        elif k == 1:
            s = s[:p] + s[p + w:]
        elif k == 2:
            s = s[:p] + g.choice(TOK[kind]) + s[p:]
        elif k == 3:
            s = s[:p] + g.choice(TOK[kind]) + s[p + w:]
        elif k == 4:
            s = s[:p] + g.choice(BYTES) + s[p + g.draw(2):]
        elif k == 5:
            s = s[p:]
        elif k == 6:                                       # repeat a piece
            s = s[:p] + s[p:p + w] * g.choice([2, 3, 20]) + s[p + w:]
        elif k == 7:                                       # move a piece
            q = g.draw(len(s) + 1)
            s = s[:p] + s[q:q + w] + s[p:]
        elif k == 8:                                       # splice
            o = other(g)
            q = g.draw(len(o) + 1)
            s = s[:p] + o[q:q + g.choice([10, 100, 4000])] + (s[p:] if g.bool() else "")
        elif k == 9:                                       # a number
            q = p
            while q < len(s) and not s[q].isdigit():
                q += 1
            e = q
            while e < len(s) and s[e].isdigit():
                e += 1
            s = s[:q] + g.choice(NUMS) + s[e:]
        elif k == 10:                                      # lines
            ls = s.split("\n")
            i, j = g.draw(len(ls)), g.draw(len(ls))
            if g.bool():
                ls[i:i + 1] = []
            elif g.bool():
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls[i:i] = [ls[j]]
            s = "\n".join(ls)
        elif k == 11:                                      # exchange a character everywhere
            if s:
                ch = s[g.draw(len(s))]
                s = s.replace(ch, g.choice(["", " ", "\n", ch * 2, "\t", ch]))
        else:
            s = s[:p] + g.choice(NUMS) + s[p:]
    return s[:30000], n


def valid(g, kind):
    if g.bool(1, 4) and kind in FIX:
        return cut(g, g.choice(fixtures(kind)), g.choice([600, 3000, 12000]))
    if kind == "gdb":
        return gdbtext.gen_trace(g, 5, 3)[0]
    if kind == "koops":
        return koopstext.gen_oops(g, 6)[0]
    if kind == "python":
        x = p05.gen_trace(g)
        return x[1] + p05.tail(g, x[0] == "syntax_script")
    if kind == "ruby":
        x = p06.gen_trace(g)
        return "".join(p06.render(*x, g.choice(["", "\n"])))
    if kind == "java":
        return p07.gen_trace(g)[0]
    if kind == "js":
        h = p08.gen_head(g)
        return h[0] + ": " + h[1] + "".join("\n" + p08.gen_frame(g)[0] for _ in range(g.size(5))) + "\n"
    if kind == "unstrip":
        return p09.gen_listing(g)[0]
    raise KeyError(kind)


def outcome(c, r, text, what, result):
    """r: [ok, consumed, line, column, message]"""
    ok, used, line, col, msg = r
    c.check(0 <= used <= len(text), "%s leaves the read position outside the input (%d of %d)" % (what, used, len(text)))
    c.check(1 <= line <= 1 + text.count("\n") + (1 if ok else 0), "%s reports line %d of %d" % (what, line, 1 + text.count("\n")))
    c.check(col >= 0, "%s reports column %d" % (what, col))
    c.check(bool(ok) == (result is not None), "%s: success %d, result %r" % (what, ok, result is not None))
    c.label(what + (" ok" if ok else " refused"))
    return ok


ST = {"gdb": "gdb", "koops": "koops", "python": "python", "ruby": "ruby", "java": "java", "js": "js"}
USE = {"gdb": [["short", 0], ["reason", 0], ["tnormalize", [0]], ["bthash", 0, 0], ["find_crash", 0]],
       "koops": [["short", 0], ["reason", 0], ["tojson", 0], ["bthash", 0, 0], ["duphash", [0], 3, "p", 0], ["tnormalize", [0]]]}
DFLT = [["short", 0], ["reason", 0], ["tojson", 0], ["bthash", 0, 0], ["duphash", [0], 3, "p", 0]]


def traces(kind):
    def fn(g, c):
        text, n = mutate(g, valid(g, kind), kind, lambda g: valid(g, kind))
        how = g.draw(4)
        if how <= 1:
            r = c.run([["parse", 0, kind, text], ["dump", 0]])
            ok = bool(r[0][0])
            c.check(ok == (r[1] is not None), "success %d but result %s" % (ok, r[1] is not None))
            c.check(ok or bool(r[0][1]), "refused without a message")
            c.label("whole " + ("ok" if ok else "refused"))
        else:
            v = g.choice(["js", "js_v8", "js_node"]) if kind == "js" else kind
            r = c.run([["parseloc", 0, v, text], ["dump", 0]])
            ok = outcome(c, r[0], text, v, r[1])
            c.check(ok or r[0][4], "refused without a message in the location")
        if ok and g.bool(1, 3):
            use = [u for u in USE.get(kind, DFLT)]
            if not r[1].get("threads", r[1].get("frames")):
                use = [u for u in use if u[0] in ("tojson",)]
            if use:
                c.run([["parse", 0, kind, text]] + use if how <= 1 else [["parseloc", 0, v, text]] + use)
        c.nontrivial(n and len(text) >= 8)
        c.sample(text)
    return fn


def frames(g, c):
    k = g.choice(["gdb", "gdb", "gdb_header", "koops", "python", "ruby", "java", "java_exception", "js", "js_v8"])
    kind = k.split("_")[0]
    if kind == "gdb":
        s = gdbtext.gen_frame(g, g.draw(3))[0] + "\n" + gdbtext.gen_vars(g)
    elif kind == "koops":
        s = koopstext.frame(g)
        s = s[0] if isinstance(s, tuple) else s
    elif kind == "python":
        s = p05.print_frame(p05.gen_frame(g))
    elif kind == "ruby":
        s = p06.print_frame(p06.gen_frame(g))
    elif kind == "java":
        if k == "java":
            s = p07.gen_frame(g)[0]
        else:
            s = p07.gen_exc(g)[0]
    else:
        s = p08.gen_frame(g)[0]
    text, n = mutate(g, s, kind, lambda g: valid(g, kind))
    r = c.run([["frameparse", 0, k, text], ["dump", 0]])
    outcome(c, r[0], text, "frame " + k, r[1])
    c.nontrivial(n and len(text) >= 8)
    c.sample(text)


def threads(g, c):
    k = g.choice(["gdb", "gdb", "java", "header", "funs", "libs"])
    kind = "java" if k == "java" else "gdb"
    if k == "gdb":
        s = gdbtext.gen_thread(g)[0]
    elif k == "libs":
        s = gdbtext.gen_table(g)
        s = s[0] if isinstance(s, tuple) else s
    else:
        s = valid(g, kind)
    text, n = mutate(g, s, kind, lambda g: valid(g, kind))
    if k == "libs":
        r = c.run([["sharedlib_parse", 0, text], ["dump", 0]])
        c.check(bool(r[0]) == (r[1] is not None), "table: success %s, result %s" % (r[0], r[1] is not None))
        for l in r[1] or []:
            c.check(l["from"] <= l["to"] or True, "")
    elif k == "header":
        r = c.run([["gdb_parse_header", 0, text]])
        outcome(c, r[0], text, "header", True if r[0][0] else None)
    elif k == "funs":
        c.run([["gdb_parse_funs", 0, text], ["dump", 0]])
    else:
        r = c.run([["threadparse", 0, k, text], ["dump", 0]])
        outcome(c, r[0], text, "thread " + k, r[1])
    c.label(k)
    c.nontrivial(n and len(text) >= 8)
    c.sample(text)


SMALL = ["frame_start", "operator", "chunk", "chunk_space", "braces", "template", "name", "args", "call", "addr", "file", "lwp", "skip_lwp"]


def small(g, c):
    """The building blocks of the GDB and kernel oops parsers."""
    if g.bool(2, 3):
        k = g.choice(SMALL)
        s = gdbtext.gen_frame(g, g.draw(3))[0]
        if k in ("lwp", "skip_lwp"):
            s = g.choice(["(LWP %d)" % g.uint(33), s])
        elif g.bool(2, 3):
            p = [i for i, ch in enumerate(s) if ch in " <(o:~{"]
            s = s[g.choice(p) if p else 0:]
        text, n = mutate(g, s, "gdb", lambda g: gdbtext.gen_frame(g, 1)[0])
        r = c.run([["gdb_small", k, text]])[0]
        c.check(0 <= r[1] <= len(text), "%s: read position %d of %d" % (k, r[1], len(text)))
        c.check(1 <= r[6] <= 1 + text.count("\n"), "%s reports line %d" % (k, r[6]))
        if k not in ("name",):
            c.check(r[0] or r[1] == 0 or k in ("args", "call", "addr", "file"), "%s failed but moved the read position by %d" % (k, r[1]))
    else:
        k = g.choice(["timestamp", "address", "module", "function", "modules"])
        s = koopstext.gen_oops(g, 2)[0]
        key = {"timestamp": "[", "address": "[<", "module": "[", "function": ">] ", "modules": "Modules linked in"}[k]
        p = s.find(key)
        if p >= 0 and g.bool(2, 3):
            s = s[p + (3 if k == "function" else 0):]
        text, n = mutate(g, s, "koops", lambda g: koopstext.gen_oops(g, 2)[0])
        if k == "modules":
            r = c.run([["koops_modules", text]])[0]
            c.check(0 <= r[0] <= len(text), "modules: read position %d of %d" % (r[0], len(text)))
        else:
            r = c.run([["koops_small", k, text]])[0]
            c.check(0 <= r[1] <= len(text), "%s: read position %d of %d" % (k, r[1], len(text)))
    c.label(k)
    c.nontrivial(n and len(text) >= 8)
    c.sample((k, text))


def lists(g, c):
    """Module listings, os-release and system-release texts, package names and library lists."""
    k = g.choice(["unstrip", "core", "os", "osraw", "sysrel", "nvr", "nevra", "dso"])
    if k in ("unstrip", "core"):
        kind, gen = "unstrip", lambda g: p09.gen_listing(g)[0]
    elif k in ("os", "osraw"):
        kind, gen = "os", lambda g: g.choice(["", "NAME=Fedora\nVERSION=\"20 (Heisenbug)\"\nID=fedora\nVERSION_ID=20\n"]) + p27_text(g)
    elif k == "sysrel":
        kind, gen = "os", lambda g: g.choice(["Fedora release 20 (Heisenbug)", "Red Hat Enterprise Linux Server release 6.5 (Santiago)", "CentOS Linux release 7.0", "Fedora release 21 (Rawhide)\n",
                                              "Fedora", " release "])
    elif k in ("nvr", "nevra"):
        kind, gen = "rpm", lambda g: p26.nevra_text(p26.gen_parts(g))
    else:
        kind, gen = "rpm", lambda g: "".join("/usr/lib/%s %s (Fedora Project) %d\n" % (ident(g), p26.nevra_text(p26.gen_parts(g)), g.uint(33)) for _ in range(g.draw(4)))
    text, n = mutate(g, gen(g), kind, gen)
    if k == "core":
        t2, _ = mutate(g, valid(g, "gdb"), "gdb", lambda g: valid(g, "gdb"))
        r = c.run([["core_create", 0, t2, text, "/x"], ["dump", 0]])
        c.check(bool(r[0]) == (r[1] is not None), "core trace: success %s, result %s" % (r[0], r[1] is not None))
    elif k == "unstrip":
        c.run([["unstrip", 0, text]])
    elif k == "os":
        c.run([["os_release", text]])
    elif k == "osraw":
        c.run([["os_release_raw", text]])
    elif k == "sysrel":
        c.run([["system_release", text]])
    elif k in ("nvr", "nevra"):
        r = c.run([["rpm_" + k, text]])[0]
        c.check(r != 1, "a refused package name changed the results")
    else:
        c.run([["dso_list", 0, text]])
    c.label(k)
    c.nontrivial(n and len(text) >= 8)
    c.sample((k, text))


def p27_text(g):
    x = p27.gen(g, True)
    return x[0] if isinstance(x, tuple) else x


JT = ["core", "python", "koops", "java", "ruby", "js"]


def json_(g, c):
    k = g.choice(JT + ["report", "report", "os", "rpm"])
    if g.bool(1, 4):
        s = cut(g, g.choice(fixtures("json")), 12000)
    elif k == "report":
        s = st.dump_json(g, p13.gen_report_doc(g)[0])
    elif k == "os":
        s = st.dump_json(g, p13.gen_report_doc(g)[0].get("os", {}))
    elif k == "rpm":
        s = st.dump_json(g, p13.gen_report_doc(g)[0].get("packages", []))
    else:
        s = st.dump_json(g, p12.gen_doc(g, k))
    text, n = mutate(g, s, "json", lambda g: st.dump_json(g, p12.gen_doc(g, g.choice(JT))))
    if k == "report":
        r = c.run([["report_fromjson", 0, text], ["dump", 0]])
    elif k == "os":
        r = c.run([["os_fromjson", 0, text], ["dump", 0]])
    elif k == "rpm":
        r = c.run([["rpm_fromjson", 0, text, g.draw(2)]])
        if r[0][0] != -99:
            c.check(r[0][0] >= 0 or r[0][2], "package refused without a message")
            c.check(r[0][0] >= 0 or not r[0][1], "refused but with a result")
    else:
        r = c.run([["fromjson", 0, k, text], ["dump", 0]])
    if k != "rpm":
        ok = bool(r[0][0])
        c.check(ok == (r[1] is not None), "success %d, result %s" % (ok, r[1] is not None))
        if k != "os":
            c.check(ok or r[0][1], "refused without a message")
        c.label("%s %s" % (k, "ok" if ok else "refused"))
        if ok and k != "os" and g.bool():
            c.run([["report_fromjson", 0, text], ["report_json", 0]] if k == "report" else [["fromjson", 0, k, text], ["tojson", 0], ["bthash", 0, 0]])
    c.nontrivial(n and len(text) >= 8)
    c.sample((k, text))


def foreign(g, c):
    """Text of one kind (or of none) for the parser of another."""
    k = g.choice(list(ST))
    o = g.choice([x for x in TOK])
    if o in ST or o == "unstrip":
        s = valid(g, o)
    elif o == "json":
        s = cut(g, g.choice(fixtures("json")), 3000)
    else:
        s = g.text([chr(x) for x in range(1, 256)], 60)
    if g.bool(1, 4):
        s = "".join(g.choice(TOK[k]) for _ in range(g.size(40)))
    text, n = mutate(g, s, k, lambda g: valid(g, k))
    r = c.run([["parse", 0, k, text], ["dump", 0]])
    c.check(bool(r[0][0]) == (r[1] is not None), "success %s, result %s" % (r[0][0], r[1] is not None))
    c.check(r[0][0] or r[0][1], "refused without a message")
    c.label(o + " for " + k)
    c.nontrivial(len(text) >= 8)
    c.sample(text)


LEVEL = {"gdb": [("#0 f", "<", "a", ">", " () at x.c:1\n"), ("#0 f (", "{", "a", "}", ") at x.c:1\n"), ("#0 f ", "(", "a", ")", " at x.c:1\n"), ("#0 ", "a::", "b", "", " ()\n"),
                 ("#0 f (a=", "\\\"", "", "", ") at x.c:1\n"), ("", "#0 f ()\n", "", "", ""), ("#0 ", "(", "a", ")::", "b () at x.c:1\n"), ("#0 f", "operator<", "", ">", " ()\n"),
                 ("#0 f (", "<", "", ">", ")\n"), ("#0 f (a=", "\"", "", "", ")\n"), ("#0 f ()", " at", "", "", ":1\n"), ("", "Thread 1 (LWP 1):\n#0 f ()\n", "", "", ""),
                 ("", "From  To  Syms Read  Shared Object Library\n", "", "", ""), ("", "warning: x\n", "", "", "")],
         "java": [("Exception in thread \"a\" ", "x.Y: z\n\tat a.b(c.java:1)\nCaused by: ", "x.Y\n", "", ""), ("Exception in thread \"a\" x\n", "\tat a.b(c.java:1)\n", "", "", ""),
                  ("Exception in thread \"a\" ", "x\nCaused by: ", "x\n\tat a.b(c)\n", "", ""), ("Exception in thread \"a\" x\n", "\t... 1 more\n", "", "", ""),
                  ("", "Exception in thread \"a\" x\n\tat a.b(c)\n", "", "", ""), ("Exception in thread \"a\" x\n\tat a", ".b", "", "", "(c)\n"), ("Exception in thread \"a\" x\n\tat a.b(", "[jar:file:/", "", "", ")\n")],
         "python": [("Traceback (most recent call last):\n", "  File \"a\", line 1, in b\n    c\n", "", "", "E: x\n"), ("", "Traceback (most recent call last):\n", "", "", ""), ("", "invalid syntax (a, line 1)\n", "", "", "")],
         "ruby": [("a:1:in `b': x (E)\n", "\tfrom a:1:in `b'\n", "", "", ""), ("a:1:in `", "block in ", "b", "", "': x (E)\n"), ("a:1:in `", "rescue in ", "b", "", "': x (E)\n"), ("a", ":1", "", "", ":in `b': x (E)\n"),
                  ("a:1:in `b': ", "(", "x", ")", "\n"), ("a:1:in `b': x (E)\n\tfrom ", "a:1:in `", "", "'", "\n")],
         "js": [("Error: x\n", "    at a (b:1:2)\n", "", "", ""), ("Error: x\n    at a ", "(", "b", ")", ":1:2\n"), ("Error: x\n    at ", "a.", "b", "", " (c:1:2)\n"), ("Error: x\n    at a (b", ":1", "", "", ")\n"), ("Error: ", "at ", "", "", "\n")],
         "koops": [("", "[<ffffffff81000000>] a+0x1/0x2\n", "", "", ""), ("", "Modules linked in: a b c\n", "", "", ""), ("Modules linked in:", " a(PO+)", "", "", "\n"), ("", "[<", "", "", ""),
                   ("", "RIP: 0010:[<ffffffff81000000>] ", "a+0x1/0x2\n", "", ""), ("", "[    1.2] ", "a", "", "\n"), ("", "? ", "a+0x1/0x2", "", "\n"), ("", "Call Trace:\n", "", "", "")]}


def deep(g, c):
    """Structures nested or repeated many times: no exhaustion of the stack, no explosion of the time."""
    k = g.choice(list(LEVEL))
    a, op, mid, cl, z = g.choice(LEVEL[k])
    n = g.weighted([(12, 200), (4, 3000), (1, 20000), (1, 100000)])
    if k == "koops":
        n = min(n, 10000)
    text = a + op * n + mid + cl * g.choice([n, 0, n - 1]) + z
    if k == "gdb" and a.startswith("#"):
        text = "Thread 1 (LWP 1):\n" + text
    if len(text) > 4000000:
        text = text[:4000000]
    t = time.time()
    r = c.run([["parse", 0, k, text]])
    t = time.time() - t
    c.check(r[0][0] or r[0][1], "refused without a message")
    c.label(k, "n%d" % n)
    c.nontrivial(True)
    c.sample(repr((a, op, mid, cl, z, n)))


FACETS = [Facet(k, traces(k), 6 if k == "gdb" else 4) for k in ST] + [Facet("frames", frames, 5), Facet("threads", threads, 4), Facet("small", small, 4), Facet("lists", lists, 4), Facet("json", json_, 6),
                                                                      Facet("foreign", foreign, 2), Facet("deep", deep, 1)]


# ------------------------------------------------------------------ coverage-guided fuzzing
KINDS = {"a": "json0", "b": "python", "c": "koops", "d": "java", "e": "gdb", "f": "ruby", "g": "js", "0": "gdb", "1": "koops", "2": "python", "3": "ruby", "4": "java", "5": "js", "6": "gdbframe",
         "7": "gdbframe", "8": "koopsframe", "9": "pyframe", "i": "rubyframe", "j": "javaframe", "k": "javaexc", "l": "jsframe", "m": "gdbthread", "n": "java", "o": "libs", "p": "unstrip", "q": "os", "r": "sysrel",
         "s": "nevra", "t": "dso", "u": "core", "v": "os", "w": "gdb", "A": "json:core", "B": "json:python", "C": "json:koops", "D": "json:java", "F": "json:ruby", "G": "json:js", "H": "json:report"}


def first(x):
    return x[0] if isinstance(x, tuple) else x


def seed_text(g, k):
    if k.startswith("json"):
        t = k[5:] or "core"
        return st.dump_json(g, p13.gen_report_doc(g)[0] if t == "report" else p12.gen_doc(g, t))
    f = {"gdbframe": lambda: gdbtext.gen_frame(g, 1)[0] + "\n" + gdbtext.gen_vars(g), "koopsframe": lambda: first(koopstext.frame(g)), "pyframe": lambda: p05.print_frame(p05.gen_frame(g)),
         "rubyframe": lambda: p06.print_frame(p06.gen_frame(g)), "javaframe": lambda: p07.gen_frame(g)[0], "javaexc": lambda: p07.gen_exc(g)[0], "jsframe": lambda: p08.gen_frame(g)[0],
         "gdbthread": lambda: gdbtext.gen_thread(g)[0], "libs": lambda: first(gdbtext.gen_table(g)), "os": lambda: p27_text(g), "sysrel": lambda: "Fedora release 20 (Heisenbug)",
         "nevra": lambda: p26.nevra_text(p26.gen_parts(g)), "dso": lambda: "/usr/lib/a glibc-2.18-1.fc20.x86_64 (Fedora Project) 12345\n",
         "core": lambda: gdbtext.gen_trace(g, 4, 2)[0] + "\n=====\n" + p09.gen_listing(g)[0]}
    return f[k]() if k in f else valid(g, k)


def run_input(exe, path):
    r = subprocess.run([exe, "-timeout=60", "-rss_limit_mb=4000", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(SAN_ENV, ASAN_OPTIONS=SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=0")))
    return r.returncode, r.stdout.decode("utf-8", "replace")


def describe(out):
    for l in out.splitlines():
        if l.startswith("ORACLE:"):
            return l
        if "libFuzzer: timeout" in l:
            return "call did not return within 60 s"
    return summarize_report(out)


def extra(env, tier, seed):
    import random
    from ..core import Gen
    exe = env["fuzz:parsers"]
    d = tempfile.mkdtemp(prefix="p01-")
    try:
        g = Gen(rng=random.Random("fuzz %s" % seed))
        seeds = os.path.join(d, "seeds")
        os.mkdir(seeds)
        n = 0
        for sel, k in KINDS.items():
            for _ in range(6):
                t = sel + seed_text(g, k)[:8000]
                open(os.path.join(seeds, "%04d" % n), "wb").write(t.encode("latin-1"))
                n += 1
            if k in FIX:
                for t in fixtures(k)[:8]:
                    open(os.path.join(seeds, "%04d" % n), "wb").write((sel + cut(g, t, 6000)).encode("latin-1"))
                    n += 1
        with open(os.path.join(d, "dict"), "w") as f:
            for ts in TOK.values():
                for t in ts:
                    f.write('"' + "".join(ch if ch.isalnum() else "\\x%02x" % ord(ch) for ch in t) + '"\n')
        secs = 20 if tier == "quick" else 420
        ps = []
        for w in range(8):
            wd = os.path.join(d, "w%d" % w)
            os.mkdir(wd)
            os.mkdir(wd + "/c")
            a = [exe, wd + "/c", seeds, "-max_total_time=%d" % secs, "-seed=%d" % (seed * 8 + w + 1), "-max_len=8192", "-timeout=60", "-rss_limit_mb=3000", "-dict=" + d + "/dict", "-artifact_prefix=" + wd + "/",
                 "-print_final_stats=1", "-len_control=0", "-use_value_profile=%d" % (w % 2)]
            ps.append((wd, subprocess.Popen(a, stdout=subprocess.DEVNULL, stderr=open(wd + "/log", "wb"), env=SAN_ENV, cwd=wd)))
        execs = cov = corpus = 0
        viol = []
        for wd, p in ps:
            try:
                p.wait(secs + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log = open(wd + "/log", errors="replace").read()
            for l in log.splitlines():
                if l.startswith("stat::number_of_executed_units:"):
                    execs += int(l.split()[-1])
                if " cov: " in l:
                    x = l.split()
                    cov = max(cov, int(x[x.index("cov:") + 1]))
            corpus += len(os.listdir(wd + "/c"))
            for f in sorted(os.listdir(wd)):
                if f.startswith(("crash-", "timeout-", "oom-")) and not viol:
                    pa = os.path.join(wd, f)
                    rs = [run_input(exe, pa) for _ in range(3)]
                    if not all(r[0] for r in rs):
                        continue
                    mini = os.path.join(wd, "mini")
                    if f.startswith("crash-"):
                        subprocess.run([exe, "-minimize_crash=1", "-max_total_time=20", "-exact_artifact_path=" + mini, pa], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=SAN_ENV, cwd=wd)
                    if os.path.exists(mini) and run_input(exe, mini)[0]:
                        pa = mini
                    out = run_input(exe, pa)[1]
                    data = open(pa, "rb").read()
                    viol.append(dict(message="fuzzing: " + describe(out), detail=out[-6000:], parser=KINDS.get(chr(data[0]), "?"), data=base64.b64encode(data).decode(), program=repr(data)))
        return dict(coverage=dict(fuzzing=dict(tool="libFuzzer (ASan, UBSan)", seconds_per_worker=secs, workers=8, executions=execs, seeds=n, corpus=corpus, edges_covered=cov)), violations=viol)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_custom(env, rec):
    fd, p = tempfile.mkstemp()
    os.write(fd, base64.b64decode(rec["data"]))
    os.close(fd)
    rc, out = run_input(env["fuzz:parsers"], p)
    os.unlink(p)
    print(describe(out) if rc else "replay passes")
    return 1 if rc else 0
