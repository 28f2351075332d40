"""P30: the Python objects behave as their C counterparts, through any history of edits."""
import copy, json, os, subprocess, sys, tempfile, time
from ..core import Discard, Crash, Ctx, D, Facet, SAN_ENV, Server, summarize_report
from ..gen import *
from .. import core, stacks as st
from . import p13

ID = "P30"
BUILD = ["server", "pymod"]
CASES = (60000, 1500000)
RULE = ("Programs on the Python module (built with AddressSanitizer and UBSan): objects are constructed, read from text and JSON, their attributes set, their lists "
        "edited in place and replaced, frames and threads moved, copied, held and released in any order, and every method called. Each result must be that of the C "
        "library for the state a model of the objects is in, and at the end every object still held must be as in the model. Non-trivial: at least three edits and "
        "two method calls, or a result other than the trivial one.")

CLS = {"core": ("CoreFrame", "CoreThread", "CoreStacktrace"), "gdb": ("GdbFrame", "GdbThread", "GdbStacktrace"), "java": ("JavaFrame", "JavaThread", "JavaStacktrace"),
       "python": ("PythonFrame", None, "PythonStacktrace"), "ruby": ("RubyFrame", None, "RubyStacktrace"), "js": ("JavaScriptFrame", None, "JavaScriptStacktrace"),
       "koops": ("KerneloopsFrame", None, "Kerneloops")}
SATTR = {"core": ["signal", "executable", "only_crash_thread"], "python": ["exception_name"], "ruby": ["exception_name"], "js": ["exception_name"],
         "koops": ["version", "raw_oops"], "java": [], "gdb": []}
TATTR = {"core": [], "java": ["name"], "gdb": ["number"]}
LIB = [("start_address", "from", 64), ("end_address", "to", 64), ("soname", "soname", st.S), ("symbols", "symbols", None)]
RPM = [("name", st.S), ("epoch", 32), ("version", st.S), ("release", st.S), ("architecture", st.S), ("install_time", 64), ("role", None)]
OS = [("name", st.S), ("version", st.S), ("architecture", st.S), ("cpe", st.S), ("uptime", 64)]
REP = ["reporter_name", "reporter_version", "user_root", "user_local", "component_name", "serial", "report_version", "report_type"]
DUMP = {"GdbSharedlib": [a for a, _, _ in LIB], "RpmPackage": [a for a, _ in RPM], "OperatingSystem": [a for a, _ in OS],
        "Report": REP + ["auth", "stacktrace", "operating_system", "packages"]}
for _t, (_f, _th, _s) in CLS.items():
    DUMP[_f] = [n for n, _ in st.FIELDS[_t]]
    if _th:
        DUMP[_th] = TATTR[_t] + ["frames"]
        DUMP[_s] = SATTR[_t] + ["threads"]
    else:
        DUMP[_s] = SATTR[_t] + ["frames"]
DUMP["GdbStacktrace"] += ["libs", "crashframe"]
DUMP["Kerneloops"] += ["modules", "taint_flags"]


# ------------------------------------------------------------------ the module's process
def _lib(name):
    return subprocess.check_output(["gcc", "-print-file-name=" + name]).decode().strip()


class PyServer(Server):
    def __init__(self, pymod):
        Server.__init__(self, pymod)
        self.buf = b""

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(SAN_ENV, LD_PRELOAD=_lib("libasan.so") + ":" + _lib("libubsan.so"), PYTHONMALLOC="malloc", PYTHONPATH=self.exe, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONUTF8="1", PYTHONIOENCODING="utf-8")
        env["ASAN_OPTIONS"] += ":detect_leaks=0"
        self.p = subprocess.Popen([sys.executable, "-s", os.path.join(os.path.dirname(__file__), "..", "pyworker.py"), json.dumps(DUMP)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd="/", bufsize=0)
        self.buf = b""
        self.count = 0

    def run(self, prog):
        if not self.p or self.count > 3000:
            self.stop()
            self.start()
        self.count += 1
        deadline = time.time() + core.TIMEOUT
        try:
            data = memoryview(json.dumps(prog).encode() + b"\n")
            while data:
                data = data[os.write(self.p.stdin.fileno(), data):]
            line = b""
            while not line.endswith(b"\n"):
                import select
                left = deadline - time.time()
                if left <= 0 or not select.select([self.p.stdout.fileno()], [], [], left)[0]:
                    raise TimeoutError
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    raise EOFError
                line += b
            return json.loads(line)
        except TimeoutError:
            self.stop()
            raise Crash("a program on the Python module did not end within %d s" % core.TIMEOUT, repr(prog)[:4000], "hang")
        except (EOFError, BrokenPipeError):
            self.p.wait()
            rc, e = self.p.returncode, self._errtext()
            self.stop()
            raise Crash("a program on the Python module crashed (%s): %s" % (rc, summarize_report(e)), e[:6000])


class PyCtx(Ctx):
    def __init__(self, env):
        Ctx.__init__(self, env)
        self.py = PyServer(env["pymod"])

    def pyrun(self, prog):
        self.note(prog)
        return self.py.run(prog)

    def close(self):
        self.py.stop()


def make_ctx(env):
    return PyCtx(env)


# ------------------------------------------------------------------ values
def u(s):
    """bytes view -> str"""
    return s if s is None else s.encode("latin-1").decode("utf-8")


def b(s):
    return s.encode("utf-8").decode("latin-1") if isinstance(s, str) else s


FUNS = ["main", "abort", "raise", "__libc_start_main", "??", "f", "g", "call_init", "foo::bar", "<string>", "lib_main", "signal handler", "poll", "std::foo<int>"]
FILES = ["/usr/bin/app", "a.c", "/lib64/libc.so.6", "<stdin>", "x.py", "../sysdeps/unix/abort.c"]


def ptext(g, hi=10):
    k = g.draw(10)
    if k < 4:
        return g.choice(FUNS)
    if k < 6:
        return g.choice(FILES)
    if k < 9:
        return st.plain(g, hi)
    return g.choice(["", "\xc3\xa9\xe2\x82\xac", "a\nb", "\xf0\x9f\x98\x80x", "%s%n", "\"q\"\\", "\t"])


def pframe(g, t, pset=(2, 3)):
    f = st.gen_frame(g, t, text=ptext, pset=pset)
    if t == "java" and f["is_exception"] and f["name"] is None:
        f["name"] = "E"
    if t == "ruby":
        f["rescue_level"] %= 9                     # each is written out
    return f


def pnum(g, k):
    return g.uint(k)


def pyval(v, k):
    if k == st.S:
        return u(v)
    if k == 1:
        return bool(v)
    if k == 64 and v == st.U64:
        return None
    return v


# ------------------------------------------------------------------ model
class Obj:
    """kind: frame, thread, stack, lib, rpm, os, report; d: its own scalar attributes, named as in the C dumps"""

    def __init__(self, kind, t, d, **kw):
        self.kind, self.t, self.d = kind, t, d
        self.frames = self.threads = self.libs = None
        self.crash = None           # core: the crash thread
        self.crashframe = None
        self.__dict__.update(kw)

    @property
    def framed(self):
        return self.kind == "thread" or self.kind == "stack" and self.t not in st.THREADED

    @property
    def multi(self):
        return self.kind == "stack" and self.t in st.THREADED

    @property
    def cls(self):
        return {"frame": 0, "thread": 1, "stack": 2}.get(self.kind) is not None and CLS[self.t][{"frame": 0, "thread": 1, "stack": 2}[self.kind]] or \
            {"lib": "GdbSharedlib", "rpm": "RpmPackage", "os": "OperatingSystem", "report": "Report"}[self.kind]


class Bad(Exception):
    """the call must raise this"""

    def __init__(self, name):
        self.name = name


def frame_obj(t, f):
    return Obj("frame", t, dict(f))


def thread_obj(t, th):
    return Obj("thread", t, {k: v for k, v in th.items() if k not in ("frames", "id")}, frames=[frame_obj(t, f) for f in th["frames"]])


def lib_obj(l):
    return Obj("lib", "gdb", dict(l))


def stack_obj(s):
    t = s["type"]
    d = {k: copy.copy(v) for k, v in s.items() if k not in ("frames", "threads", "libs", "crash_thread", "type")}
    o = Obj("stack", t, d)
    if t in st.THREADED:
        o.threads = [thread_obj(t, th) for th in s["threads"]]
        if t == "core":
            o.crash = None if s["crash_thread"] is None else o.threads[s["crash_thread"]]
        if t == "gdb":
            o.libs = [lib_obj(l) for l in s["libs"]]
    else:
        o.frames = [frame_obj(t, f) for f in s["frames"]]
    return o


def check_list(l, kind, t):
    if not isinstance(l, list) or any(not isinstance(x, Obj) or x.kind != kind or x.t != t for x in l):
        raise Bad("TypeError")


def prepare(o, libs=True):
    """What every method does first: the lists must be lists of the right objects."""
    if o.framed:
        check_list(o.frames, "frame", o.t)
    elif o.multi:
        if not isinstance(o.threads, list):
            raise Bad("TypeError")
        for th in o.threads:
            if not isinstance(th, Obj) or th.kind != "thread" or th.t != o.t:
                raise Bad("TypeError")
            prepare(th)
        if o.t == "core" and not any(x is o.crash for x in o.threads):
            o.crash = None
        if o.t == "gdb" and libs:
            check_list(o.libs, "lib", "gdb")


def snap(o):
    """The C library's view of a prepared object."""
    if o.kind in ("frame", "lib"):
        return dict(o.d)
    if o.kind == "thread":
        return dict(o.d, frames=[snap(f) for f in o.frames])
    s = dict(type=o.t, **o.d)
    if o.multi:
        s["threads"] = [snap(x) for x in o.threads]
        if o.t == "core":
            s["crash_thread"] = next((i for i, x in enumerate(o.threads) if x is o.crash), None)
        if o.t == "gdb":
            s["libs"] = [snap(x) for x in o.libs]
    else:
        s["frames"] = [snap(f) for f in o.frames]
    return s


def view(o):
    """What dump() of the object must show."""
    if o is None or isinstance(o, (str, int)):
        return o
    if isinstance(o, list):
        return [view(x) for x in o]
    if o.kind == "gone":
        return None
    d = {"class": o.cls}
    if o.kind == "frame":
        d.update({n: pyval(o.d[n], k) for n, k in st.FIELDS[o.t]})
    elif o.kind == "thread":
        d.update({n: pyval(o.d[n], k) for n, k in st.TFIELDS[o.t] if n in TATTR[o.t]})
        d["frames"] = view(o.frames)
    elif o.kind == "lib":
        d.update({a: pyval(o.d[n], k) for a, n, k in LIB})
    elif o.kind == "rpm":
        d.update({a: pyval(o.d[a], k) for a, k in RPM})
    elif o.kind == "os":
        d.update({a: pyval(o.d[a], k) for a, k in OS})
    elif o.kind == "stack":
        d.update({n: pyval(o.d[n], k) for n, k in st.SFIELDS[o.t] if n in SATTR[o.t]})
        if o.multi:
            d["threads"] = view(o.threads)
            if o.t == "gdb":
                d["libs"] = view(o.libs)
                d["crashframe"] = view(o.crashframe)
        else:
            d["frames"] = view(o.frames)
            if o.t == "koops":
                d["modules"] = [u(m) for m in o.d["modules"] or []]
                d["taint_flags"] = {"dict": [[f, bool(o.d["taint_" + f])] for f in st.FLAGS]}
    else:
        r = o.d
        d.update(reporter_name=u(r["reporter_name"]), reporter_version=u(r["reporter_version"]), user_root=bool(r["user_root"]), user_local=bool(r["user_local"]),
                 component_name=u(r["component_name"]), serial=r["serial"], report_version=r["report_version"], report_type=RNAME[r["report_type"]],
                 auth={"dict": [[u(k), u(v)] for k, v in r["auth"]]}, stacktrace=view(o.stack), operating_system=view(o.os), packages=view(o.packages))
    return d


def ctx_ref(o, reg):
    """Builds the object in the C server; returns (commands, reference)."""
    if o.kind == "frame":
        return [["bframes", reg, o.t, [snap(o)]]], ["f", reg, 0]
    if o.kind == "thread":
        return [["bthread", reg, o.t, snap(o)]], [reg]
    return [["build", reg, snap(o)]], [reg]


# ------------------------------------------------------------------ str()
def text_of(o):
    d = o.d
    if o.kind == "frame":
        t = o.t
        if t == "core":
            s = "[0x%016x] " % d["address"] if d["address"] else ""
            s += d["function_name"] + " " if d["function_name"] is not None else ""
            s += "%s+0x%x " % (d["build_id"], d["build_id_offset"]) if d["build_id"] is not None else ""
            s += "[%s] " % d["file_name"] if d["file_name"] is not None else ""
            s += "fingerprint: %s (%shashed)" % (d["fingerprint"], "" if d["fingerprint_hashed"] else "not ") if d["fingerprint"] is not None else ""
            return s
        if t == "gdb":
            f = d["function_name"]
            s = "Frame #%d: " % d["number"] + ("signal handler" if f is None else "unknown function" if f.startswith("??") else "function " + f)
            s += " @ 0x%016x" % d["address"] if d["address"] != st.U64 else ""
            return s + (" (%s)" % d["library_name"] if d["library_name"] is not None else "")
        if t == "java":
            if d["is_exception"]:
                if d["name"] is None:
                    return None
                return d["name"] + (": " + d["message"] if d["message"] is not None else "")
            s = "\t" + ("at " + d["name"] if d["name"] is not None else "") + ("(" + d["file_name"] if d["file_name"] is not None else "")
            s += ":%d" % d["file_line"] if d["file_line"] else ""
            return s + ("(Native Method" if d["is_native"] else "") + ")"
        if t == "js":
            s = "%s:%d:%d" % (d["file_name"] if d["file_name"] is not None else "<unknown>", d["file_line"], d["line_column"])
            return "at " + ("%s (%s)" % (d["function_name"], s) if d["function_name"] is not None else s)
        if t == "python":
            q = lambda x, sp: "<%s>" % x if sp else x
            s = 'File "%s"' % q(d["file_name"], d["special_file"]) if d["file_name"] is not None else ""
            s += ", %d" % d["file_line"] if d["file_line"] else ""
            s += ", in " + q(d["function_name"], d["special_function"]) if d["function_name"] is not None else ""
            return s + ("\n    " + d["line_contents"] if d["line_contents"] is not None else "")
        if t == "ruby":
            s = (d["file_name"] or "") + (":%d" % d["file_line"] if d["file_line"] else "")
            if d["function_name"] is not None:
                s += ":in `" + "rescue in " * d["rescue_level"]
                s += "block in " if d["block_level"] == 1 else "block (%d levels) in " % d["block_level"] if d["block_level"] else ""
                s += ("<%s>'" if d["special_function"] else "%s'") % d["function_name"]
            return s
        s = ""
        s += "[%s] " % d["special_stack"] if d["special_stack"] is not None else ""
        s += "[0x%016x] " % d["address"] if d["address"] else ""
        s += "" if d["reliable"] else "? "
        for p in ("", "from_"):
            if p:
                s += " from " if d["from_function_name"] is not None or d["from_address"] else ""
                s += "[0x%016x] " % d["from_address"] if d["from_address"] else ""
            s += d[p + "function_name"] or ""
            s += "+0x%x" % d[p + "function_offset"] if d[p + "function_offset"] else ""
            s += "/0x%x" % d[p + "function_length"] if d[p + "function_length"] else ""
            s += " [%s]" % d[p + "module_name"] if d[p + "module_name"] is not None else ""
        return s
    if o.kind == "lib":
        return d["soname"] if d["soname"] is not None else "Unknown shared library"
    if o.kind == "rpm":
        s = "(unknown)" if d["name"] is None else d["name"]
        if d["name"] is not None and d["version"] is not None:
            s += "-" + ("%d:" % d["epoch"] if d["epoch"] else "") + d["version"]
            if d["release"] is not None:
                s += "-" + d["release"] + ("." + d["architecture"] if d["architecture"] is not None else "")
        return s
    if o.kind == "os":
        s = "(unknown)" if d["name"] is None else d["name"]
        s += " " + d["version"] if d["version"] is not None else ""
        s += " (%s)" % d["architecture"] if d["architecture"] is not None else ""
        return s + (", CPE: " + d["cpe"] if d["cpe"] is not None else "")
    if o.kind == "report":
        return "Report, type: " + RNAME[d["report_type"]] + (", component: " + d["component_name"] if d["component_name"] is not None else "")
    l = o.threads if o.multi else o.frames
    if not isinstance(l, list):
        return None
    if o.kind == "thread":
        n = {"core": "", "gdb": " #%d" % d.get("number", 0), "java": " " + d["name"] if d.get("name") is not None else ""}[o.t]
        return "Thread%s with %d frames" % (n, len(l))
    n = {"core": "Core stacktrace", "gdb": "Stacktrace", "java": "Java stacktrace", "python": "Python stacktrace", "ruby": "Ruby stacktrace", "js": "JavaScript stacktrace",
         "koops": "Kerneloops"}[o.t]
    return "%s with %d %s" % (n, len(l), "threads" if o.multi else "frames")


RNAME = {0: "invalid", 1: "core", 2: "python", 3: "kerneloops", 4: "java", 5: "gdb", 6: "ruby", 7: "javascript"}


# ------------------------------------------------------------------ programs
class Prog:
    """A program with the results the model expects."""

    def __init__(self, g, c):
        self.g, self.c = g, c
        self.prog, self.want = [], []
        self.regs = {}
        self.n = 0
        self.edits = self.calls = 0
        self.log = []

    def reg(self):
        self.n += 1
        return "r%d" % self.n

    def emit(self, cmd, want):
        self.prog.append(cmd)
        self.want.append(want)

    def new(self, o, args=()):
        r = self.reg()
        self.emit(["new", r, o.cls, list(args)], {"obj": o.cls})
        self.regs[r] = o
        return r

    def setattrs(self, r, o, fields, skip=None):
        """Sets the attributes of a new object one by one."""
        for a, k in fields:
            v = o.d[a]
            if v is None or k == st.S and v is None:
                continue
            if skip is not None and v == skip.get(a):
                continue
            self.emit(["set", [r], a, pyval(v, k)], None)

    def frame(self, t, f):
        o = frame_obj(t, f)
        r = self.new(o)
        self.setattrs(r, o, st.FIELDS[t])
        return r

    def thread(self, t, th):
        o = Obj("thread", t, {k: v for k, v in th.items() if k not in ("frames", "id")}, frames=[])
        for n, k in st.TFIELDS[t]:
            if n not in TATTR[t]:
                o.d[n] = st.defaults(st.TFIELDS[t], st.TDEF.get(t, {}))[n]
        r = self.new(o)
        self.setattrs(r, o, [(n, k) for n, k in st.TFIELDS[t] if n in TATTR[t]])
        for f in th["frames"]:
            fr = self.frame(t, f)
            self.emit(["lins", [r, "frames"], 1000, {"ref": [fr]}], None)
            o.frames.append(self.regs.pop(fr))
            self.emit(["free", fr], None)
        return r

    def lib(self, l):
        o = lib_obj(l)
        r = self.new(o)
        for a, n, k in LIB:
            if o.d[n] is not None:
                self.emit(["set", [r], a, pyval(o.d[n], k)], None)
        return r

    def stack(self, s):
        """A stack built through the attributes."""
        t = s["type"]
        d = {k: v for k, v in st.stack_default(t).items()}
        o = stack_obj(dict(dict(type=t, **d), **({"threads": [], "crash_thread": None, "libs": []} if t in st.THREADED else {"frames": []})))
        for a in SATTR[t]:
            o.d[a] = s[a]
        if t == "gdb":
            o.d["crash"] = None
        r = self.new(o)
        self.setattrs(r, o, [(n, k) for n, k in st.SFIELDS[t] if n in SATTR[t]])
        if t in st.THREADED:
            for th in s["threads"]:
                x = self.thread(t, th)
                self.emit(["lins", [r, "threads"], 1000, {"ref": [x]}], None)
                o.threads.append(self.regs.pop(x))
                self.emit(["free", x], None)
            for l in s.get("libs", []):
                x = self.lib(l)
                self.emit(["lins", [r, "libs"], 1000, {"ref": [x]}], None)
                o.libs.append(self.regs.pop(x))
                self.emit(["free", x], None)
        else:
            for f in s["frames"]:
                x = self.frame(t, f)
                self.emit(["lins", [r, "frames"], 1000, {"ref": [x]}], None)
                o.frames.append(self.regs.pop(x))
                self.emit(["free", x], None)
        return r

    # -------------------------------------------------- navigation
    def all(self, pred=lambda o: True):
        """[(path, object)] of everything reachable, without duplicates of the same object."""
        out, seen = [], set()

        def go(p, o):
            if not isinstance(o, Obj) or id(o) in seen:
                return
            seen.add(id(o))
            if pred(o):
                out.append((p, o))
            for a in ("frames", "threads", "libs"):
                l = getattr(o, a)
                if isinstance(l, list):
                    for i, x in enumerate(l):
                        go(p + [a, i], x)
            if o.crashframe is not None:
                go(p + ["crashframe"], o.crashframe)
        for r, o in self.regs.items():
            go([r], o)
        return out

    def inlists(self):
        """ids of the objects that are in some list"""
        s = set()
        for _, o in self.everything():
            for a in ("frames", "threads", "libs"):
                l = getattr(o, a)
                if isinstance(l, list):
                    s.update(id(x) for x in l)
        return s

    def everything(self):
        return self.all()

    def method(self, p, o, name, args=(), kw=None, want=None, into=None):
        self.calls += 1
        self.log.append(name)
        self.emit(["call", into, p, name, list(args), kw or {}], want)

    def run(self):
        for r, o in self.g.shuffle(sorted(self.regs.items())):
            self.emit(["dump", [r]], view(o))
        for r in self.g.shuffle(sorted(self.regs)):
            self.emit(["free", r], None)
        got = self.c.pyrun(self.prog)
        for cmd, x, w in zip(self.prog, got, self.want):
            if isinstance(w, Bad):
                if not (isinstance(x, dict) and x.get("exc") == w.name):
                    self.c.fail("%s: got %r, expected %s" % (brief(cmd), x, w.name), "program: " + json.dumps(self.prog)[:8000])
                if not x.get("msg"):
                    self.c.fail("%s: an exception without a message" % brief(cmd))
                continue
            if callable(w):
                w(x)
                continue
            if x != w:
                self.c.eq(x, w, brief(cmd))
        return got


def brief(cmd):
    return json.dumps(cmd)[:160]


def flt(x):
    return {"float": float(x).hex()}


def same_float(c, what, w):
    def f(x):
        if not isinstance(x, dict) or "float" not in x:
            c.fail("%s: got %r, expected %r" % (what, x, w))
        v = float.fromhex(x["float"])
        c.check(v == w, "%s: got %r, expected %r" % (what, v, w))
    return f


def guarded(P, o, others=()):
    try:
        prepare(o)
        for x in others:
            prepare(x)
    except Bad as e:
        return e
    return None


def op_method(P, target=None, m=None):
    """Calls one method on something reachable."""
    g, c = P.g, P.c
    if target is not None:
        stack_method(P, target[0], target[1], m)
        return
    cand = P.all(lambda o: o.kind in ("frame", "thread", "stack"))
    if not cand:
        return
    big = [x for x in cand if x[1].kind != "frame"]
    p, o = g.choice(big if big and g.bool(4, 5) else cand)
    t = o.t
    k = o.kind
    if k == "frame":
        m = g.choice(["short", "dup", "str", "equals"] + (["calls", "calls_file"] if t == "gdb" else []))
        b0, ref = ctx_ref(o, 0)
        if m == "short":
            r = c.run(b0 + [["ftext", ref], ["free", 0]])
            P.method(p, o, "short_string", want=u(r[-2]))
        elif m == "str":
            s = text_of(o)
            if s is not None:
                P.emit(["str", p], u(s))
        elif m == "dup":
            r = P.reg()
            P.method(p, o, "dup", want={"obj": o.cls}, into=r)
            P.regs[r] = frame_obj(t, o.d)
        elif m == "equals":
            q, o2 = g.choice(P.all(lambda x: x.kind == "frame"))
            b1, ref1 = ctx_ref(o2, 1)
            r = c.run(b0 + b1 + [["fcmp", ref, ref1], ["free", 0], ["free", 1]]) if o2.t == t else None
            P.method(p, o, "equals", [{"ref": q}], want=r is not None and r[-3] == 0)
        else:
            f = o.d["function_name"] if g.bool() and o.d["function_name"] is not None else g.choice(FUNS)
            file = b(u(o.d["source_file"] or "x")[g.draw(3):]) if g.bool() else g.choice(FILES)
            fs = [file] if m == "calls_file" else []
            r = c.run(b0 + [["gdb_calls_func", ref, f, fs], ["free", 0]])
            P.method(p, o, "calls_func_in_file" if fs else "calls_func", [u(f)] + [u(x) for x in fs], want=int(r[-2]))
        return
    stack_method(P, p, o)


def stack_method(P, p, o, m=None):
    g, c, t, k = P.g, P.c, o.t, o.kind
    if o.framed:
        ms = ["distance", "duphash", "equals", "dup", "str", "crash_thread", "short", "bthash"]
        if k == "thread":
            ms = ms[:5] + (["quality", "qcounts", "funs"] if t != "core" else [])
        if t == "koops":
            ms += ["normalize"]
    else:
        ms = ["dup", "str", "crash_thread", "short", "bthash"]
        if t == "gdb":
            ms += ["find_crash", "limit", "qsimple", "qcomplex", "find_address", "libnames", "normalize"]
    m = m or g.choice(ms)
    if m == "str":
        s = text_of(o)
        if s is not None:
            P.emit(["str", p], u(s))
        return
    bad = guarded(P, o)                            # str() does not prepare the lists
    if m == "crash_thread" and o.framed:
        P.emit(["is", p + ["crash_thread"], p], True)
        return
    if m in ("distance", "equals"):
        q, o2 = g.choice(P.all(lambda x: x.framed and (x.t == t or g.bool(1, 8))))
        bad = guarded(P, o, [o2])
        dt = g.int(0, 3)
        args, kw = [{"ref": q}], {}
        if m == "distance":
            if g.bool(3, 4):
                if g.bool():
                    args.append(dt)
                else:
                    kw["dist_type"] = dt
            else:
                dt = 2                             # Levenshtein
            if g.bool(1, 12):
                args, kw, dt = args[:1] + [g.choice([-1, 4, 100])], {}, None
        if m == "equals" and (o2.t, o2.kind) != (t, k):
            P.method(p, o, "equals", args, want=False)
            return
        if not bad and (o2.t, o2.kind) != (t, k):
            bad = Bad("TypeError")
        elif not bad and dt is None and m == "distance":
            bad = Bad("ValueError")
        if bad:
            P.method(p, o, m, args, kw, want=bad)
            return
        b0, ref = ctx_ref(o, 0)
        b1, ref1 = ctx_ref(o2, 1)
        if o is o2:
            b1, ref1 = [], ref
        if m == "distance":
            r = c.run(b0 + b1 + [["distance", dt, ref, ref1]])
            P.method(p, o, "distance", args, kw, want=same_float(c, "distance", r[-1]))
        else:
            r = c.run(b0 + b1 + [["tcmp", ref, ref1]])
            P.method(p, o, "equals", args, want=r[-1] == 0)
        c.run([["free", 0]] + ([["free", 1]] if b1 else []))
        return
    if bad:
        # find_address checks its argument after the lists; the others all fail the same way
        meth = {"duphash": "get_duphash", "dup": "dup", "short": "to_short_text", "bthash": "get_bthash", "quality": "quality", "qcounts": "quality_counts",
                "funs": "format_funs", "find_crash": "find_crash_frame", "qsimple": "quality_simple", "qcomplex": "quality_complex", "libnames": "set_libnames",
                "normalize": "normalize", "limit": "limit_frame_depth", "find_address": "find_address"}.get(m)
        if meth is None:
            try:
                prepare(o, False)                  # the libraries do not matter
            except Bad as e:
                P.emit(["get", p, "crash_thread"], e)
        else:
            P.method(p, o, meth, [1] if m in ("limit", "find_address") else [], want=bad)
        return
    b0, ref = ctx_ref(o, 0)
    S = lambda *cmds: c.run(b0 + list(cmds) + [["free", 0]])[len(b0):-1]
    if m == "duphash":
        n, pre, fl = g.choice([0, 0, 1, 2, 5]), g.opt(lambda: ptext(g)), g.draw(16)
        r = S(["duphash", ref, n, pre, fl])[0]
        kw = {"frames": n, "flags": fl}
        if pre is not None:
            kw["prefix"] = u(pre)
        P.method(p, o, "get_duphash", [], kw, want=u(r) if r is not None else Bad("RuntimeError"))
    elif m == "dup":
        r = P.reg()
        P.method(p, o, "dup", want={"obj": o.cls}, into=r)
        P.regs[r] = thread_obj(t, snap(o)) if k == "thread" else stack_obj(snap(o))
        if o.crashframe is not None:
            P.regs[r].crashframe = frame_obj("gdb", o.crashframe.d)
    elif m == "crash_thread":
        i = S(["find_crash", 0])[0]
        if i is None:
            P.emit(["get", p, "crash_thread"], None)
        else:
            P.emit(["is", p + ["crash_thread"], p + ["threads", i]], True)
            if g.bool(1, 3):
                r = P.reg()
                P.emit(["hold", r, p + ["crash_thread"]], None)
                P.regs[r] = o.threads[i]
    elif m == "short":
        n = g.choice([0, 1, 2, 3, 5, 9, 13])
        r = S(["gdb_short" if t == "gdb" else "short", 0, n])[0]
        P.method(p, o, "to_short_text", [n] if n or g.bool() else [], want=u(r) if r is not None else Bad("LookupError"))
    elif m == "bthash":
        fl = g.draw(4)
        r = S(["bthash", 0, fl])[0]
        P.method(p, o, "get_bthash", [fl] if fl or g.bool() else [], want=u(r) if r is not None else Bad("RuntimeError"))
    elif m in ("quality", "qcounts"):
        r = S(["quality", ref])[0]
        if m == "quality":
            P.method(p, o, "quality", want=same_float(c, "quality", r[2]))
        else:
            P.method(p, o, "quality_counts", want=r[:2])
    elif m == "funs":
        if any(f.d["name" if t == "java" else "function_name"] is None for f in o.frames):
            return
        r = S([("gdb" if t == "gdb" else "java") + "_format_funs", ref])[0]
        P.method(p, o, "format_funs", want=u(r))
    elif m == "find_crash":
        r = S(["gdb_crash_frame", 2, 0], ["dump", 2], ["free", 2])
        if not r[0]:
            P.method(p, o, "find_crash_frame", want=Bad("LookupError"))
        else:
            x = P.reg()
            P.method(p, o, "find_crash_frame", want={"obj": "GdbFrame"}, into=x)
            f = frame_obj("gdb", r[1][0] if isinstance(r[1], list) else r[1])
            P.regs[x] = o.crashframe = f
            P.emit(["is", [x], p + ["crashframe"]], True)
    elif m == "limit":
        n = g.choice([1, 1, 2, 3, 100, 0, -1])
        if n <= 0:
            P.method(p, o, "limit_frame_depth", [n], want=Bad("ValueError"))
            return
        r = S(["gdb_limit_depth", 0, n], ["dump", 0])[1]
        P.method(p, o, "limit_frame_depth", [n])
        o.threads = [thread_obj("gdb", th) for th in r["threads"]]
        P.edits += 1
    elif m in ("qsimple", "qcomplex"):
        r = S(["gdb_quality", 0])[0]
        P.method(p, o, "quality_simple" if m == "qsimple" else "quality_complex", want=same_float(c, m, r[m == "qcomplex"]))
    elif m == "find_address":
        a = g.uint(64)
        if o.libs and g.bool(3, 4):
            l = g.choice(o.libs).d
            a = max(0, min(st.U64, g.choice([l["from"], l["to"]]) + g.int(-1, 1)))
        i = S(["sharedlib_find", ["s", 0], a])[0]
        if a == st.U64:
            i = None
        P.method(p, o, "find_address", [a], want=None if i is None else {"obj": "GdbSharedlib"}, into="tmp")
        if i is not None:
            P.emit(["is", ["tmp"], p + ["libs", i]], True)
        P.emit(["free", "tmp"], None)
    elif m == "libnames":
        r = S(["gdb_set_libnames", 0], ["dump", 0])[1]
        P.method(p, o, "set_libnames")
        for th, x in zip(o.threads, r["threads"]):
            for f, y in zip(th.frames, x["frames"]):
                f.d = dict(y)
        P.edits += 1
    elif m == "normalize":
        if t == "gdb":
            r = S(["gdb_normalize", 0], ["dump", 0])[1]
            P.method(p, o, "normalize")
            n = stack_obj(r)
            o.threads, o.d = n.threads, n.d
        else:
            r = S(["koops_normalize", 0], ["dump", 0])[1]
            P.method(p, o, "normalize")
            o.frames = stack_obj(r).frames
        P.edits += 1


def op_set(P):
    """Sets one attribute, to a good or a bad value, and reads it back."""
    g = P.g
    p, o = g.choice(P.all())
    fields = {"frame": lambda: [(n, n, k) for n, k in st.FIELDS[o.t]], "thread": lambda: [(n, n, k) for n, k in st.TFIELDS[o.t] if n in TATTR[o.t]],
              "stack": lambda: [(n, n, k) for n, k in st.SFIELDS[o.t] if n in SATTR[o.t]], "lib": lambda: LIB, "rpm": lambda: [(n, n, k) for n, k in RPM],
              "os": lambda: [(n, n, k) for n, k in OS]}[o.kind]()
    if not fields:
        return
    a, n, k = g.choice(fields)
    set_one(P, p, o, a, n, k)


def set_one(P, p, o, a, n, k):
    g = P.g
    if o.kind == "frame" and o.t == "java" and g.bool(1, 2) and n == "name":
        a = "function_name"
    if g.bool(1, 6):
        # a wrong value raises and changes nothing
        if g.bool(1, 4):
            P.emit(["del", p, a], Bad("TypeError"))
        elif k == st.S:
            P.emit(["set", p, a, g.choice([3, None, {"list": []}, {"bytes": "x"}])], Bad("TypeError"))
        elif k == 1:
            v = g.choice([0, 2, "", "x", None, {"list": []}, {"list": [1]}])
            P.emit(["set", p, a, v], None)
            o.d[n] = int(bool(v if not isinstance(v, dict) else v["list"]))
        elif k == 64:
            P.emit(["set", p, a, g.choice(["1", {"list": []}])], Bad("TypeError"))
        elif k is None:
            P.emit(["set", p, a, g.choice([3, 7, -1, 1 << 32])], Bad("ValueError"))
        else:
            big = g.choice([-1, 1 << k, (1 << k) + 5, -(1 << 31), 1 << 62])
            if g.bool():
                P.emit(["set", p, a, big], Bad("ValueError"))
            else:
                P.emit(["set", p, a, g.choice(["1", None, {"list": []}])], Bad("TypeError"))
    else:
        if k == st.S:
            v = ptext(g)
        elif k == 1:
            v = g.draw(2)
        elif k is None:
            v = g.draw(2 if o.kind == "rpm" else 3)
        else:
            v = g.uint(k) if n != "rescue_level" else g.draw(9)
        if o.t == "java" and n == "is_exception" and v and o.d["name"] is None:
            return
        P.emit(["set", p, a, pyval(v, k)], None)
        o.d[n] = v
        P.edits += 1
    P.emit(["get", p, a], pyval(o.d[n], k))


def attr_of(g, o):
    if o.framed:
        return "frames", "frame"
    if o.t == "gdb" and g.bool(1, 4):
        return "libs", "lib"
    return "threads", "thread"


def op_list(P):
    """Edits a list in place or replaces it."""
    g = P.g
    cand = P.all(lambda o: o.framed or o.multi)
    if not cand:
        return
    p, o = g.choice(cand)
    a, kind = attr_of(g, o)
    l = getattr(o, a)
    P.edits += 1
    P.log.append("list")
    if not isinstance(l, list) or g.bool(1, 8):
        # replace the list
        used = P.inlists()
        free = [(q, x) for q, x in P.all(lambda x: x.kind == kind and x.t == o.t) if id(x) not in used and len(q) == 1]
        ch = g.sample(free, g.draw(3)) if free else []
        keep = [(p + [a, i], x) for i, x in enumerate(l)] if isinstance(l, list) else []
        new = g.shuffle(ch + [x for x in keep if g.bool()])
        P.emit(["set", p, a, {"list": [{"ref": q} for q, _ in new]}], None)
        setattr(o, a, [x for _, x in new])
        return
    k = g.draw(12)
    path = p + [a]
    if k < 3:
        # a new or copied element
        used = P.inlists()
        free = [(q, x) for q, x in P.all(lambda x: x.kind == kind and x.t == o.t) if id(x) not in used and len(q) == 1]
        if free and g.bool():
            q, x = g.choice(free)
            r = None
        else:
            r = {"frame": lambda: P.frame(o.t, pframe(g, o.t)), "thread": lambda: P.thread(o.t, st.gen_thread(g, o.t, frame=pframe, hi=3, text=ptext)),
                 "lib": lambda: P.lib(glib(g))}[kind]()
            q, x = [r], P.regs[r]
        i = g.int(0, len(l))
        P.emit(["lins", path, i, {"ref": q}], None)
        l.insert(i, x)
        if r and g.bool(2, 3):
            P.emit(["free", r], None)
            P.regs.pop(r)
    elif k < 6 and l:
        i = g.draw(len(l))
        j = g.int(i + 1, len(l)) if g.bool(1, 4) else i + 1
        if isinstance(l[i], Obj) and g.bool(1, 2):
            r = P.reg()
            P.emit(["hold", r, path + [i]], None)
            P.regs[r] = l[i]
        P.emit(["ldel", path, i, j], None)
        del l[i:j]
    elif k < 7 and l:
        P.emit(["lrev", path], None)
        l.reverse()
    elif k < 8 and l:
        i = g.draw(len(l))
        P.emit(["lrot", path, i], None)
        l[:] = l[i:] + l[:i]
    elif k < 10:
        # move an element from another list
        src = [(q, x) for q, x in cand if x is not o and x.t == o.t and isinstance(getattr(x, a), list) and getattr(x, a)]
        if not src:
            return
        q, x = g.choice(src)
        sl = getattr(x, a)
        i = g.draw(len(sl))
        if not isinstance(sl[i], Obj) or contains(sl[i], o):
            return
        r = P.reg()
        P.emit(["hold", r, q + [a, i]], None)
        P.emit(["ldel", q + [a], i, i + 1], None)
        y = sl.pop(i)
        # the path of the target may lead through the moved element's list
        P.regs[r] = y
        np = next((pp for pp, oo in P.all() if oo is o), None)
        if np is None:
            return
        j = g.int(0, len(l))
        P.emit(["lins", np + [a], j, {"ref": [r]}], None)
        l.insert(j, y)
        if g.bool():
            P.emit(["free", r], None)
            P.regs.pop(r)
    elif k == 10 and g.bool(1, 2):
        # something that does not belong there
        v, m = g.choice([("x", "x"), (3, 3), (None, None)])
        if g.bool():
            P.emit(["lins", path, 0, v], None)
            l.insert(0, m)
        else:
            P.emit(["set", p, a, v], None)
            setattr(o, a, m)
    elif k == 11:
        P.emit(["set", p, a, {"list": []}], None)
        setattr(o, a, [])


def contains(x, o):
    if x is o:
        return True
    return any(contains(y, o) for a in ("frames", "threads", "libs") for y in (getattr(x, a, None) if isinstance(getattr(x, a, None), list) else []) if isinstance(y, Obj))


def op_hold(P):
    g = P.g
    if g.bool() or len(P.regs) < 2:
        p, o = g.choice(P.all())
        r = P.reg()
        P.emit(["hold", r, p], None)
        P.regs[r] = o
    else:
        r = g.choice(sorted(P.regs))
        P.emit(["free", r], None)
        P.regs.pop(r)


def glib(g):
    l = st.gen_lib(g, ptext)
    return l


def pstack(g, t):
    s = st.gen_stack(g, t, frame=pframe, hi=g.weighted([(6, 5), (1, 14)]), threads=4, text=ptext)
    if t == "core":
        s["executable"] = s["executable"] if s["executable"] is not None else "/bin/x"
    if "exception_name" in s and s["exception_name"] is None:
        s["exception_name"] = "E"
    return s


def start(P, t):
    """Puts a stack into a register in one of several ways."""
    g, c = P.g, P.c
    s = pstack(g, t)
    if t != "gdb" and g.bool():
        text = st.dump_json(g, st.stack_json(s))
        x = c.run([["fromjson", 0, t, text], ["dump", 0], ["free", 0]])
        o = stack_obj(st.strip_ids(x[1]))
        r = P.reg()
        cls = CLS[t][2]
        if t == "core" and g.bool():
            P.emit(["new", r, cls, [u(text)]], {"obj": cls})
        else:
            P.emit(["scall", r, cls, "from_json", [u(text)]], {"obj": cls})
        P.regs[r] = o
        c.label("from JSON")
        return r
    if t == "gdb" and g.bool():
        from .. import gdbtext
        text = None
        try:
            text = gdb_text(g)
            u(text)
        except UnicodeDecodeError:
            text = None
        if text is not None:
            x = c.run([["parse", 0, "gdb", text], ["dump", 0], ["free", 0]])
            r = P.reg()
            if x[1] is None:
                P.emit(["new", r, "GdbStacktrace", [u(text)]], Bad("ValueError"))
            else:
                P.emit(["new", r, "GdbStacktrace", [u(text)]], {"obj": "GdbStacktrace"})
                P.regs[r] = stack_obj(x[1])
                c.label("from text")
                return r
    return P.stack(s)


def gdb_text(g):
    from .. import gdbtext
    return gdbtext.gen_trace(g)[0]


def edit(g, c):
    P = Prog(g, c)
    t = g.choice(st.TYPES)
    for _ in range(g.int(1, 2)):
        start(P, t)
    if g.bool(1, 3):
        start(P, g.choice(st.TYPES))
    for _ in range(g.size(24, 3)):
        if not P.regs:
            break
        k = g.draw(10)
        (op_method if k < 5 else op_list if k < 8 else op_set if k < 9 else op_hold)(P)
    got = P.run()
    c.label(t, "%d+ edits" % (min(P.edits, 9) // 3 * 3), *["called " + m for m in set(P.log)])
    c.nontrivial(P.edits >= 3 and P.calls >= 2)
    c.sample(P.log)


CRASHY = ["IA__g_log", "g_log", "__GI_raise", "raise", "f", "f", "main", "abort", "h"]


def crash(g, c):
    """What a GDB stack trace knows about its crash survives the changes made to it and to its copies."""
    P = Prog(g, c)
    cr = g.choice(CRASHY)
    line = lambda i, f: "#%d  0x%016x in %s (x=1) at a.c:%d\n" % (i, 0x400000 + 16 * i, f, i + 1)
    text = "Core was generated by `x'.\nProgram terminated with signal 6, Aborted.\n" + line(0, cr) + "\n"
    n = g.int(1, 4)
    for i in range(n):
        text += "Thread %d (LWP %d):\n" % (n - i, 100 + i)
        for j in range(g.int(1, 4)):
            text += line(j, cr if g.bool(1, 3) else g.choice(CRASHY))
        text += "\n"
    x = c.run([["parse", 0, "gdb", text], ["dump", 0], ["free", 0]])
    r = P.reg()
    P.emit(["new", r, "GdbStacktrace", [text]], {"obj": "GdbStacktrace"})
    P.regs[r] = stack_obj(x[1])
    for _ in range(g.size(12, 3)):
        r = g.choice([q for q in sorted(P.regs) if P.regs[q].kind == "stack"])
        o = P.regs[r]
        k = g.draw(10)
        if k < 6:
            stack_method(P, [r], o, ["crash_thread", "short", "bthash", "dup", "normalize", "limit"][k])
        elif k == 6:
            stack_method(P, [r], o, g.choice(["find_crash", "qcomplex"]))
        else:
            l = [i for i, th in enumerate(o.threads) if th.frames]
            if not l:
                continue
            i = g.choice(l)
            th = o.threads[i]
            P.edits += 1
            if k == 7:
                P.emit(["ldel", [r, "threads", i, "frames"], 0, 1], None)
                del th.frames[0]
            elif k == 8:
                set_one(P, [r, "threads", i, "frames", 0], th.frames[0], "function_name", "function_name", st.S)
            else:
                P.emit(["lrev", [r, "threads"]], None)
                o.threads.reverse()
    P.run()
    c.label(*["called " + m for m in set(P.log)])
    c.nontrivial(P.edits >= 1 and P.calls >= 2)
    c.sample((text, P.log))


# ------------------------------------------------------------------ reports
def crep(o):
    """The C library's view of a report whose parts are in order."""
    r = dict(o.d)
    r["auth"] = o.d["auth"][::-1]
    r["operating_system"] = None if o.os is None else dict(o.os.d)
    r["rpm_packages"] = [dict(x.d) for x in o.packages]
    r["stacktrace"] = None
    t = p13.STYPE.get(r["report_type"])
    if isinstance(o.stack, Obj) and t not in (None, "gdb"):
        r["stacktrace"] = snap(o.stack)
    return r


def prep_report(o):
    check_list(o.packages, "rpm", None)
    if o.os is not None and not (isinstance(o.os, Obj) and o.os.kind == "os"):
        raise Bad("TypeError")
    t = p13.STYPE.get(o.d["report_type"])
    if o.stack is not None and t not in (None, "gdb"):
        if not isinstance(o.stack, Obj) or o.stack.kind != "stack" or o.stack.t != t:
            raise Bad("TypeError")
        prepare(o.stack)


def report_obj(d):
    x = dict(d)
    x.update(x.pop("reporter"))
    s, os_, rp = x.pop("stacktrace"), x.pop("operating_system"), x.pop("rpm_packages")
    o = Obj("report", None, x)
    o.stack = None if s is None else stack_obj(st.strip_ids(s))
    o.os = None if os_ is None else Obj("os", None, dict(os_))
    o.packages = [Obj("rpm", None, {k: v for k, v in p.items() if k != "consistency"}) for p in rp or []]
    return o


def new_rpm(P):
    g = P.g
    o = Obj("rpm", None, dict(name=None, epoch=0, version=None, release=None, architecture=None, install_time=0, role=0))
    args = []
    if g.bool(2, 3):
        n = g.int(1, 5)
        for k in ("name", "epoch", "version", "release", "architecture")[:n]:
            v = g.uint(32) if k == "epoch" else ptext(g)
            o.d[k] = v
            args.append(v if k == "epoch" else u(v))
    r = P.new(o, args)
    for k, kind in RPM:
        if g.bool(1, 3):
            set_one(P, [r], o, k, k, kind)
    P.emit(["str", [r]], u(text_of(o)))
    return r


def new_os(P):
    g = P.g
    o = Obj("os", None, dict(name=None, version=None, architecture=None, cpe=None, desktop=None, variant=None, uptime=0))
    args = []
    for k in ("name", "version", "architecture")[:g.draw(4)]:
        v = ptext(g)
        o.d[k] = v
        args.append(u(v))
    r = P.new(o, args)
    for k, kind in OS:
        if g.bool(1, 3):
            set_one(P, [r], o, k, k, kind)
    P.emit(["str", [r]], u(text_of(o)))
    return r


def report(g, c):
    P = Prog(g, c)
    r = P.reg()
    if g.bool():
        d, t = p13.gen_report_doc(g)
        text = st.dump_json(g, d)
        x = c.run([["report_fromjson", 0, text], ["dump", 0], ["free", 0]])
        o = report_obj(x[1])
        if isinstance(o.stack, Obj) and o.stack.t == "ruby" and any(f.d["rescue_level"] > 8 for f in o.stack.frames):
            raise Discard                          # each is written out
        P.emit(["new", r, "Report", [u(text)]], {"obj": "Report"})
        c.label("from JSON")
    else:
        x = c.run([["breport", 0, {}], ["dump", 0], ["free", 0]])
        o = report_obj(x[1])
        o.os = Obj("os", None, dict(name=None, version=None, architecture=None, cpe=None, desktop=None, variant=None, uptime=0))
        P.emit(["new", r, "Report", []], {"obj": "Report"})
        o.d["report_type"] = g.choice([1, 2, 3, 4, 6, 7, 1, 2, 3, 4, 6, 7, 0, 5])
        if o.d["report_type"]:
            P.emit(["set", [r], "report_type", RNAME[o.d["report_type"]]], None)
    P.regs[r] = o
    SC = [("reporter_name", st.S), ("reporter_version", st.S), ("user_root", 1), ("user_local", 1), ("component_name", st.S), ("serial", 32)]
    spare = []                                     # packages not in the list
    for _ in range(g.size(14, 2)):
        k = g.draw(16)
        if k < 3:
            a, kind = g.choice(SC)
            set_one(P, [r], o, a, a, kind)
        elif k == 3:
            t = g.draw(8)
            if g.bool(1, 4):
                P.emit(["set", [r], "report_type", g.choice(["", "Core", "koops", "x"])], Bad("ValueError"))
            elif t:
                P.emit(["set", [r], "report_type", RNAME[t]], None)
                o.d["report_type"] = t
        elif k == 4:
            P.emit(["set", [r], g.choice(["report_version", "auth"]), 1], lambda x: c.check(isinstance(x, dict) and "exc" in x, "a read-only attribute was set"))
        elif k < 8:
            if not isinstance(o.packages, list) or g.bool(1, 6):
                if g.bool(1, 6):
                    v = g.choice([None, "x"])
                    P.emit(["set", [r], "packages", v], None)
                    o.packages = v
                else:
                    old = o.packages if isinstance(o.packages, list) else []
                    keep = g.shuffle([(i, x) for i, x in enumerate(old) if isinstance(x, Obj) and g.bool()])
                    P.emit(["set", [r], "packages", {"list": [{"ref": [r, "packages", i]} for i, _ in keep]}], None)
                    o.packages = [x for _, x in keep]
            elif g.bool() or not o.packages:
                q = g.choice(spare) if spare and g.bool() else None
                if q is None:
                    q = new_rpm(P)
                else:
                    spare.remove(q)
                i = g.int(0, len(o.packages))
                P.emit(["lins", [r, "packages"], i, {"ref": [q]}], None)
                o.packages.insert(i, P.regs[q])
                if g.bool(1, 8):
                    P.emit(["lins", [r, "packages"], 0, 5], None)
                    o.packages.insert(0, 5)
                if g.bool():
                    P.emit(["free", q], None)
                    P.regs.pop(q)
            else:
                i = g.draw(len(o.packages))
                if isinstance(o.packages[i], Obj) and g.bool():
                    q = P.reg()
                    P.emit(["hold", q, [r, "packages", i]], None)
                    P.regs[q] = o.packages[i]
                    if not any(P.regs.get(z) is P.regs[q] for z in spare):
                        spare.append(q)
                P.emit(["ldel", [r, "packages"], i, i + 1], None)
                del o.packages[i]
            P.edits += 1
        elif k == 8:
            v = g.draw(4)
            if v == 0:
                P.emit(["set", [r], "operating_system", None], None)
                o.os = None
            elif v == 1 and g.bool(1, 2):
                P.emit(["set", [r], "operating_system", "Linux"], None)
                o.os = "Linux"
            else:
                q = new_os(P)
                P.emit(["set", [r], "operating_system", {"ref": [q]}], None)
                o.os = P.regs[q]
                if g.bool():
                    P.emit(["free", q], None)
                    P.regs.pop(q)
            P.edits += 1
        elif k == 9 and isinstance(o.os, Obj):
            a, kind = g.choice(OS)
            set_one(P, [r, "operating_system"], o.os, a, a, kind)
        elif k < 12:
            v = g.draw(6)
            if v == 0:
                P.emit(["set", [r], "stacktrace", None], None)
                o.stack = None
            else:
                t = p13.STYPE.get(o.d["report_type"])
                if t is None or v == 1:
                    t = g.choice(st.TYPES)
                q = start(P, t)
                if q is not None:
                    P.emit(["set", [r], "stacktrace", {"ref": [q]}], None)
                    o.stack = P.regs[q]
                    if g.bool(2, 3):
                        P.emit(["free", q], None)
                        P.regs.pop(q)
            P.edits += 1
        elif k < 14 and isinstance(o.stack, Obj):
            # through the report
            q = P.reg()
            P.emit(["hold", q, [r, "stacktrace"]], None)
            P.regs[q] = o.stack
            for _ in range(g.int(1, 3)):
                (op_list if g.bool(2, 3) else op_method)(P)
            if q in P.regs:
                P.emit(["free", q], None)
                P.regs.pop(q)
        elif k == 14:
            x = [([r], o)] + ([([r, "operating_system"], o.os)] if isinstance(o.os, Obj) else [])
            x += [([r, "packages", i], y) for i, y in enumerate(o.packages) if isinstance(y, Obj)] if isinstance(o.packages, list) else []
            q, y = g.choice(x)
            P.emit(["str", q], u(text_of(y)))
        else:
            to_json(P, r, o)
        spare = [q for q in spare if q in P.regs]
    to_json(P, r, o)
    P.run()
    c.label(RNAME[o.d["report_type"]], "trace" if isinstance(o.stack, Obj) else "no trace")
    c.nontrivial(P.edits >= 2)
    c.sample(P.log)


def to_json(P, r, o):
    try:
        prep_report(o)
    except Bad as e:
        P.method([r], o, "to_json", want=e)
        return
    x = P.c.run([["breport", 0, crep(o)], ["report_json", 0], ["free", 0]])
    P.method([r], o, "to_json", want=u(x[1]))


# ------------------------------------------------------------------ distances
def metrics(g, c):
    P = Prog(g, c)
    t = g.choice(st.TYPES)
    n = g.weighted([(6, 0), (1, 1)])
    n = g.int(7, 12) if n else g.int(2, 6)
    ths, refs, prog = [], [], []
    for i in range(n):
        if t in st.THREADED:
            th = st.gen_thread(g, t, frame=pframe, hi=4, text=ptext)
            if t == "gdb":
                th["tid"] = st.U32
            r = P.thread(t, th)
        else:
            r = P.stack(pstack(g, t))
        o = P.regs[r]
        if ths and g.bool(1, 4):
            o.frames = []                          # twins
            P.emit(["set", [r], "frames", {"list": []}], None)
            for f in P.regs[g.choice(ths)].frames:
                q = P.frame(t, f.d)
                P.emit(["lins", [r, "frames"], 1000, {"ref": [q]}], None)
                o.frames.append(P.regs.pop(q))
        ths.append(r)
    for i, r in enumerate(ths):
        b0, ref = ctx_ref(P.regs[r], i)
        prog += b0
        refs.append(ref)
    hist = []

    def C(cmds):
        x = c.run(hist + cmds)[len(hist):]
        hist.extend(cmds)
        return x

    C(prog)
    lst = {"list": [{"ref": [r]} for r in ths]}
    m = g.int(1, n)
    dt = g.int(1, 3)
    mats = []                                      # (python register, C register)
    free = iter(range(20, 60))

    def same(p, k, mm):
        """Every entry of the matrix"""
        w = C([["dist_all", k]])[0]
        P.emit(["call", None, [p], "get_size", []], [mm, n])
        for i in range(mm):
            for j in range(n):
                v = w[i][j] if isinstance(w[0], list) else w[i * n + j]
                P.emit(["call", None, [p], "get_distance", [i, j]], same_float(c, "distance %d, %d" % (i, j), v))
        P.emit(["str", [p]], "%d-by-%d distance matrix" % (mm, n))

    def merge_levels(p, k):
        d = next(free)
        x = C([["cluster", d, k], ["dump", d]])[1]
        q = P.reg()
        P.emit(["new", q, "Dendrogram", [{"ref": [p]}]], {"obj": "Dendrogram"})
        P.regs[q] = Obj("gone", None, {})
        P.emit(["call", None, [q], "get_size", []], x["size"])
        for i in range(x["size"]):
            P.emit(["call", None, [q], "get_object", [i]], x["order"][i])
        for i in range(x["size"] - 1):
            P.emit(["call", None, [q], "get_merge_level", [i]], same_float(c, "merge level", x["merge_levels"][i]))
        P.emit(["call", None, [q], "get_object", [g.choice([-1, x["size"]])]], Bad("ValueError"))
        P.emit(["call", None, [q], "get_merge_level", [g.choice([-1, x["size"] - 1, x["size"]])]], Bad("ValueError"))
        P.emit(["str", [q]], "Dendrogram with %d objects" % x["size"])
        for _ in range(2):
            lv = g.choice([0.0, 0.25, 0.5, 1.0, 2.0] + [float(y) for y in x["merge_levels"]])
            ms = g.int(0, 3)
            cl = next(free)
            y = C([["cut", cl, d, D(lv), ms], ["dump", cl], ["free", cl]])
            P.emit(["call", None, [q], "cut", [{"float": lv.hex()}, ms]], [list(z) for z in y[1] or []])
        C([["free", d]])

    def odd_threads(count=True):
        """A list of threads that is not good"""
        l = [{"ref": [r]} for r in ths]
        k = g.draw(3 if count else 2)
        if k == 0:
            l[g.draw(n)] = g.choice(["x", 3, None])
            return l, Bad("TypeError")
        if k == 1:
            r = P.reg()
            cls = g.choice([CLS[y][1 if y in st.THREADED else 2] for y in st.TYPES if y != t])
            P.emit(["new", r, cls, []], {"obj": cls})
            P.regs[r] = Obj("gone", None, {})
            l[g.draw(n)] = {"ref": [r]}
            return l, Bad("TypeError")
        return (l[:-1] if g.bool() else l + [l[g.draw(n)]]), Bad("ValueError")

    # whole matrix
    p = P.reg()
    if g.bool(1, 3):
        l, w = odd_threads(False)
        P.emit(["new", P.reg(), "Distances", [{"list": l}, m, dt]], w)
    if g.bool(1, 5):
        a, w = g.choice([([0, dt], "ValueError"), ([m, 0], "ValueError"), ([m, 4], "ValueError"), ([-1], "ValueError")])
        P.emit(["new", P.reg(), "Distances", [lst] + a], Bad(w))
    k = next(free)
    x = C([["compare", k, refs, m, n, dt], ["dump", k]])
    args = [lst, m] + ([dt] if dt != 2 or g.bool() else [])
    P.emit(["new", p, "Distances", args], {"obj": "Distances"})
    P.regs[p] = Obj("gone", None, {})
    mm = min(m, n - 1)
    same(p, k, mm)
    merge = [mm == n - 1]
    # a copy, and changes to it
    q = P.reg()
    P.emit(["call", q, [p], "dup", []], {"obj": "Distances"})
    P.regs[q] = Obj("gone", None, {})
    k2 = next(free)
    C([["dist_dup", k2, k]])
    for _ in range(g.draw(4)):
        i, j, v = g.draw(mm), g.draw(n), g.choice([0.0, 0.5, 0.125, 1.0, 7.25, -0.5])
        if g.bool(1, 5):
            i, j = g.choice([(mm, 0), (0, n), (-1, 0), (0, -1), (1 << 30, 1 << 30)])
            P.emit(["call", None, [q], "set_distance", [i, j, {"float": v.hex()}]], Bad("ValueError"))
            P.emit(["call", None, [q], "get_distance", [i, j]], Bad("ValueError"))
            continue
        if i == j:
            continue
        P.emit(["call", None, [q], "set_distance", [i, j, {"float": v.hex()}]], None)
        C([["dist_set", k2, i, j, D(v)]])
    same(q, k2, mm)
    same(p, k, mm)
    if mm == n - 1:
        merge_levels(p, k)
        if g.bool():
            merge_levels(q, k2)
    # in parts
    np = g.int(1, 6)
    args = [n, np] + ([m, dt] if g.bool() or mm != n - 1 else [])
    dt2 = dt if len(args) == 4 else 2
    parts = P.reg()
    kp = next(free)
    y = C([["parts_create", kp, m if len(args) == 4 else n - 1, n, dt2, np], ["dump", kp]])
    got = y[1]
    P.emit(["scall", parts, "DistancesPart", "create", args], [{"obj": "DistancesPart"}] * len(got))
    P.regs[parts] = Obj("gone", None, {})
    order = g.shuffle(list(range(len(got))))
    for i in order:
        e = got[i]
        s = "%d-by-%d distance matrix part starting at (%d, %d) of length %d, " % (e["m"], e["n"], e["m_begin"], e["n_begin"], e["len"])
        P.emit(["str", [parts, i]], s + "not computed")
        if g.bool(1, 3):
            z = P.reg()
            P.emit(["pickle", z, [parts, i]], None)
            P.emit(["lset", [parts], i, {"ref": [z]}], None)
        if g.bool(1, 4):
            other = odd_threads()
            P.emit(["call", None, [parts, i], "compute", [{"list": other[0]}]], other[1])
            P.emit(["str", [parts, i]], s + "not computed")
        P.emit(["call", None, [parts, i], "compute", [lst]], None)
        P.emit(["str", [parts, i]], s + "computed")
        if g.bool(1, 3):
            z = P.reg()
            P.emit(["pickle", z, [parts, i]], None)
            P.emit(["lset", [parts], i, {"ref": [z]}], None)
    if g.bool(1, 4):
        a, w = g.choice([([1, np], "ValueError"), ([n, np, -1], "ValueError"), ([n, np, m, 0], "ValueError"), ([n, np, m, 4], "ValueError"), ([n, np, m, -1], "ValueError")])
        P.emit(["scall", None, "DistancesPart", "create", a], Bad(w))
    w = P.reg()
    if g.bool():
        P.emit(["lrev", [parts]], None)
    P.emit(["scall", w, "Distances", "merge_parts", [{"ref": [parts]}]], {"obj": "Distances"})
    P.regs[w] = Obj("gone", None, {})
    k3 = next(free)
    C([["compare", k3, refs, m if len(args) == 4 else n - 1, n, dt2]])
    same(w, k3, mm if len(args) == 4 else n - 1)
    P.emit(["scall", None, "Distances", "merge_parts", [{"list": []}]], Bad("ValueError"))
    for r, o in P.regs.items():
        P.emit(["free", r], None)
    P.regs.clear()
    P.run()
    c.label(t, "%d threads" % n, "%d parts" % len(got))
    c.nontrivial(n >= 3)
    c.sample((t, n, m, dt, np))


# ------------------------------------------------------------------ texts
KIND = {"gdb": "gdb", "koops": "koops", "python": "python", "ruby": "ruby", "java": "java", "js": "js"}
CONST = dict(DUPHASH_NORMAL=1, DUPHASH_NOHASH=2, DUPHASH_NONORMALIZE=4, DUPHASH_KOOPS_COMPAT=8, BTHASH_NORMAL=1, BTHASH_NOHASH=2, DISTANCE_JARO_WINKLER=0, DISTANCE_JACCARD=1,
             DISTANCE_LEVENSHTEIN=2, DISTANCE_DAMERAU_LEVENSHTEIN=3, SYMS_OK=0, SYMS_WRONG=1, SYMS_NOT_FOUND=2, ROLE_UNKNOWN=0, ROLE_AFFECTED=1)


def texts(g, c):
    """Objects made from text, sound or damaged, are what the C parser makes of it; what it refuses raises ValueError with its message."""
    from . import p01
    P = Prog(g, c)
    for _ in range(g.int(1, 3)):
        t = g.choice(sorted(KIND))
        what = g.weighted([(4, "stack"), (3, "frame"), (3 if CLS[t][1] else 0, "thread")])
        s = p01.valid(g, t)
        if what == "thread" and t == "gdb":
            s = p01.gdbtext.gen_thread(g)[0]
        if what == "frame":
            s = p01_frame(g, t)
        if g.bool(2, 3):
            s = p01.mutate(g, s, t, lambda g: p01.valid(g, t), 3)[0]
        try:
            u(s)
        except UnicodeDecodeError:
            s = "".join(x for x in s if x < "\x80")
        s = s.replace("\0", " ")
        args = [u(s)]
        if what == "stack":
            x = c.run([["parseloc", 0, t, s], ["dump", 0]])
            o = x[1] and stack_obj(st.strip_ids(x[1]))
        elif what == "thread":
            only = t == "gdb" and g.bool()
            if only:
                x = c.run([["bthread", 1, "gdb", dict(frames=[pframe(g, "gdb") for _ in range(g.size(4))])], ["gdb_format_funs", [1]]])
                s = x[1] or s
                try:
                    args = [u(s), 1]
                except UnicodeDecodeError:
                    raise Discard
                x = c.run([["gdb_parse_funs", 0, s], ["dump", 0]])
                c.label("only functions")
            else:
                if t == "gdb" and g.bool(1, 4):
                    args.append(0)
                x = c.run([["threadparse", 0, t, s], ["dump", 0]])
            o = x[1] and thread_obj(t, x[1][0])
        else:
            x = c.run([["frameparse", 0, t, s], ["dump", 0]])
            o = x[1] and frame_obj(t, x[1][0])
        try:
            view(o)
        except UnicodeDecodeError:
            raise Discard                          # a name cut inside a character
        if o and t == "ruby" and any(f.d["rescue_level"] > 8 for f in ([o] if what == "frame" else o.frames)):
            raise Discard
        r = P.reg()
        cls = CLS[t][("frame", "thread", "stack").index(what)]
        if o:
            P.emit(["new", r, cls, args], {"obj": cls})
            P.regs[r] = o
        elif what == "frame" and t == "koops":
            P.emit(["new", r, cls, args], Bad("ValueError"))
        else:
            msg = x[0][4]
            P.emit(["new", r, cls, args], lambda v, cls=cls, msg=msg: c.check(isinstance(v, dict) and v.get("exc") == "ValueError" and v.get("msg") == u(msg), "refused text (%s): got %r, expected ValueError(%r)" % (cls, v, msg)))
        c.label(t, what, "read" if o else "refused")
    for _ in range(g.draw(5)):
        if P.regs:
            g.choice([op_method, op_method, op_list, op_set])(P)
    if g.bool(1, 20):
        for k, v in CONST.items():
            P.emit(["const", k], v)
        for n in ("_ZN3foo3barEv", "_Z1fi", "main", "", "_Zx", "_ZNSt6vectorIiSaIiEE9push_backERKi"):
            w = c.one(["demangle", n])
            P.emit(["fun", "demangle_symbol", [n]], u(w) if w is not None else n)
    P.run()
    c.nontrivial(P.calls or P.edits)
    c.sample(P.log)


def p01_frame(g, t):
    from . import p01
    if t == "gdb":
        return p01.gdbtext.gen_frame(g, g.draw(3))[0] + "\n"
    if t == "koops":
        s = p01.koopstext.frame(g)
        return s[0] if isinstance(s, tuple) else s
    if t == "python":
        return p01.p05.print_frame(p01.p05.gen_frame(g))
    if t == "ruby":
        return p01.p06.print_frame(p01.p06.gen_frame(g))
    if t == "java":
        return (p01.p07.gen_frame if g.bool() else p01.p07.gen_exc)(g)[0]
    return p01.p08.gen_frame(g)[0]


FACETS = [Facet("edit", edit, 8), Facet("crash", crash, 2), Facet("report", report, 3), Facet("metrics", metrics, 2), Facet("texts", texts, 3)]
