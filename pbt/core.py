"""Choice-sequence generation, the library server, case running, shrinking, evidence."""
import base64, copy, hashlib, json, math, os, random, select, signal, struct, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ generation
class Gen:
    """Draws integers; every decision of a case goes through draw(n), so that a case is the list of draws."""

    def __init__(self, rng=None, choices=None):
        self.rng = rng
        self.given = choices
        self.choices = []

    def draw(self, n):
        """0 <= result < n; 0 is the simplest value."""
        if n <= 1:
            return 0
        if self.given is not None:
            k = len(self.choices)
            v = self.given[k] if k < len(self.given) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is simplest."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        v = self.draw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def many(self, make, n, most=130):
        """n made values; rarely followed by a great many copies of them."""
        out = [make() for _ in range(n)]
        if n and self.bool(1, 40):
            for _ in range(self.int(1, most)):
                out.append(copy.deepcopy(out[self.draw(n)]))
        return out

    def count(self, n, most=100):
        """n, rarely a great many more."""
        return n + self.int(1, most) if n and self.bool(1, 50) else n

    def size(self, hi, lo=0):
        """A size biased to small values but reaching hi."""
        k = self.draw(4)
        if k <= 1:
            return self.int(lo, min(hi, max(lo, 3)))
        if k == 2:
            return self.int(lo, max(lo, hi // 2))
        return self.int(lo, hi)

    def list(self, fn, hi, lo=0):
        return [fn() for _ in range(self.size(hi, lo))]

    def opt(self, fn, num=1, den=2):
        return fn() if self.bool(num, den) else None

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def text(self, alphabet, hi, lo=0):
        s = [self.choice(alphabet) for _ in range(self.size(hi, lo))]
        if s and hi >= 4 and self.bool(1, 500):              # rarely a great length
            s = (s * self.int(2, 1200))[:self.int(60, 1600)]
        return "".join(s)

    def uint(self, bits):
        k = self.draw(8)
        top = (1 << bits) - 1
        if k <= 2:
            return self.int(0, 20)
        if k == 3:
            return self.int(0, min(top, 70000))
        if k == 4:                                   # around powers of two
            b = self.int(0, bits)
            return min(top, max(0, (1 << b) + self.int(-1, 1)))
        if k == 5:
            return top - self.int(0, 2)
        if k == 6:
            return self.int(0, min(top, (1 << 31) + 5))
        return self.draw(top + 1)


class Violation(Exception):
    def __init__(self, msg, detail=""):
        Exception.__init__(self, msg)
        self.msg, self.detail = msg, detail


class Crash(Violation):
    def __init__(self, msg, detail="", kind="crash"):
        Violation.__init__(self, msg, detail)
        self.kind = kind


class Discard(Exception):
    """The generated case is outside the domain."""


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ server
class D(float):
    pass


_q = struct.Struct("<q")
_Q = struct.Struct("<Q")
_I = struct.Struct("<I")
_d = struct.Struct("<d")


def _enc(v, out):
    if v is None:
        out.append(b"N")
    elif v is True or v is False:
        out.append(b"I" + _q.pack(1 if v else 0))
    elif isinstance(v, int):
        out.append(b"I" + _q.pack(v) if -(1 << 63) <= v < (1 << 63) else b"U" + _Q.pack(v))
    elif isinstance(v, str):
        b = v.encode("latin-1")
        out.append(b"B" + _I.pack(len(b)) + b)
    elif isinstance(v, bytes):
        out.append(b"B" + _I.pack(len(v)) + v)
    elif isinstance(v, (list, tuple)):
        out.append(b"L" + _I.pack(len(v)))
        for x in v:
            _enc(x, out)
    elif isinstance(v, dict):
        out.append(b"D" + _I.pack(len(v)))
        for k, x in v.items():
            _enc(k, out)
            _enc(x, out)
    elif isinstance(v, float):
        out.append(b"F" + _d.pack(v))
    else:
        raise HarnessError("cannot encode %r" % (v,))


def encode(v):
    out = []
    _enc(v, out)
    return b"".join(out)


def decode(b, p=0):
    t = b[p]
    p += 1
    if t == 78:
        return None, p
    if t == 73:
        return _q.unpack_from(b, p)[0], p + 8
    if t == 85:
        return _Q.unpack_from(b, p)[0], p + 8
    if t == 66:
        n = _I.unpack_from(b, p)[0]
        p += 4
        return b[p:p + n].decode("latin-1"), p + n
    if t == 70:
        return _d.unpack_from(b, p)[0], p + 8
    if t == 76:
        n = _I.unpack_from(b, p)[0]
        p += 4
        r = []
        for _ in range(n):
            x, p = decode(b, p)
            r.append(x)
        return r, p
    if t == 68:
        n = _I.unpack_from(b, p)[0]
        p += 4
        r = {}
        for _ in range(n):
            k, p = decode(b, p)
            x, p = decode(b, p)
            r[k] = x
        return r, p
    raise HarnessError("bad tag %r" % t)


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=77:quarantine_size_mb=8:hard_rss_limit_mb=6000:"
                    "malloc_context_size=12:handle_abort=1:max_malloc_fill_size=65536:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "G_DEBUG": "fatal-criticals", "LC_ALL": "C", "TZ": "UTC", "HOME": "/nonexistent", "PATH": "/usr/bin:/bin",
}
TIMEOUT = 60


def summarize_report(txt):
    """The first interesting line of a sanitizer / assertion report."""
    for l in txt.splitlines():
        for m in ("ERROR: AddressSanitizer", "runtime error:", "Assertion", "CRITICAL", "hard rss limit", "HARNESS-ERROR"):
            if m in l:
                l = l.strip()
                import re
                l = re.sub(r"0x[0-9a-f]+|==\d+==|\(pid=\d+\)|process:\d+", "", l)
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) \S*/src/(?:lib|python|satyr)\S*?/?([\w.]+:\d+)", txt)
                return l[:300] + ("; in " + " < ".join("%s (%s)" % x for x in fr[:3]) if fr else "")
    return (txt.strip().splitlines() or ["no diagnostics"])[-1][:300]


class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.count = 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=SAN_ENV,
                                  cwd="/", bufsize=0)
        self.count = 0

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _errtext(self):
        self.err.seek(0)
        return self.err.read(60000).decode("utf-8", "replace")

    def _read(self, n, deadline):
        fd = self.p.stdout.fileno()
        parts = []
        while n:
            left = deadline - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
            b = os.read(fd, min(n, 1 << 20))
            if not b:
                raise EOFError
            parts.append(b)
            n -= len(b)
        return b"".join(parts)

    def run(self, prog):
        if not self.p:
            self.start()
        self.count += 1
        b = encode(prog)
        deadline = time.time() + TIMEOUT
        try:
            data = memoryview(_I.pack(len(b)) + b)
            fd = self.p.stdin.fileno()
            while data:
                k = os.write(fd, data)
                data = data[k:]
            n = _I.unpack(self._read(4, deadline))[0]
            r = self._read(n, deadline)
        except TimeoutError:
            self.stop()
            raise Crash("call did not return within %d s" % TIMEOUT, "", "hang")
        except (EOFError, BrokenPipeError):
            self.p.wait()
            rc = self.p.returncode
            e = self._errtext()
            self.stop()
            if "HARNESS-ERROR" in e and "AddressSanitizer" not in e:
                raise HarnessError(e[-500:])
            raise Crash("library call crashed (%s): %s" % (rc, summarize_report(e)), e[:6000], "crash")
        v, _ = decode(r)
        return v[0], v[1]


# ------------------------------------------------------------------ contexts
class Ctx:
    """What a facet sees: the server, counters and failure reporting."""

    def __init__(self, env):
        self.env = env              # dict: server exe, tree dir, ...
        self.srv = Server(env["server"]) if env.get("server") else None
        self.stats = {}
        self.leakmode = False
        self.begin(None)

    def begin(self, key):
        self.key = hashlib.blake2b(digest_size=8)
        self.nt = False
        self.smp = None
        self.labels = []
        self.last_prog = None

    def run(self, prog):
        self.last_prog = prog
        self.key.update(repr(prog).encode("utf-8", "replace"))
        res, leak = self.srv.run(prog)
        if self.leakmode and leak > 0:
            l2 = self.srv.run(prog)[1]
            l3 = self.srv.run(prog)[1]
            if l2 > 0 and l3 > 0:
                if min(leak, l2, l3) >= 1 << 39:
                    raise Violation("%d files still open after everything was released" % ((min(leak, l2, l3) + (1 << 39)) >> 40))
                raise Violation("memory still allocated after everything was released: %d bytes" % min(l2, l3), "", )
        return res

    def one(self, *cmds):
        return self.run(list(cmds))[-1]

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def sample(self, s):
        self.smp = s

    def note(self, x):
        """adds to the identity of the case when it does not go through run()"""
        self.key.update(repr(x).encode("utf-8", "replace"))

    def fail(self, msg, detail=""):
        raise Violation(msg, detail)

    def check(self, cond, msg, detail=""):
        if not cond:
            raise Violation(msg, detail)

    def eq(self, actual, expected, what):
        if actual != expected:
            raise Violation("%s: got %s, expected %s" % (what, short(actual, expected), short(expected, actual)),
                            "got:      %r\nexpected: %r" % (actual, expected))


def short(a, b, depth=0):
    """A rendering of a that focuses on where it differs from b."""
    if isinstance(a, dict) and isinstance(b, dict) and depth < 6:
        ks = [k for k in list(a) + [k for k in b if k not in a] if a.get(k, "<absent>") != b.get(k, "<absent>")]
        return "{" + ", ".join("%s: %s" % (k, short(a[k], b.get(k), depth + 1) if k in a else "<absent>") for k in ks[:4]) + "}"
    if isinstance(a, list) and isinstance(b, list) and depth < 6:
        if len(a) != len(b):
            return "list of %d %s" % (len(a), repr(a)[:200])
        ix = [i for i in range(len(a)) if a[i] != b[i]]
        return "[" + ", ".join("#%d: %s" % (i, short(a[i], b[i], depth + 1)) for i in ix[:3]) + "]"
    if isinstance(a, str) and isinstance(b, str) and len(a) > 120:
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        return "...%r (at %d)" % (a[max(0, k - 30):k + 80], k)
    return repr(a)[:300]


class Facet:
    def __init__(self, name, fn, weight=1, needs=()):
        self.name, self.fn, self.weight = name, fn, weight


def facets_schedule(facets):
    """A repeating order of facets proportional to their weights."""
    sch = []
    for f in facets:
        sch += [f] * f.weight
    # spread deterministically
    random.Random(7).shuffle(sch)
    return sch


HISTORY = 150      # a server lives for this many cases


def run_case(facet, ctx, gen):
    """None, or the Violation. Discards count as trivial."""
    ctx.begin(facet.name)
    try:
        facet.fn(gen, ctx)
        return None
    except Discard:
        ctx.nt = False
        ctx.labels = ["discarded"]
        return None
    except Violation as v:
        return v
    except HarnessError as e:
        if "out of range" in str(e) or "empty register" in str(e):
            return Violation("an object that must exist does not: " + str(e).strip()[-200:])
        raise
    except (KeyError, IndexError, TypeError, ValueError, AttributeError):
        tb = traceback.format_exc()
        return Violation("the library's answer has an unexpected shape: " + tb.strip().splitlines()[-1], tb)


def case_rng(seed, pid, i):
    return random.Random(int.from_bytes(hashlib.blake2b(("%s|%s|%s" % (seed, pid, i)).encode(), digest_size=8).digest(), "little"))


def worker(w, nw, mod, env, seed, ncases, cap_end, q, stop):
    try:
        _worker(w, nw, mod, env, seed, ncases, cap_end, q, stop)
    except BaseException:
        q.put(("error", w, traceback.format_exc()))


def _worker(w, nw, mod, env, seed, ncases, cap_end, q, stop):
    ctx = mod.make_ctx(env) if hasattr(mod, "make_ctx") else Ctx(env)
    sch = facets_schedule(mod.FACETS)
    st = dict(evals=0, nontrivial=set(), labels={}, facets={}, samples=[], capped=False, done=0)
    hist = []
    for k, i in enumerate(range(w, ncases, nw)):
        if stop.is_set():
            break
        if time.time() > cap_end:
            st["capped"] = True
            break
        if ctx.srv and (len(hist) >= HISTORY or ctx.srv.p is None):
            ctx.srv.stop()
            hist = []
        f = sch[i % len(sch)]
        g = Gen(rng=case_rng(seed, mod.ID, i))
        v = run_case(f, ctx, g)
        hist.append((f.name, g.choices))
        st["evals"] += 1
        st["facets"][f.name] = st["facets"].get(f.name, 0) + 1
        for l in ctx.labels:
            kk = f.name + ":" + l
            st["labels"][kk] = st["labels"].get(kk, 0) + 1
        if v is not None:
            q.put(("fail", w, f.name, list(g.choices), hist[:], v.msg, v.detail))
            stop.set()
            break
        if ctx.nt:
            dg = ctx.key.digest()
            if dg not in st["nontrivial"]:
                st["nontrivial"].add(dg)
                if ctx.smp is not None and len(st["samples"]) < 3:
                    st["samples"].append({"facet": f.name, "case": str(ctx.smp)[:1200]})
    if ctx.srv:
        ctx.srv.stop()
    if hasattr(ctx, "close"):
        ctx.close()
    q.put(("done", w, st))


# ------------------------------------------------------------------ shrinking
def shrink(facet, mkctx, choices, budget_s, maxruns=4000):
    ctx = mkctx()
    end = time.time() + budget_s
    runs = [0]
    best = [None, None]

    def attempt(ch):
        if time.time() > end or runs[0] >= maxruns:
            return False
        runs[0] += 1
        g = Gen(choices=ch)
        if ctx.srv:                          # fresh state: cases must fail on their own
            if ctx.srv.count > 50:
                ctx.srv.stop()
        try:
            v = run_case(facet, ctx, g)
        except HarnessError:
            return False
        if v is None:
            return False
        c = list(g.choices)
        while c and c[-1] == 0:
            c.pop()
        if best[0] is None or (len(c), c) < (len(best[0]), best[0]):
            best[0], best[1] = c, v
            return True
        return False

    attempt(choices)
    if best[0] is None:
        if ctx.srv:
            ctx.srv.stop()
        return None
    improved = True
    while improved and time.time() < end and runs[0] < maxruns:
        improved = False
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0:
                c = best[0]
                if attempt(c[:i] + c[i + size:]):
                    improved = True
                    i = min(i, len(best[0])) - 1
                    continue
                if size <= 8 and any(c[i:i + size]) and attempt(c[:i] + [0] * size + c[i + size:]):
                    improved = True
                i -= max(1, size // 2)
        for i in range(len(best[0])):
            if i >= len(best[0]):
                break
            lo, hi = 0, best[0][i]
            while lo < hi and time.time() < end:
                m = (lo + hi) // 2
                c = best[0]
                if i >= len(c):
                    break
                if attempt(c[:i] + [m] + c[i + 1:]):
                    improved = True
                    hi = m
                else:
                    lo = m + 1
    if ctx.srv:
        ctx.srv.stop()
    if hasattr(ctx, "close"):
        ctx.close()
    return best


def replay_history(mod, mkctx, hist):
    """Runs the cases in one fresh server; the violation of the last one or None."""
    byname = {f.name: f for f in mod.FACETS}
    ctx = mkctx()
    v = None
    try:
        for n, (fn, ch) in enumerate(hist):
            v = run_case(byname[fn], ctx, Gen(choices=ch))
            if v is not None:
                break
    finally:
        if ctx.srv:
            ctx.srv.stop()
        if hasattr(ctx, "close"):
            ctx.close()
    return v


def again(n, deadline, fn):
    """fn up to n times (once when time is short) until one does not fail; the violations, or None."""
    out = []
    for _ in range(n):
        v = fn()
        if v is None:
            return None
        out.append(v)
        if time.time() > deadline:
            break
    return out


def handle_failure(mod, env, fail, shrink_s, deadline):
    """Replays (3x) and shrinks; returns a replay record or None when it does not reproduce."""
    global TIMEOUT
    TIMEOUT = 25
    _, w, fname, choices, hist, msg, detail = fail
    byname = {f.name: f for f in mod.FACETS}
    mkctx = lambda: (mod.make_ctx(env) if hasattr(mod, "make_ctx") else Ctx(env))
    rec = None
    alone = again(3, deadline, lambda: replay_history(mod, mkctx, [(fname, choices)]))
    if alone:
        b = shrink(byname[fname], mkctx, choices, shrink_s)
        if b and b[0] is not None:
            ok = again(3, deadline, lambda: replay_history(mod, mkctx, [(fname, b[0])]))
            if ok:
                rec = dict(history=[[fname, b[0]]], message=ok[0].msg, detail=ok[0].detail)
        if rec is None:
            rec = dict(history=[[fname, choices]], message=alone[0].msg, detail=alone[0].detail)
    else:
        full = again(2, deadline, lambda: replay_history(mod, mkctx, hist))
        if full:
            h = hist[:]
            end = min(time.time() + shrink_s, deadline)
            size = max(1, len(h) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i + size < len(h) and time.time() < end:
                    c = h[:i] + h[i + size:]
                    if replay_history(mod, mkctx, c) is not None:
                        h = c
                    else:
                        i += size
                size //= 2
            ok = full if len(h) == len(hist) else again(2, deadline, lambda: replay_history(mod, mkctx, h))
            if not ok:
                h, ok = hist, full
            rec = dict(history=[list(x) for x in h], message=ok[0].msg, detail=ok[0].detail)
    if rec is None:
        return None
    # render the failing case
    ctx = mkctx()
    try:
        for fn, ch in rec["history"] if time.time() < deadline else []:
            run_case(byname[fn], ctx, Gen(choices=ch))
        rec["program"] = repr(ctx.last_prog)[:20000]
    finally:
        if ctx.srv:
            ctx.srv.stop()
        if hasattr(ctx, "close"):
            ctx.close()
    return rec
