"""P34: core dumps unwind to the threads and frames that crashed."""
import json, os, struct
from ..core import Facet
from ..gen import *
from .. import corefile as cf, gdbtext, stacks as st
from . import p14

ID = "P34"
BUILD = ["server", "chain"]
CASES = (16000, 400000)
LIMIT = 256
RULE = ("Core files of one to five threads are written from scratch: each thread's stack is that of a generated chain of calls through functions with known frames (leaf and "
        "frame-pointer functions, functions whose last instruction is a call, signal trampolines, thread starts, __libc_start_main, calls into nothing, more than 256 calls) in a "
        "program and two libraries mapped at generated addresses. The trace must list exactly those calls with address, build id, offset, name and file. The same cores "
        "are also truncated, corrupted, unwound from a problem directory and with a debugger's transcript. Non-trivial: at least two frames, or a refusal.")
EXES = ["prog-exec", "prog-pie", "prog nobid"]


class CoreCtx(p14.DirCtx):
    def __init__(self, env):
        p14.DirCtx.__init__(self, env)
        d = env["chain"]
        self.progs = d
        self.elf = {n: cf.Elf(os.path.join(d, n)) for n in EXES + ["libchain.so.1", "lib b++.so", "hook", "hook pie"]}

    def save(self, data, name="core"):
        p = os.path.join(self.top, name)
        with open(p, "wb") as f:
            f.write(data)
        return p


def make_ctx(env):
    return CoreCtx(env)


def gen_modules(g, c):
    """[(Elf, base, link map name)], the program first."""
    e = c.elf[g.choice(EXES)]
    mods = [(e, 0 if e.type == 2 else 0x555555554000 + 4096 * g.draw(4096), "")]
    libs = [n for n in ("libchain.so.1", "lib b++.so") if g.bool(2, 3)]
    at = 0x7f1000000000 + 4096 * g.draw(1 << 20)
    for n in g.shuffle(libs):
        mods.append((c.elf[n], at, os.path.join(c.progs, n)))
        at += 0x100000 + 4096 * g.draw(64)
    return mods


def gen_core(g, c, deep=None):
    """core file, executable, mods, threads [(tid, frames)], signal"""
    mods = gen_modules(g, c)
    n = g.weighted([(4, 1), (3, 2), (2, 3), (1, 5)])
    threads, sigs = [], []
    segs = [x for m in mods for x in cf.mapped(m[0], m[1])]
    if g.bool():                       # as the kernel does: only the headers of what is in a file
        segs = [x if x[1] & 2 else [x[0], x[1], x[2][:4096]] for x in segs]
    segs.append(cf.link_map(mods))
    cf.set_debug(mods[0][0], mods[0][1], segs)
    tid = g.int(2, 4000000)
    addr = lambda f, m: mods[m][1] + mods[m][0].sym[f["name"]][0]
    if deep is None:
        deep = g.bool(1, 12)
    for i in range(n):
        t = cf.Thread(cf.STACK + i * 0x4000000 + 4096 * g.draw(100) + 16 * g.draw(250), tid)
        tid += g.int(1, 5)
        chain, end, jump = cf.gen_chain(g, len(mods), deep and g.bool(2, 3))
        frames, end = cf.run_chain(t, chain, end, jump, addr)
        if jump is not None:
            c.label("call to nothing")
        lo, image = t.image(lambda k: bytes([g.draw(256)]) * k)
        segs.append([lo, 6, image])
        threads.append((t, frames, end, chain))
        sigs.append(g.weighted([(2, 0), (2, 11), (1, 6), (1, g.draw(65))]) if i else g.weighted([(4, 11), (2, 6), (1, 0), (1, g.int(1, 64))]))
    other = lambda: cf.note(*g.choice([(b"CORE", 2, b"\0" * 512), (b"CORE", 0x53494749, b"\1" * 128), (b"LINUX", 0x202, b"\2" * 576), (b"CORE", 0x46494c45, b"\0" * 16),
                                       (b"XYZ", 1, b"\7" * 336), (b"GNU", 3, b"\3" * 20)]))
    notes = [cf.note(b"CORE", 1, cf.prstatus(t[0], s)) for t, s in zip(threads, sigs)]
    aux = cf.note(b"CORE", 6, cf.auxv(mods[0][0], mods[0][1]))
    info = cf.note(b"CORE", 3, cf.prpsinfo(threads[0][0].tid))
    if g.bool():
        notes[1:1] = [info, aux]
    else:
        notes[0:0] = [info]
        notes.append(aux)
    for _ in range(g.draw(4)):
        notes.insert(g.draw(len(notes) + 1), other())
    segs.sort(key=lambda s: s[0])
    data = cf.core(notes, segs, 0 if g.bool(2, 3) else g.draw(len(segs) + 1))
    want = [(t.tid, expected(mods, frames, end)) for t, frames, end, chain in threads]
    sig = next((s for s in sigs if s), 0)
    if any(len(w[1]) > LIMIT for w in want):
        c.label("more than %d frames" % LIMIT)
    for t, frames, end, chain in threads:
        c.label("end " + end)
        for x in {x[0]["kind"] for x in chain}:
            c.label("function " + x)
        if not chain[-1][3]:
            c.label("stopped at the entry")
    c.note([(t.tid, [(x[0]["name"], x[1], x[2], x[3]) for x in chain], end) for t, frames, end, chain in threads])
    return data, mods[0][0].path, mods, want, sig


def frame(mods, pc, f, m):
    e, base, name = mods[m]
    return dict(address=pc, build_id=e.build_id, build_id_offset=pc - base - e.start, function_name=f["shown"], file_name=os.path.realpath(e.path), fingerprint=None, fingerprint_hashed=1)


def expected(mods, frames, end):
    out = []
    for pc, f, m in frames:
        if f is None:
            out.append(nowhere(pc))
            continue
        if f["name"] == "__libc_start_main":
            return out
        out.append(frame(mods, pc, f, m))
    if end == "wild":
        out.append(nowhere(cf.WILD))
    return out


def nowhere(pc):
    return dict(address=pc, build_id=None, build_id_offset=pc, function_name=None, file_name=None, fingerprint=None, fingerprint_hashed=1)


def real(frames, exe):
    """The file of a frame may be named as the caller named it."""
    return [dict(f, file_name=os.path.realpath(exe)) if f["file_name"] == exe else f for f in frames]


def compare(c, got, exe, want, sig):
    c.eq(got["executable"], exe, "executable")
    c.eq(got["signal"], sig, "signal")
    c.eq([t["id"] for t in got["threads"]], [w[0] for w in want], "thread ids")
    for t, w in zip(got["threads"], want):
        c.eq(real(t["frames"], exe), w[1][-LIMIT:], "frames of thread %d" % w[0])
    c.eq(got["crash_thread"], 0, "crash thread")


def alias(g, c, exe):
    """Another way to the executable."""
    k = g.draw(6)
    if k == 0:
        link = os.path.join(c.top, "link to it")
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(exe, link)
        return link
    if k == 1:
        return os.path.dirname(exe) + "/../" + os.path.basename(os.path.dirname(exe)) + "//" + os.path.basename(exe)
    return exe


def unwind(g, c):
    data, exe, mods, want, sig = gen_core(g, c)
    p = c.save(data)
    exe = alias(g, c, exe)
    r = c.run([["core_parse_coredump", 0, p, exe], ["dump", 0]])
    c.check(r[0][0], "refused: %s" % r[0][1])
    compare(c, r[1], exe, want, sig)
    c.nontrivial(sum(len(w[1]) for w in want) >= 2)
    c.sample([len(w[1]) for w in want])


def from_dir(g, c):
    """A problem directory: core_backtrace holds the trace of coredump by executable."""
    data, exe, mods, want, sig = gen_core(g, c)
    files = {}
    case = g.weighted([(8, "ok"), (1, "no core"), (1, "no executable"), (1, "broken"), (1, "unwritable")])
    if case != "no executable":
        files["executable"] = exe
    if case == "unwritable":
        files["core_backtrace"] = p14.DIR
    elif g.bool():
        files["core_backtrace"] = "old\n" * g.draw(3000)
    d = c.write(files)
    if case != "no core":
        c.save(data[:g.draw(60)] if case == "broken" else data, "d/coredump")
    c.label(case)
    r = c.run([["core_from_dir", d]] + ([["core_parse_coredump", 0, d + "/coredump", exe], ["dump", 0], ["tojson", 0]] if case == "ok" else []))
    c.eq(r[0][0], int(case == "ok"), "success for %s" % case)
    c.eq(r[0][1] is not None, case != "ok", "message for %s" % case)
    if case == "ok":
        compare(c, r[2], exe, want, sig)
        with open(d + "/core_backtrace", "rb") as f:
            c.eq(f.read().decode("latin-1"), r[3] + "\n", "core_backtrace")
    elif case != "unwritable" and "core_backtrace" in files:
        with open(d + "/core_backtrace", "rb") as f:
            c.eq(f.read().decode("latin-1"), files["core_backtrace"], "core_backtrace after a failure")
    c.nontrivial(True)


def gdb_text(g, mods, want_threads):
    """Transcript of threads [(LWP id, [(address, function or None)])]; frames of trampolines are shown as a signal handler call."""
    tops = ["top%d" % i for i in range(len(want_threads))]
    crash = g.draw(len(tops)) if g.bool(3, 4) else None
    t = "[New LWP 5]\nCore was generated by `prog'.\n"
    if crash is not None:
        t += "#0  0x%016x in %s (a=1) at f.c:3\n3\tfoo\n" % (want_threads[crash][1][0][0] if want_threads[crash][1] else 0, tops[crash])
    order = list(range(len(tops)))
    if g.bool():
        order.reverse()
    for i in order:
        tid, frames = want_threads[i]
        t += "\nThread %d (Thread 0x7f%08x (LWP %d)):\n" % (i + 1, g.draw(1 << 32), tid)
        for k, (pc, f, m) in enumerate(frames):
            if f and f["kind"] == "sig":
                t += "#%d  <signal handler called>\n" % k
            else:
                name = tops[i] if k == 0 else f["shown"] if f and "(" not in f["shown"] and g.bool() else g.choice(["??", "other", "ns::g"])
                t += "#%d  0x%016x in %s (%s)%s\n" % (k, pc, name, g.choice(["", "x=1, y=0x0"]), g.choice(["", " from /lib64/libx.so", " at a/b.c:12"]))
                if g.bool(1, 8):
                    t += "        v = 3\n        s = 0x1 \"#1 0x5 in z ()\"\n"
    if crash is None and len(tops) == 1:
        crash = 0
    return t, order, None if crash is None else order.index(crash)


def by_gdb(g, c):
    data, exe, mods, want, sig = gen_core(g, c, deep=False)
    pick = lambda: cf.gen_chain(g, len(mods), g.bool(1, 8))
    addr = lambda f, m: mods[m][1] + mods[m][0].sym[f["name"]][0]
    ths = []
    for i in range(g.int(1, 4)):
        chain, end, jump = pick()
        fr, end = cf.run_chain(cf.Thread(cf.STACK, 1), chain, end, jump, addr)
        if end == "wild":
            fr.append((cf.WILD, None, 0))
        ths.append((g.int(1, 99999), fr))
    text, order, crash = gdb_text(g, mods, ths)
    p = c.save(data)
    if g.bool(1, 3):
        d = c.write({"executable": exe})
        os.rename(p, d + "/coredump")
        r = c.run([["core_from_dir_gdb", d, text]])
        c.check(r[0][0], "refused: %s" % r[0][1])
        with open(d + "/core_backtrace", "rb") as f:
            j = f.read().decode("latin-1")
        r = c.run([["core_from_gdb", 0, text, d + "/coredump", exe], ["tojson", 0]])
        c.eq(j, r[1] + "\n", "core_backtrace")
        c.label("problem directory")
        return
    exe = alias(g, c, exe)
    r = c.run([["core_from_gdb", 0, text, p, exe], ["dump", 0]])
    c.check(r[0][0], "refused: %s" % r[0][1])
    got = r[1]
    c.eq(got["executable"], os.path.realpath(exe), "executable")
    c.eq(got["signal"], sig, "signal")
    c.eq(len(got["threads"]), len(ths), "threads")
    for t, i in zip(got["threads"], order):
        w = [frame(mods, *x) if x[1] else nowhere(x[0]) for x in ths[i][1] if not x[1] or x[1]["kind"] != "sig"]
        c.eq(real(t["frames"], exe), w[-LIMIT:], "frames of thread %d" % (i + 1))
        if len(w) > LIMIT:
            c.label("more than %d frames" % LIMIT)
        if any(x[1] and x[1]["kind"] == "sig" for x in ths[i][1]):
            c.label("signal handler")
    c.eq(got["crash_thread"], crash, "crash thread")
    c.nontrivial(True)


def well_formed(c, got, exe):
    c.eq(got["executable"], exe, "executable")
    if got["threads"]:
        c.eq(got["crash_thread"], 0, "crash thread")
    for t in got["threads"]:
        c.check(len(t["frames"]) <= LIMIT, "thread %d has %d frames" % (t["id"], len(t["frames"])))


def loop(g, c):
    """A stack whose frames refer to themselves, so that the calls never end."""
    e = c.elf[g.choice(EXES)]
    base = 0 if e.type == 2 else 0x555555554000
    mods = [(e, base, "")]
    addr = lambda f, m: base + e.sym[f["name"]][0]
    plain = [f for f in cf.FUNCS if f["kind"] == "bp"]
    t = cf.Thread(cf.STACK, 5)
    ring = [g.choice(plain) for _ in range(g.int(1, 3))]
    cells = []
    for f in ring:
        t.push(addr(f, 0) + cf.ret(f))      # the caller is the function itself, each time
        t.push(0)
        t.rbp = t.rsp
        cells.append(t.rsp)
        t.rsp -= f["size"]
    for i, x in enumerate(cells):
        t.mem[x] = cells[i - 1]
        t.mem[x + 8] = addr(ring[i - 1], 0) + cf.ret(ring[i - 1])
    t.rip = addr(ring[-1], 0) + cf.body(ring[-1])
    segs = [x for m in mods for x in cf.mapped(m[0], m[1])]
    segs.append(cf.link_map(mods))
    cf.set_debug(e, base, segs)
    lo, image = t.image(lambda k: bytes(k))
    segs.append([lo, 6, image])
    segs.sort(key=lambda s: s[0])
    data = cf.core([cf.note(b"CORE", 3, cf.prpsinfo(5)), cf.note(b"CORE", 1, cf.prstatus(t, 11)), cf.note(b"CORE", 6, cf.auxv(e, base))], segs)
    c.note([f["name"] for f in ring])
    r = c.run([["core_parse_coredump", 0, c.save(data), e.path], ["dump", 0]])
    c.eq(r[0][0], int(r[0][1] is None), "message and result (%r)" % (r[0],))
    if r[0][0]:
        well_formed(c, r[1], e.path)
        known = [frame(mods, addr(f, 0) + cf.ret(f), f, 0) for f in ring]
        c.check(all(f in known for f in r[1]["threads"][0]["frames"]), "frames that are not on the stack")
        c.check(r[1]["threads"][0]["frames"], "no frames")
    c.nontrivial(True)


def damaged(g, c):
    """A core that is truncated, overwritten or not a core at all, or an executable that does not fit."""
    if g.draw(400) == 399:
        c.label("endless stack")
        return loop(g, c)
    data, exe, mods, want, sig = gen_core(g, c)
    k = g.weighted([(4, "truncated"), (4, "overwritten"), (2, "stack"), (1, "not ELF"), (1, "not a core"), (1, "missing"), (1, "no executable"), (1, "other executable"), (1, "directory")])
    if c.leakmode and k in ("truncated", "overwritten"):
        k = "not a core"               # libdw itself leaks when it fails in the middle of the threads
    c.label(k)
    must = None
    if k == "truncated":
        at = g.choice([g.draw(len(data)), g.draw(1400), g.draw(8192)])
        data = data[:at]
        if at < 64:
            must = "fail"
    elif k == "overwritten":
        b = bytearray(data)
        for _ in range(g.int(1, 6)):
            at = g.choice([g.draw(64), g.draw(1024), g.draw(4096), g.draw(len(b))])
            w = g.choice([1, 2, 4, 8])
            v = g.choice([0, 1, 0xff, (1 << 8 * w) - 1, g.uint(64), 1 << (8 * w - 1)]) & (1 << 8 * w) - 1
            b[at:at + w] = v.to_bytes(w, "little")
        data = bytes(b)
    elif k == "stack":
        # the contents of the stacks are lost: threads and the frames they stopped in are still known
        b = bytearray(data)
        e = cf.Elf.__new__(cf.Elf)
        phoff = 64
        n = struct.unpack_from("<H", b, 56)[0]
        for i in range(n):
            t, fl, off, va, pa, fs, ms, al = struct.unpack_from("<IIQQQQQQ", b, phoff + 56 * i)
            if t == 1 and va >= cf.STACK - 0x1000000:
                b[off:off + fs] = b"\0" * fs
        data = bytes(b)
    elif k == "not ELF":
        data = free(g, "", 200).encode("latin-1", "replace")
        must = "fail"
    elif k == "not a core":
        data = mods[g.draw(len(mods))][0].data
        must = "fail"
    p = c.save(data)
    if k == "missing":
        p = c.top + "/missing"
        must = "fail"
    elif k == "directory":
        p = c.top
        must = "fail"
    elif k == "no executable":
        exe = c.top + "/missing"
    elif k == "other executable":
        exe = c.elf[g.choice(EXES + ["lib b++.so"])].path if g.bool() else c.save(free(g, "", 100).encode("latin-1", "replace"), "exe")
    r = c.run([["core_parse_coredump", 0, p, exe], ["dump", 0]])
    c.eq(r[0][0], int(r[0][1] is None), "message and result (%r)" % (r[0],))
    if must:
        c.check(not r[0][0], "%s: accepted" % k)
    if r[0][0]:
        well_formed(c, r[1], exe)
        if k == "stack":
            c.eq([t["id"] for t in r[1]["threads"]], [w[0] for w in want], "thread ids")
            c.eq([t["frames"][:1] for t, w in zip(r[1]["threads"], want) if 0 < len(w[1]) <= LIMIT], [w[1][:1] for w in want if 0 < len(w[1]) <= LIMIT], "the frames the threads stopped in")
        c.label(k + " accepted")
    else:
        c.check(r[0][1], "empty message")
    c.nontrivial(True)


def hook(g, c):
    """A live process that exits while it is traced, as unwound by the core dump handler."""
    e = c.elf[g.choice(["hook", "hook pie"])]
    chain = []
    n = g.weighted([(6, g.draw(10)), (1, g.int(250, 260)), (1, g.int(260, 400))])
    usable = [f for f in cf.FUNCS if f["name"] != "_start" and f["size"] <= 1100]
    rare = lambda f: f["kind"] in ("start", "sig") or f["name"] == "__libc_start_main"
    while len(chain) < n:
        f = g.choice(usable)
        if rare(f) and not g.bool(1, 8):
            continue
        if f["kind"] == "sig" and (not chain or chain[-1]["kind"] not in ("sp", "bp")):
            continue
        chain.append(f)
    at = [(e.sym["hook_wait"][0] + e.sym["hook_wait"][1] - 2, "hook_wait")]
    for f in chain[::-1]:
        if f["name"] == "__libc_start_main":
            break
        at.append((e.sym[f["name"]][0] + cf.ret(f) + cf.HOOK_SHIFT, f["shown"]))
        if f["kind"] == "start":
            break
    else:
        at.append((e.sym["_start"][0] + cf.HOOK_START, "_start"))
    how = g.choice(["", "once"]) + g.choice(["", " abrt"])
    if g.bool(1, 10):
        how = g.choice(["once nobody", "once nobody abrt", "gone", "gone abrt"])
    sig = g.weighted([(4, 11), (1, 0), (1, -1), (1, g.int(1, 64))])
    exe = g.choice([e.path, "/usr/bin/x", None])
    pid, j, err = c.run([["core_hook", e.path, "".join(chr(65 + f["k"]) for f in chain), how, sig, exe]])[0]
    if err and "Operation not permitted" in err:
        c.label("tracing is not permitted here")
        return
    c.label(how)
    c.eq(j is None, err is not None, "result without message or the reverse (%r, %r)" % (err, j))
    if "nobody" in how or "gone" in how:
        c.check(err, "unwound a process that is gone: %r" % j)
        c.nontrivial(True)
        return
    c.check(j is not None, "refused: %s" % err)
    c.eq(j.endswith("\n"), "abrt" in how, "newline at the end")
    d = json.loads(j)
    c.eq(d.get("executable"), exe, "executable")
    c.eq(d.get("signal"), max(sig, 0), "signal")
    c.eq(d.get("only_crash_thread"), True, "only_crash_thread")
    c.eq(len(d["stacktrace"]), 1, "threads")
    c.eq(d["stacktrace"][0].get("crash_thread"), True, "crash thread")
    got = d["stacktrace"][0].get("frames", [])
    base = 0 if e.type == 2 else got[0]["address"] - at[-LIMIT:][0][0]
    c.eq(base % 4096, 0, "base %x" % base)
    want = [dict(address=a + base, build_id=e.build_id, build_id_offset=a - e.start, function_name=f, file_name=os.path.realpath(e.path)) for a, f in at[-LIMIT:]]
    c.eq(got, want, "frames")
    c.label("more than %d frames" % LIMIT if len(at) > LIMIT else "short")
    c.nontrivial(True)


FACETS = [Facet("unwind", unwind, 5), Facet("from_dir", from_dir), Facet("by_gdb", by_gdb, 2), Facet("damaged", damaged, 3), Facet("hook", hook)]
