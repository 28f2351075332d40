"""Programs with known functions, and core dumps of threads that execute known chains of calls in them."""
import os, struct, subprocess
from .gen import *

# name, printed name, kind, local size
FUNCS = []


def _add(name, shown, kind, size):
    FUNCS.append(dict(name=name, shown=shown, kind=kind, size=size, k=len(FUNCS)))


_add("_start", "_start", "start", 32)
_add("__libc_start_main", "__libc_start_main", "sp", 136)
_add("main", "main", "bp", 48)
_add("thread_start", "thread_start", "start", 64)
for _i, (_n, _s) in enumerate([("foo", "foo"), ("_Z3barv", "bar()"), ("_ZN2ns5Class6methodEiPKc", "ns::Class::method(int, char const*)"), ("qsort_r", "qsort_r"), ("raise", "raise"),
                               ("abort", "abort"), ("_ZNSt6vectorIiSaIiEE9push_backERKi", "std::vector<int, std::allocator<int> >::push_back(int const&)"),
                               ("f.constprop.0", "f.constprop.0"), ("_Z4tmplIiET_S0_", "int tmpl<int>(int)"), ("_Znotmangled", "_Znotmangled"), ("__libc_start_main_impl", "__libc_start_main_impl"),
                               ("x", "x"), ("_ZN1A1BD1Ev", "A::B::~B()"), ("g_assertion_message_expr", "g_assertion_message_expr")]):
    _add(_n, _s, "sp" if _i % 3 else "bp", [8, 24, 200, 1032][_i % 4])
for _i, _n in enumerate(["__restore_rt", "sigtramp"]):
    _add(_n, _n, "sig", [160, 600][_i])
for _i, _n in enumerate(["die", "_Z5throwv", "exit_now"]):        # the call is the last instruction
    _add(_n, {"_Z5throwv": "throw()"}.get(_n, _n), "noret_sp" if _i != 1 else "noret_bp", [8, 40, 4096][_i])
NAMES = {f["name"]: f for f in FUNCS}
ORDER = list(range(len(FUNCS)))


# the instructions between the body and the call
NEXT = ["nop", "nop"]
HOOK_NEXT = ["nop", "nop", "add $8, %r12", ".byte 0x49, 0x8b, 0x04, 0x24"]
HOOK_SHIFT = 8
HOOK_START = 7 + 5 + 4 + 2          # offset after the call in _start of the program "hook"
HOOK = """
.balign 16
parse: .cfi_startproc
mov 56(%rsp), %rsi
lea buffer(%rip), %rdi
lea -8(%rdi), %r12
lea table(%rip), %rdx
1: movzbl (%rsi), %ecx
test %ecx, %ecx
jz 2f
sub $65, %ecx
movslq (%rdx,%rcx,4), %rax
add %rdx, %rax
mov %rax, (%rdi)
add $8, %rdi
inc %rsi
jmp 1b
2: lea hook_wait(%rip), %rax
mov %rax, (%rdi)
add $8, %r12
ret
.cfi_endproc
.size parse, . - parse
.type parse, @function
.balign 16
.type hook_wait, @function
.globl hook_wait
hook_wait: .cfi_startproc
sub $24, %rsp
.cfi_adjust_cfa_offset 24
mov $1, %eax
mov $4, %edi
mov %rsp, %rsi
mov $1, %edx
syscall
mov $0, %eax
mov $3, %edi
mov %rsp, %rsi
mov $1, %edx
syscall
mov $231, %eax
mov $7, %edi
syscall
ud2
.cfi_endproc
.size hook_wait, . - hook_wait
.section .rodata
.balign 4
table:
"""


def assembly(hook=False):
    out = [".text"]
    noret = [f for f in FUNCS if f["kind"].startswith("noret")]
    rest = [f for f in FUNCS if not f["kind"].startswith("noret")]
    order = []
    for i, f in enumerate(rest):
        order.append((f, True))
        if i % 4 == 1 and noret:
            order[-1:] = [(noret.pop(), True), (f, False)]     # f follows without a gap
    for f in noret:
        order += [(f, True)]
    out_end = []
    for f, align in order:
        n = f["name"]
        if align:
            out.append(".balign 16, 0x90")
        if f["k"] % 2 == 0 or f["kind"] == "start":
            out.append('.globl "%s"' % n)
        out += ['.type "%s", @function' % n, '"%s":' % n, ".cfi_startproc"]
        if f["kind"] == "sig":
            out.append(".cfi_signal_frame")
        if f["kind"] == "start":
            out.append(".cfi_undefined rip")
        if f["kind"].endswith("bp"):
            out += ["push %rbp", ".cfi_def_cfa_offset 16", ".cfi_offset rbp, -16", "mov %rsp, %rbp", ".cfi_def_cfa_register rbp"]
        out.append(".byte 0x48, 0x81, 0xec; .long %d" % f["size"])       # sub $size, %rsp
        if not f["kind"].endswith("bp"):
            out.append(".cfi_adjust_cfa_offset %d" % f["size"])
        if hook and n == "_start":
            out += ["call parse", ".byte 0x49, 0x8b, 0x04, 0x24", "call *%rax"]
        else:
            out += (HOOK_NEXT if hook else NEXT) + ["call *%rax"]
        if not f["kind"].startswith("noret"):
            out += ["nop", "nop"]
            if f["kind"].endswith("bp"):
                out += ["leave", ".cfi_def_cfa rsp, 8"]
            else:
                out += [".byte 0x48, 0x81, 0xc4; .long %d" % f["size"], ".cfi_adjust_cfa_offset -%d" % f["size"]]
            out.append("ret")
        out += [".cfi_endproc", '.size "%s", . - "%s"' % (n, n)]
        if f["kind"].startswith("noret"):
            out_end.append(n)
    out.append('.balign 16; .type trailer, @function; trailer: .cfi_startproc; ret; .cfi_endproc; .size trailer, . - trailer')
    if hook:
        out.append(HOOK)
        out += ['.long "%s" - table' % f["name"] for f in FUNCS]
        out.append(".bss\n.balign 8\nbuffer: .zero 65536")
    out.append('.section .note.GNU-stack,"",@progbits')
    return "\n".join(out) + "\n"


def build(d):
    """Writes the programs into directory d."""
    os.makedirs(d, exist_ok=True)
    s = os.path.join(d, "chain.S")
    with open(s, "w") as f:
        f.write(assembly())
    h = os.path.join(d, "hook.S")
    with open(h, "w") as f:
        f.write(assembly(True))
    for o, a in (("hook", ["-no-pie"]), ("hook pie", ["-static-pie"])):
        subprocess.check_call(["gcc", "-nostdlib", "-nostartfiles", "-static", h, "-Wl,--build-id=sha1", "-o", os.path.join(d, o)] + a)
    base = ["gcc", "-nostdlib", "-nostartfiles", "-Wl,-z,noseparate-code", s]
    run = lambda out, *a: subprocess.check_call(base + list(a) + ["-o", os.path.join(d, out)])
    lib = os.path.join(d, "libchain.so.1")
    run("libchain.so.1", "-shared", "-fPIC", "-Wl,-soname,libchain.so.1", "-Wl,--build-id=sha1")
    run("lib b++.so", "-shared", "-fPIC", "-Wl,-soname,libb.so", "-Wl,--build-id=md5")
    link = ["-Wl,--no-as-needed", lib]
    run("prog-pie", "-pie", "-fPIC", "-Wl,--build-id=sha1", *link)
    run("prog-exec", "-no-pie", "-Wl,--build-id=md5", *link)
    run("prog nobid", "-no-pie", "-Wl,--build-id=none", *link)


class Elf:
    def __init__(self, path):
        self.path = path
        self.data = b = open(path, "rb").read()
        self.type = struct.unpack_from("<H", b, 16)[0]
        phoff, shoff = struct.unpack_from("<QQ", b, 32)
        phn, shes, shn, shx = struct.unpack_from("<HHHH", b, 56)
        self.ph = [struct.unpack_from("<IIQQQQQQ", b, phoff + 56 * i) for i in range(phn)]
        sh = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + 64 * i) for i in range(shn)]
        self.build_id = None
        self.sym = {}
        for s in sh:
            if s[1] == 2:
                st = sh[s[6]]
                for o in range(s[4], s[4] + s[5], 24):
                    nm, info, other, shndx, val, size = struct.unpack_from("<IBBHQQ", b, o)
                    e = b.index(b"\0", st[4] + nm)
                    self.sym[b[st[4] + nm:e].decode()] = (val, size)
            if s[1] == 7:
                ns, ds, t = struct.unpack_from("<III", b, s[4])
                if t == 3:
                    o = s[4] + 12 + (ns + 3) // 4 * 4
                    self.build_id = b[o:o + ds].hex()
        self.loads = [p for p in self.ph if p[0] == 1]
        self.dynamic = next((p for p in self.ph if p[0] == 2), None)
        self.entry, self.phoff = struct.unpack_from("<QQ", b, 24)
        self.start = min(p[3] for p in self.loads) & ~4095


CODE = {"sp": (0, 7), "start": (0, 7), "sig": (0, 7), "noret_sp": (0, 7), "bp": (0, 11), "noret_bp": (0, 11)}


def body(f):
    """Offset of the body (after the prologue)."""
    return CODE[f["kind"]][1]


def ret(f):
    """Offset after the call."""
    return body(f) + 4


STACK = 0x7ffc00000000


class Thread:
    """A stack that grows down from top."""

    def __init__(self, top, tid):
        self.top, self.tid = top, tid
        self.mem = {}
        self.rsp, self.rbp = top, 0x1234
        self.rip = None

    def push(self, v):
        self.rsp -= 8
        self.mem[self.rsp] = v

    def enter(self, f):
        """Runs the prologue."""
        if f["kind"].endswith("bp"):
            self.push(self.rbp)
            self.rbp = self.rsp
        self.rsp -= f["size"]

    def image(self, fill):
        lo = self.rsp & ~4095
        hi = (self.top + 4096) & ~4095
        b = bytearray(fill(hi - lo))
        for a, v in self.mem.items():
            struct.pack_into("<Q", b, a - lo, v & ((1 << 64) - 1))
        return lo, bytes(b)


def prstatus(t, sig):
    b = bytearray(336)
    struct.pack_into("<iii", b, 0, sig, 0, 0)
    struct.pack_into("<h", b, 12, sig)
    struct.pack_into("<iiii", b, 32, t.tid, 1, t.tid, 1)
    regs = [0x1500 + i for i in range(27)]
    regs[4], regs[16], regs[19], regs[17], regs[20], regs[18] = t.rbp, t.rip, t.rsp, 0x33, 0x2b, 0x202
    struct.pack_into("<27Q", b, 112, *regs)
    return bytes(b)


def prpsinfo(pid):
    b = bytearray(136)
    struct.pack_into("<iiii", b, 24, pid, 1, pid, pid)
    b[40:44] = b"prog"
    return bytes(b)


def note(name, typ, desc):
    pad = lambda x: x + b"\0" * (-len(x) % 4)
    n = name + b"\0"
    return struct.pack("<III", len(n), len(desc), typ) + pad(n) + pad(desc)


def core(notes, segs, at=0):
    """segs: (address, flags, bytes) or (address, flags, None, size) for memory that was not written; at: where the notes are among the headers"""
    nt = b"".join(notes)
    n = 1 + len(segs)
    off = 64 + 56 * n
    ph = [struct.pack("<IIQQQQQQ", 4, 0, off, 0, 0, len(nt), 0, 4)]
    data = [nt]
    pos = off + len(nt)
    for a, fl, b, *sz in segs:
        if b is None:
            ph.append(struct.pack("<IIQQQQQQ", 1, fl, pos, a, 0, 0, sz[0], 4096))
            continue
        pad = -pos % 4096
        data.append(b"\0" * pad)
        pos += pad
        ph.append(struct.pack("<IIQQQQQQ", 1, fl, pos, a, 0, len(b), (len(b) + 4095) & ~4095, 4096))
        data.append(b)
        pos += len(b)
    ph.insert(at, ph.pop(0))
    eh = b"\x7fELF\x02\x01\x01" + b"\0" * 9 + struct.pack("<HHIQQQIHHHHHH", 4, 62, 1, 0, 64, 0, 0, 64, 56, n, 64, 0, 0)
    return eh + b"".join(ph) + b"".join(data)


def mapped(elf, base):
    """Writable copies of the segments of the program mapped at base (0: as linked): [address, flags, bytes]."""
    out = []
    for p in elf.loads:
        lo = p[3] & ~4095
        off = p[2] - (p[3] - lo)
        b = elf.data[off:p[2] + p[5]]
        b += b"\0" * (-len(b) % 4096)
        out.append([base + lo, p[1], bytearray(b)])
    return out


def auxv(elf, base):
    l = [(3, base + elf.start + elf.phoff), (4, 56), (5, len(elf.ph)), (6, 4096), (7, 0), (9, base + elf.entry), (0, 0)]
    return b"".join(struct.pack("<QQ", *x) for x in l)


DEBUG = 0x7f0000001000


def link_map(mods):
    """Segment with r_debug and the link map of [(elf, base, name)], the program first."""
    b = bytearray(8192)
    struct.pack_into("<iiQQiiQ", b, 0, 1, 0, DEBUG + 64, 0, 0, 0, 0)
    so = 2048
    for i, (e, base, name) in enumerate(mods):
        nb = name.encode() + b"\0"
        b[so:so + len(nb)] = nb
        struct.pack_into("<QQQQQ", b, 64 + 40 * i, base, DEBUG + so, base + e.dynamic[3], DEBUG + 64 + 40 * (i + 1) if i + 1 < len(mods) else 0,
                         DEBUG + 64 + 40 * (i - 1) if i else 0)
        so += len(nb)
    return [DEBUG, 6, b]


def set_debug(elf, base, segs):
    """Points DT_DEBUG of the mapped program to r_debug."""
    d = elf.dynamic
    for o in range(0, d[5], 16):
        for a, b in [(x[0], x[2]) for x in segs if x[2]]:
            x = base + d[3] + o - a
            if 0 <= x < len(b) and struct.unpack_from("<Q", b, x)[0] == 21:
                struct.pack_into("<Q", b, x + 8, DEBUG)


def gen_chain(g, nmods, deep=False):
    """Calls from the outermost to the innermost: (function, module, offset, entered); the offset of the innermost or interrupted ones is where they stopped,
    None for callers. How the stack ends: clean, zero or wild (a caller outside of every module). And the address outside of every module that the innermost
    function called, if any."""
    plain = [f for f in FUNCS if f["kind"] in ("sp", "bp") and f["name"] != "__libc_start_main"]
    noret = [f for f in FUNCS if f["kind"].startswith("noret")]
    sig = [f for f in FUNCS if f["kind"] == "sig"]
    start = [f for f in FUNCS if f["kind"] == "start"]
    mod = lambda: g.draw(nmods)
    out = []
    end = g.weighted([(5, "clean"), (1, "zero"), (1, "wild")])
    if end == "clean":
        out.append((g.choice(start), mod()))
    if g.bool(1, 3):
        out.append((NAMES["__libc_start_main"], mod()))
        if g.bool(1, 2):
            out.append((NAMES["main"], 0))
    if deep:
        n = g.weighted([(2, g.int(250, 262)), (1, g.int(256, 257)), (1, g.int(300, 600))])
        block = [(g.choice([f for f in plain if f["size"] <= 200]), mod()) for _ in range(g.size(4, 1))]
        while len(out) < n:
            out += block
            if g.bool(1, 40):
                out.append((g.choice(noret), mod()))
            if g.bool(1, 60):
                out.append((g.choice(sig), mod()))
        out = out[:n]
    else:
        for _ in range(g.size(8, 0)):
            k = g.weighted([(12, plain), (3, noret), (1, sig if out else plain), (1, [NAMES["__libc_start_main"]] if g.bool(1, 4) else plain)])
            out.append((g.choice(k), mod()))
    if not out:
        out.append((g.choice(plain), mod()))
    if out[-1][0]["kind"] == "sig":
        out.append((g.choice(plain), mod()))
    while True:                        # a signal handler is a plain function
        bad = [i for i in range(1, len(out)) if out[i][0]["kind"] == out[i - 1][0]["kind"] == "sig"]
        if not bad:
            break
        out.insert(bad[0], (g.choice(plain), mod()))
    res = []
    jump = g.weighted([(8, None), (1, WILD + 8), (1, 0)])
    for i, (f, m) in enumerate(out):
        if jump is not None and i + 1 == len(out) or i + 1 < len(out) and out[i + 1][0]["kind"] != "sig":
            res.append((f, m, None, True))
        else:
            stops = [(body(f), True), (body(f) + 1, True), (0, False)]
            if f["kind"] in ("sp", "bp"):
                stops.append((ret(f), True))
            if f["kind"] == "sp":
                stops.append((ret(f) + 9, False))
            if f["kind"] in ("bp", "noret_bp"):
                stops += [(1, 1), (4, 2)]
            if f["kind"] == "sig":
                stops = stops[:2]
            res.append((f, m) + g.choice(stops))
    return res, end, jump


WILD = 0x6666666000


def run_chain(t, chain, end, jump, addr):
    """Executes the calls on the thread; addr(function, module) is the start of a function. Returns [(address, function, module)] from the innermost. When the
    innermost function jumps into nothing, the callers known are those of the last function that keeps a frame pointer."""
    frames = []
    kept = None
    if end == "zero":
        t.push(0)
    elif end == "wild":
        t.push(WILD)
    else:
        t.push(0x4141414141414141)
    prev = None
    for i, (f, m, off, entered) in enumerate(chain):
        a = addr(f, m)
        if entered is True:
            t.enter(f)
        elif entered:
            t.push(t.rbp)
            if entered == 2:
                t.rbp = t.rsp
        pc = a + (ret(f) if off is None else off)
        if f["kind"] == "sig" and off is None:
            pc = a + ret(f)
        frames.append((pc, f, m))
        if f["kind"].endswith("bp") and (entered is True or entered == 2):
            kept = i
        if i + 1 < len(chain) or jump is not None:
            t.push(pc)
    t.rip = frames[-1][0]
    if jump is not None:
        t.rip = jump
        if kept == 0 and end == "zero":
            frames = [(0, None, 0)]
        else:
            frames = frames[:kept or 0]
        frames.append((jump, None, 0))
        if kept is None:
            end = "zero"
    return frames[::-1], end
