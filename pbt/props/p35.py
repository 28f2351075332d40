"""P35: the tables of an ELF file are read as they are."""
import json, os, struct, zlib
from ..core import Facet
from ..gen import *
from .. import corefile as cf, elffile as ef
from . import p34

ID = "P35"
BUILD = ["server", "chain"]
CASES = (240000, 3000000)
RULE = ("ELF files (64 and 32 bit) are written from scratch: linked at generated addresses, with one executable segment or separate read-only and executable ones, sections in any "
        "order. Call frame sections have one or more CIEs (augmentations, pointer encodings and sizes, 32 and 64 bit lengths) and FDEs of generated functions; procedure linkage "
        "tables have slots that refer to relocations in any order. The functions and slots listed must be exactly those written, the queries must answer as a scan of the list "
        "does, and linked programs must agree with their symbol tables. Files with what the reader does not know, missing tables and damaged files must be refused or read "
        "without a crash. Non-trivial: at least two entries, or a refusal.")


def make_ctx(env):
    return p34.CoreCtx(env)


R, W, X = 4, 2, 1
BASES = [0, 0x400000, 0x8048000, 0x10000, 0x3463e00000, 0x7f0000000000]


def gen_layout(g, bits, eh_len):
    """base, loads, address and offset of .eh_frame, range of function addresses"""
    base = g.choice(BASES if bits == 64 else BASES[:4])
    eh_len += 64
    style = g.choice(["one", "separate", "shifted", "data first"])
    if style == "one":
        loads = [(base, 0, 0x10000, R | X), (base + 0x210000, 0x10000, 0x1000, R | W)]
        off = 0x9000
        addr = base + off
        code = (base + 0x1000, base + 0x9000)
    elif style == "separate":
        loads = [(base, 0, 0x1000, R), (base + 0x1000, 0x1000, 0x5000, R | X), (base + 0x6000, 0x6000, 0x3000, R), (base + 0xa000, 0x9000, 0x1000, R | W)]
        off = 0x6100 + 8 * g.draw(32)
        addr = base + off
        code = (base + 0x1000, base + 0x6000)
    elif style == "shifted":       # addresses and offsets grow apart
        loads = [(base, 0, 0x2000, R), (base + 0x3000, 0x2000, 0x5000, R | X), (base + 0x9000, 0x7000, 0x1000, R | W)]
        off = 0x400 + 8 * g.draw(32)
        addr = base + off
        code = (base + 0x3000, base + 0x8000)
        if g.bool():
            off = 0x7000 + 8 * g.draw(32)
            addr = base + 0x9000 + off - 0x7000
    else:
        loads = [(base, 0, 0x1000, R | W), (base + 0x4000, 0x1000, 0x6000, R | X)]
        off = 0x2000
        addr = base + 0x5000
        code = (base + 0x4000, base + 0xa000)
    others = [(base, 0x40, 0x100, R, t) for t in g.sample([6, 2, 3, 0x6474e550, 0x6474e551], g.draw(3))] if base or g.bool() else []
    if g.bool(1, 6):
        others.append((0, 0, 0, R | W | X, 0x6474e551))
    loads = others + loads if g.bool() else loads + others
    return style, base, loads, addr, off, code


SIZES = {0: None, 2: 2, 3: 4, 4: 8, 10: 2, 11: 4, 12: 8}


def gen_cie(g, bits, near, ok=True):
    """augmentation, augmentation data, encoding, size of a pointer, accepted"""
    word = bits // 8
    size = lambda e: word if e & 15 == 0 else SIZES.get(e & 15)
    letters = g.weighted([(2, ""), (2, "z"), (8, "zR"), (3, "zPLR"), (2, "zLR"), (2, "zPR"), (1, "zLPR"), (2, "zRS"), (1, "zRB"), (1, "zP"), (1, "zL"), (1, "zRX")])
    if not ok:
        letters = g.choice(["zR", "zPLR", "zSR", "zXR", "eh", "zGR", "zP", "z\x01R"])
    data, enc, bad = b"", 0, False
    seen = False
    for ch in letters[1:] if letters[:1] == "z" else letters:
        if ch == "P":
            e = g.choice([0, 0x03, 0x1b, 0x9b, 0x0b, 0x04, 0x9c, 0x02])
            if not ok and g.bool():
                e = g.choice([1, 9, 0x11, 0xff, 7])
                bad |= not seen
            n = size(e) or 1
            data += bytes([e]) + bytes(g.draw(256) for _ in range(n))
        elif ch == "L":
            data += bytes([g.choice([0, 0x1b, 0x03, 0xff, 0x9b])])
        elif ch == "R":
            enc = g.choice([0, 0x03, 0x04, 0x0b, 0x0c, 0x10, 0x1b, 0x1b, 0x1b, 0x13, 0x14, 0x1c])
            if not ok and not bad:
                enc = g.choice([2, 0x0a, 1, 9, 0x12, 0x1a, 0x11, 0xff])
                bad = True
            data += bytes([enc])
            seen = True
        elif not seen:
            bad = True
    if bad:
        return letters, data, enc, word, False
    n = size(enc) or word
    if not near and n == 4 and enc & 0x70 == 0:            # such a function has an address of eight bytes
        return gen_cie(g, bits, near, ok)
    return letters, data, enc, n, True


def gen_eh(g, c, addr, bits, code, refuse=False):
    """section, functions [(start, length)] or None"""
    eh = ef.EhFrame(addr, bits)
    near = code[1] < 1 << 31
    cies, funcs = [], []
    bad = False
    n = g.size(24)
    for i in range(n):
        if not cies or g.bool(1, 4):
            ok = not (refuse and g.bool(1, 4))
            letters, data, enc, size, acc = gen_cie(g, bits, near, ok)
            wide = g.bool(1, 8)
            c.label("augmentation " + (letters if acc else "refused"))
            cies.append((eh.cie(letters.encode("latin-1"), data, g.choice([1, 1, 3]), wide), enc, size, letters))
            if acc and letters[:1] in "z" and "R" in letters:
                c.label("encoding %#x" % enc)
            bad |= not acc
            at, enc, size, letters = cies[-1]        # every CIE is used: unused ones that libdw does not know may be passed over
        else:
            at, enc, size, letters = g.choice(cies)
        start = g.int(code[0], code[1] - 1)
        if funcs and g.bool(1, 4):
            start = min(funcs[-1][0] + funcs[-1][1], code[1] - 1)       # right behind the last
        length = g.weighted([(8, g.int(1, 300)), (1, 0), (1, g.draw(0x8000))])
        if size == 8 and g.bool(1, 8):
            length = g.choice([1 << 32, (1 << 32) + 5, (1 << 63) - 1, 0xffffffff, g.uint(62)])
        aug = None
        if letters[:1] == "z":
            aug = bytes(g.draw(256) for _ in range(4)) if "L" in letters else b""
        if g.bool(1, 10):
            c.label("64 bit length")
            eh.fde(at, enc, size, start, length, aug, True)
        else:
            eh.fde(at, enc, size, start, length, aug)
        funcs.append((start, length))
    if g.bool(2, 3):
        eh.out += b"\0\0\0\0"
        if g.bool(1, 4):             # what follows the end is not read
            c.label("behind the end")
            if cies and g.bool():
                eh.fde(cies[0][0], cies[0][1], cies[0][2], code[0], 77)
            else:
                eh.out += bytes(g.draw(256) for _ in range(g.size(40, 1)))
    return bytes(eh.out), None if bad else funcs


def other_sections(g, code):
    names = [b".text", b".init", b".plt.got", b".plt.sec", b".got.plt", b".eh_frame_hdr", b".rodata", b".gcc_except_table", b".plt2", b".eh_frame_", b"", b".comment"]
    return [ef.Sec(n, g.choice([1, 1, 7]), bytes(g.draw(256) for _ in range(g.size(40))), code[0], flags=g.choice([0, 2, 6])) for n in g.sample(names, g.size(6))]


def queries(g, funcs, base):
    out = {0, base, ef.M64}
    for s, n in g.sample(funcs, min(6, len(funcs))):
        for a in (s, s + n, s + n - 1, s - 1, s + n // 2):
            out |= {a, max(a - base, 0)}
    return sorted(x for x in out if x >= 0)


def check_fde(g, c, path, funcs, base):
    q = queries(g, funcs, base)
    got, found, all_, first, msg = c.one(["elf_fde", path, q])
    want = [(base, s - base, n) for s, n in funcs]
    c.eq(msg, None, "message")
    c.eq([((b + s) & ef.M64, n) for b, s, n in got], funcs, "functions (start, length)")
    c.eq([tuple(x) for x in got], want, "base and offset of the functions")
    for k, a in enumerate(q):
        off = next((i for i, (b, s, n) in enumerate(want) if s <= a < s + n), -1)
        ad = next((i for i, (b, s, n) in enumerate(want) if b + s <= a < b + s + n), -1)
        st = next((i for i, (b, s, n) in enumerate(want) if b + s == a), -1)
        c.eq(found[k], [off, ad, st], "function at offset, at address, starting at %#x" % a)
    if funcs:
        js = [{"start_address": s, "length": n} for b, s, n in want]
        c.eq(json.loads(all_), js, "functions in JSON")
        c.eq(json.loads(first), js[0], "the first in JSON")
    if len(funcs) > 1:
        c.nontrivial()


def eh_file(g, c, refuse=False):
    bits = 64 if g.bool(5, 6) else 32
    style, base, loads, addr, off, code = gen_layout(g, bits, 4000)
    c.label("layout " + style)
    c.label("%d bits" % bits)
    data, funcs = gen_eh(g, c, addr, bits, code, refuse)
    sec = ef.Sec(b".eh_frame", g.choice([1, 1, 0x70000001]), data, addr)
    sec.off = off
    secs = g.shuffle(other_sections(g, code) + [sec])
    return secs, sec, loads, bits, funcs, base


def facet_fde(g, c):
    """Every function of the call frame section is listed, in order, with its address and length"""
    secs, sec, loads, bits, funcs, base = eh_file(g, c)
    path = c.save(ef.write(secs, loads, bits, g.choice([2, 3]), gap=g.draw(32)), "elf")
    c.note([(hex(s), n) for s, n in funcs])
    check_fde(g, c, path, funcs, base)


def facet_fde_refused(g, c):
    """What the reader does not know is refused as a whole, with a message"""
    why = g.weighted([(5, "cie"), (1, "section"), (1, "exec"), (2, "dangling"), (1, "no data")])
    secs, sec, loads, bits, funcs, base = eh_file(g, c, why == "cie")
    if why == "section":
        secs.remove(sec)
        funcs = None
    elif why == "exec":
        loads = [(*l[:3], l[3] & ~X, *l[4:]) if len(l) == 4 or g.bool() else l for l in loads]
        funcs = None
    elif why == "dangling":
        if len(sec.data) < 16 or funcs is None:
            why = "none"
        else:
            eh = ef.EhFrame(sec.addr, bits)
            eh.cie(b"zR", b"\x1b")
            # refers to the middle of the CIE
            eh.fde(4, 0x1b, 4, sec.addr + 64, 12, b"")
            sec.data = bytes(eh.out)
            sec.size = len(sec.data)
            funcs = None
    elif why == "no data" and sec.data:       # as in a file that has only the debug information
        sec.type = 8
        funcs = None
    path = c.save(ef.write(secs, loads, bits), "elf")
    if funcs is not None:
        check_fde(g, c, path, funcs, base)
        return
    c.label("refused: " + why)
    c.note((why, sec.data.hex()))
    got, found, all_, first, msg = c.one(["elf_fde", path, [0, base]])
    c.check(bool(msg), "no message: " + why)
    c.check(path in msg, "the message names the file")
    c.eq(got, [], "functions")
    c.nontrivial()


SYMS = [b"malloc", b"free", b"__cxa_finalize", b"_ZN1A1BEv", b"printf", b"x", b"attr_removef", b"g_strdup_printf", b"", b"memcpy@GLIBC", b"\xc3\xa9", b"strlen", b"a b"]


def gen_plt(g, c, bits=64):
    base = g.choice(BASES)
    addr = base + 0x1000 + 16 * g.draw(64)
    names = [g.choice(SYMS) + (b"%d" % i if g.bool() else b"") for i in range(g.size(12, 1))]
    strs = b"\0"
    syms = bytes(24)
    for nm in names:
        syms += struct.pack("<IBBHQQ", len(strs) if nm or g.bool() else 0, 0x12, 0, 0, 0, 0)
        strs += nm + b"\0"
    nrel = g.size(14, 1)
    rel = [g.draw(len(names) + 1) for _ in range(nrel)]
    n = g.size(16)
    idx = [g.draw(nrel) for _ in range(n)] if g.bool(1, 3) else [i % nrel for i in range(n)]
    return addr, names, strs, syms, rel, idx


def plt_file(g, c):
    addr, names, strs, syms, rel, idx = gen_plt(g, c)
    plt = bytes([0xff, 0x35]) + bytes(g.draw(256) for _ in range(14))
    for i, k in enumerate(idx):
        plt += b"\xff\x25" + bytes(g.draw(256) for _ in range(4)) + b"\x68" + struct.pack("<I", k) + b"\xe9" + struct.pack("<i", -16 * (i + 2))
    s_plt = ef.Sec(b".plt", 1, plt, addr, flags=6, entsize=16)
    s_str = ef.Sec(b".dynstr", 3, strs, addr + 0x10000)
    s_sym = ef.Sec(b".dynsym", 11, syms, addr + 0x11000, link=s_str, entsize=24)
    s_rel = ef.Sec(b".rela.plt", 4, b"".join(struct.pack("<QQq", 0x1000 + 8 * i, s << 32 | 7, 0) for i, s in enumerate(rel)), addr + 0x12000, link=s_sym, info=s_plt, entsize=24)
    want = [(addr + 16 * (i + 1), names[rel[k] - 1].decode("latin-1") if rel[k] else "") for i, k in enumerate(idx)]
    # relocations of another section, and symbols of another table
    o_str = ef.Sec(b".strtab", 3, b"\0wrong\0", flags=0)
    o_sym = ef.Sec(b".symtab", 2, bytes(24) + struct.pack("<IBBHQQ", 1, 2, 0, 1, addr, 1) * 16, link=o_str, entsize=24, flags=0)
    o_rel = ef.Sec(b".rela.dyn", 4, struct.pack("<QQq", 0x2000, 1 << 32 | 6, 0) * 16, addr + 0x13000, link=s_sym if g.bool() else o_sym, entsize=24)
    if g.bool():
        o_rel.info = o_str
    secs = other_sections(g, (addr, addr)) + [s_plt, s_str, s_sym, s_rel]
    if g.bool():
        secs += [o_str, o_sym, o_rel] if o_rel.link is o_sym or isinstance(o_rel.info, ef.Sec) else [o_rel]
        if g.bool(1, 3):
            secs.append(ef.Sec(b".rel.plt", 9, bytes(16), link=s_sym, info=s_plt, entsize=16))      # not the kind with addends
    secs = g.shuffle(secs)
    return secs, s_plt, s_sym, s_rel, want, addr


def check_plt(g, c, path, want):
    q = sorted({x for a, n in g.sample(want, min(4, len(want))) for x in (a, a + 1, a - 16, a + 16)} | {0, ef.M64})
    got, found, msg = c.one(["elf_plt", path, q])
    c.eq(msg, None, "message")
    c.eq([tuple(x) for x in got], want, "slots")
    for k, a in enumerate(q):
        c.eq(found[k], next((i for i, w in enumerate(want) if w[0] == a), -1), "slot at %#x" % a)
    if len(want) > 1:
        c.nontrivial()


def facet_plt(g, c):
    """Every slot of the procedure linkage table but the first is listed with the symbol of its relocation"""
    secs, s_plt, s_sym, s_rel, want, addr = plt_file(g, c)
    path = c.save(ef.write(secs, [(addr & ~0xfff, 0, 0x10000, R | X)], 64, gap=g.draw(32)), "elf")
    c.note(want)
    check_plt(g, c, path, want)


def facet_plt_refused(g, c):
    """A table that cannot be resolved is refused"""
    secs, s_plt, s_sym, s_rel, want, addr = plt_file(g, c)
    why = g.choice(["no plt", "no relocations", "index", "symbol", "no data", "no symbols"])
    if why == "no plt":
        s_plt.name = g.choice([b".plt.sec", b".pl", b".text"])
    elif why == "no relocations":
        s_rel.name, s_rel.info = g.choice([(b".rela.plt", s_sym), (b".rela.plt", 0)])
    elif why == "index":
        if not want:
            why = "none"
        else:
            k = 16 * (1 + g.draw(len(want))) + 7
            bad = g.choice([s_rel.size // 24, 0xffffffff, 0x80000000, s_rel.size // 24 + 1 + g.draw(100)])
            s_plt.data = s_plt.data[:k] + struct.pack("<I", bad) + s_plt.data[k + 4:]
    elif why == "symbol":
        if not want:
            why = "none"
        else:
            for i in range(s_rel.size // 24):
                s_rel.data = s_rel.data[:24 * i + 8] + struct.pack("<Q", (s_sym.size // 24 + g.draw(50)) << 32 | 7) + s_rel.data[24 * i + 16:]
    elif why == "no data":
        s_plt.type = 8
    else:
        s_rel.link = g.choice([0, 9999])
    path = c.save(ef.write(secs, [(addr & ~0xfff, 0, 0x10000, R | X)], 64), "elf")
    if why == "none":
        return check_plt(g, c, path, want)
    c.label("refused: " + why)
    c.note((why, want))
    got, found, msg = c.one(["elf_plt", path, [addr + 16]])
    c.eq(got, [], "slots")
    c.check(bool(msg) and path in msg, "no message that names the file: " + why)
    c.nontrivial()


def facet_linked(g, c):
    """In linked programs the functions are those of the symbol table"""
    names = p34.EXES + ["libchain.so.1", "lib b++.so", "hook", "hook pie"]
    e = c.elf[g.choice(names)]
    f = g.sample([(a, n) for a, n in e.sym.values() if n and a >= e.start], 5)
    q = sorted({x for a, n in f for x in (a, a + n - 1, a - e.start)})
    got, found, all_, first, msg = c.one(["elf_fde", e.path, q])
    c.eq(msg, None, "message")
    have = {((b + s) & ef.M64, n) for b, s, n in got}
    for a, n in f:
        c.check((a, n) in have, "a function at %#x of %d bytes" % (a, n))
        for x in (a, a + n - 1):
            o, ad, st = found[q.index(x)]
            c.check(ad >= 0 and (got[ad][0] + got[ad][1], got[ad][2]) == (a, n), "found at %#x" % x)
        o = found[q.index(a - e.start)][0]
        c.check(o >= 0 and (got[o][0] + got[o][1], got[o][2]) == (a, n), "found at the offset %#x as in a core frame" % (a - e.start))
    c.nontrivial()
    plt, _, msg = c.one(["elf_plt", e.path, []])
    c.check(plt == [] and msg, "slots or a message")


def facet_damaged(g, c):
    """Damaged and arbitrary files give a list or a message"""
    kind = g.choice(["eh", "eh data", "plt", "plt data", "any", "missing"])
    op = "elf_fde" if kind.startswith("eh") or g.bool() else "elf_plt"
    if kind.startswith("eh"):
        secs, sec, loads, bits, funcs, base = eh_file(g, c, g.bool())
    else:
        secs, sec, s_sym, s_rel, want, addr = plt_file(g, c)
        loads, bits = [(addr & ~0xfff, 0, 0x10000, R | X)], 64
        if kind.startswith("plt"):
            op = "elf_plt"
    if kind.endswith("data"):
        b = bytearray(sec.data)
        for _ in range(g.size(6, 1)):
            if b:
                how = g.choice(["set", "set", "cut", "insert"])
                k = g.draw(len(b))
                if how == "set":
                    b[k] = g.choice([0, 1, 0xff, 0x7f, 0x80, g.draw(256)])
                elif how == "cut":
                    del b[k:k + g.choice([1, 3, 4, 8, 16, len(b)])]
                else:
                    b[k:k] = bytes(g.choice([0, 0xff, g.draw(256)]) for _ in range(g.size(8, 1)))
        sec.data = bytes(b)
        if g.bool(1, 2):
            sec.size = len(b)
    data = ef.write(secs, loads, bits)
    if kind in ("eh", "plt"):
        b = bytearray(data)
        shoff = int.from_bytes(b[40:48], "little") if bits == 64 else int.from_bytes(b[32:36], "little")
        for _ in range(g.size(6, 1)):
            k = g.choice([g.draw(64), shoff + g.draw(len(b) - shoff), g.draw(len(b))])
            b[min(k, len(b) - 1)] = g.choice([0, 1, 0xff, 8, 0x80, g.draw(256)])
        if g.bool(1, 4):
            b = b[:g.draw(len(b))]
        data = bytes(b)
    elif kind == "any":
        data = g.choice([b"", b"\x7fELF", data[:16], data[:64], b"!<arch>\n", bytes(g.draw(256) for _ in range(g.size(200))), data[:g.draw(len(data))]])
    path = c.save(data, "elf")
    if kind == "missing":
        path = os.path.join(c.top, "none")
    c.label("damaged: " + kind)
    c.note((kind, zlib.crc32(data)))
    r = c.one([op, path, [0, 0x400000]])
    if kind == "missing":
        c.check(r[-1] and path in r[-1], "a message that names the file")
    if r[0]:
        c.eq(r[-1], None, "message")
    if r[-1] is not None or len(r[0]) > 1:
        c.nontrivial()


FACETS = [Facet("functions", facet_fde, 6), Facet("functions refused", facet_fde_refused, 3), Facet("slots", facet_plt, 4), Facet("slots refused", facet_plt_refused, 2),
          Facet("linked", facet_linked, 1), Facet("damaged", facet_damaged, 4)]
