"""Writes ELF files with given sections and segments."""
import struct

M64 = (1 << 64) - 1


class Sec:
    def __init__(self, name, typ, data, addr=0, link=0, info=0, entsize=0, flags=2, size=None):
        self.name, self.type, self.data, self.addr, self.link, self.info, self.entsize, self.flags = name, typ, data, addr, link, info, entsize, flags
        self.size = len(data) if size is None else size
        self.off = None


def write(secs, loads, bits=64, typ=3, machine=62, gap=0):
    """secs: without the null section; link and info may be Sec objects. loads: (vaddr, offset, size, flags[, type]).
    A section with off set to a number goes there, the others follow the last."""
    names = b"\0"
    at = {}
    for s in secs:
        if s.name not in at:
            at[s.name] = len(names)
            names += s.name + b"\0"
    sh = Sec(b".shstrtab", 3, b"", flags=0)
    at[sh.name] = len(names)
    names += sh.name + b"\0"
    sh.data, sh.size = names, len(names)
    secs = secs + [sh]
    ehs, phs, shs = (64, 56, 64) if bits == 64 else (52, 32, 40)
    out = bytearray(ehs + phs * len(loads) + gap)
    place = lambda o, d: (out.extend(b"\0" * max(0, o + len(d) - len(out))), out.__setitem__(slice(o, o + len(d)), d))
    for s in secs:
        if s.off is not None:
            place(s.off, s.data)
    for s in secs:
        if s.off is None:
            out.extend(b"\0" * (-len(out) % 16))
            s.off = len(out)
            out.extend(s.data)
    out.extend(b"\0" * (-len(out) % 16))
    shoff = len(out)
    idx = lambda x: secs.index(x) + 1 if isinstance(x, Sec) else x
    tab = [(0,) * 10] + [(at[s.name], s.type, s.flags, s.addr, s.off, s.size, idx(s.link), idx(s.info), 8, s.entsize) for s in secs]
    for t in tab:
        out += struct.pack("<IIQQQQIIQQ" if bits == 64 else "<10I", *t)
    ident = b"\x7fELF" + bytes([2 if bits == 64 else 1, 1, 1]) + b"\0" * 9
    out[:ehs] = ident + struct.pack("<HHIQQQIHHHHHH" if bits == 64 else "<HHIIIIIHHHHHH", typ, machine, 1, 0, ehs if loads else 0, shoff, 0, ehs, phs, len(loads), shs, len(tab), len(tab) - 1)
    for i, l in enumerate(loads):
        va, off, size, fl = l[:4]
        t = l[4] if len(l) > 4 else 1
        p = struct.pack("<IIQQQQQQ", t, fl, off, va, va, size, size, 4096) if bits == 64 else struct.pack("<IIIIIIII", t, off, va, va, size, size, fl, 4096)
        out[ehs + phs * i:ehs + phs * (i + 1)] = p
    return bytes(out)


def uleb(n):
    out = b""
    while True:
        b = n & 127
        n >>= 7
        if not n:
            return out + bytes([b])
        out += bytes([b | 128])


class EhFrame:
    """Builds an .eh_frame section that is at address addr."""

    def __init__(self, addr, bits):
        self.addr, self.bits, self.out = addr, bits, bytearray()

    def entry(self, ident, body, wide):
        """ident: None for a CIE, otherwise the offset of its CIE; body(p): bytes at offset p of the section. Returns the offset of the entry."""
        at = len(self.out)
        hdr, idl = (12, 8) if wide else (4, 4)
        b = body(at + hdr + idl)
        b += b"\0" * (-(hdr + idl + len(b)) % (8 if self.bits == 64 else 4))
        v = 0 if ident is None else at + hdr - ident
        n = idl + len(b)
        self.out += (struct.pack("<IQQ", 0xffffffff, n, v) if wide else struct.pack("<II", n, v)) + b
        return at

    def cie(self, aug, data, version=1, wide=False):
        def body(p):
            b = bytes([version]) + aug + b"\0" + b"\x01\x78\x10"
            if aug[:1] == b"z":
                b += uleb(len(data)) + data
            return b + b"\x0c\x07\x08\x90\x01"
        return self.entry(None, body, wide)

    def fde(self, cie, enc, size, start, length, aug=None, wide=False):
        def body(p):
            v = start - (self.addr + p) if enc & 0x70 == 0x10 else start
            b = (v & ((1 << 8 * size) - 1)).to_bytes(size, "little") + length.to_bytes(size, "little")
            if aug is not None:
                b += uleb(len(aug)) + aug
            return b + b"\x44\x0e\x10"
        return self.entry(cie, body, wide)
