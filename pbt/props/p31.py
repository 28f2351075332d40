"""P31: text scanning and locations."""
import string
from ..core import Facet
from ..gen import *

ID = "P31"
CASES = (500000, 5000000)
RULE = ("A helper, a text and an argument are generated; result, new position and value must equal those of a reference model written from the "
        "descriptions in utils.h / location.h. Locations: random advance sequences against counting. Non-trivial: the helper matched something, or the "
        "text has several lines, or a number at a range limit.")

AL = list("ab01 \t\n:,.x") + ["\x80", "\xff", "\xc3"]
HEX = "abcdefABCDEF0123456789"


def txt(g, hi=16):
    k = g.draw(4)
    if k == 0:
        return g.text("ab", hi)
    if k == 1:
        return g.text(HEX + "x", hi)
    return g.text(AL, hi)


def span(s, acc):
    n = 0
    while n < len(s) and s[n] in acc:
        n += 1
    return n


def cspan(s, rej):
    n = 0
    while n < len(s) and s[n] not in rej:
        n += 1
    return n


WS = " \t\n\v\f\r"


def model(k, s, x):
    """[return value, consumed, value]"""
    if k == "skip_char":
        ok = s[:1] == chr(x)
        return [int(ok), int(ok), None]
    if k in ("skip_char_limited", "parse_char_limited"):
        ok = s != "" and s[0] in x
        return [int(ok), int(ok), ord(s[0]) if ok and k[0] == "p" else None]
    if k == "skip_char_sequence":
        n = span(s, chr(x))
        return [n, n, None]
    if k in ("skip_char_span", "parse_char_span"):
        n = span(s, x)
        return [n, n, s[:n] if n and k[0] == "p" else None]
    if k in ("skip_char_cspan", "parse_char_cspan"):
        n = cspan(s, x)
        return [n if k[0] == "s" else int(n > 0), n, s[:n] if n and k[0] == "p" else None]
    if k in ("skip_string", "parse_string"):
        ok = s.startswith(x)
        n = len(x) if ok else 0
        return [n if k[0] == "s" else int(ok), n, x if ok and k[0] == "p" else None]
    if k == "parse_digit":
        ok = s[:1].isdigit() and s[0] in string.digits
        return [ord(s[0]) if ok else 0, int(ok), None]
    if k == "skip_uint":
        n = span(s, string.digits)
        return [n, n, None]
    if k in ("parse_uint32", "parse_uint64"):
        n = span(s, string.digits)
        if n == 0 or int(s[:n]) >= 1 << int(k[-2:]):
            return [0, 0, None]
        return [n, n, int(s[:n])]
    if k == "skip_hex":
        n = span(s, HEX)
        return [n, n, None]
    if k == "parse_hex":
        n = span(s, HEX)
        if n == 0 or int(s[:n], 16) >= 1 << 64:
            return [0, 0, None]
        return [n, n, int(s[:n], 16)]
    if k in ("skip_0xhex", "parse_0xhex"):
        if not s.startswith("0x"):
            return [0, 0, None]
        n = span(s[2:], HEX)
        if n == 0 or (k[0] == "p" and int(s[2:2 + n], 16) >= 1 << 64):
            return [0, 0, None]
        return [n + 2, n + 2, int(s[2:2 + n], 16) if k[0] == "p" else None]
    if k == "skip_ws":
        return [0, span(s, WS), None]
    if k == "skip_non_ws":
        return [0, cspan(s, WS), None]


def scan(g, c):
    k = g.choice(["skip_char", "skip_char_limited", "parse_char_limited", "skip_char_sequence", "skip_char_span", "parse_char_span", "skip_char_cspan",
                  "parse_char_cspan", "skip_string", "parse_string", "parse_digit", "skip_uint", "parse_uint32", "parse_uint64", "skip_hex", "skip_0xhex",
                  "parse_hex", "parse_0xhex", "skip_ws", "skip_non_ws"])
    x = None
    s = txt(g)
    if k in ("skip_char", "skip_char_sequence"):
        ch = g.choice("ab01: \n")
        if g.bool():
            s = ch * g.draw(4) + s
        x = ord(ch)
    elif k in ("skip_char_limited", "parse_char_limited", "skip_char_span", "parse_char_span", "skip_char_cspan", "parse_char_cspan"):
        x = g.text(AL, 5)
        if x and g.bool():
            s = "".join(g.choice(x) for _ in range(g.draw(5))) + s
    elif k in ("skip_string", "parse_string"):
        x = txt(g, 6)
        if g.bool():
            s = x + s
        elif x and g.bool():
            s = x[:-1] + s
    elif k in ("parse_uint32", "parse_uint64", "skip_uint"):
        bits = 32 if k == "parse_uint32" else 64
        v = g.uint(bits) if g.bool(2, 3) else (1 << bits) + g.int(-2, 12) if g.bool() else g.draw(10 ** 30)
        s = "0" * g.draw(4) * g.draw(3) + str(v) + s
        if g.bool(1, 6):
            s = g.choice("+- x") + s
    elif "hex" in k:
        v = g.uint(64) if g.bool(2, 3) else (1 << 64) + g.int(-2, 12) if g.bool() else g.draw(1 << 90)
        h = "%x" % v
        if g.bool():
            h = h.upper()
        s = ("0x" if g.bool(3, 4) else g.choice(["", "0X", "x", "0x0x", "0"])) + "0" * g.draw(3) * g.draw(10) + (h if g.bool(5, 6) else "") + s
    elif "ws" in k:
        s = g.text(WS, 4) + s
    e = model(k, s, x)
    r = c.one(["scan", k, s, x])
    c.eq(r, e, "%s(%r, %r)" % (k, s, x))
    c.label(k + ("+" if e[1] else "-"))
    c.nontrivial(e[1] > 0 or len(s) > 8)
    c.sample("%s(%r, %r) -> %r" % (k, s, x, e))


def loc_after(s):
    return [1 + s.count("\n"), len(s) - (s.rfind("\n") + 1)]


def strloc(g, c):
    k = g.choice(["strchr", "strstr", "strspn", "skip_span", "next_line"])
    s = g.text(["a", "b", "\n", "c", "\xc3"], 30)
    l0, c0 = g.int(0, 5), g.int(0, 9)
    if k == "strchr":
        x = g.choice("abc\n\xc3")
        off = s.find(x)
        r = c.one(["strloc", k, s, ord(x) if g.bool() or ord(x) < 128 else ord(x) - 256, l0, c0])
        if off < 0:
            c.eq(r[0], -1, "strchr of an absent character")
        else:
            c.eq(r, [off] + loc_after(s[:off]), "strchr_location")
    elif k == "strstr":
        x = g.text(["a", "b", "\n"], 3)
        off = s.find(x)
        r = c.one(["strloc", k, s, x, l0, c0])
        if off < 0:
            c.eq(r[0], -1, "strstr of an absent string")
        else:
            c.eq(r, [off] + loc_after(s[:off]), "strstr_location")
    elif k == "next_line":
        off = s.find("\n")
        r = c.one(["strloc", k, s, None, l0, c0])
        if off < 0:
            c.eq(r, [-2 - len(s), l0, c0 + len(s)], "skip_to_next_line_location without a further line")
        else:
            c.eq(r, [off + 1, l0 + 1, 0], "skip_to_next_line_location")
    else:
        x = g.text(["a", "b", "\n", "c"], 4)
        off = span(s, x)
        c.eq(c.one(["strloc", k, s, x, l0, c0]), [off] + loc_after(s[:off]), k)
    c.nontrivial("\n" in s[:max(off, 0) + 1])
    c.label(k)
    c.sample((k, s, off))


def loc(g, c):
    """Locations after any sequence of advances."""
    steps, line, col = [], 1, 0
    exp = [[1, 0, 1, 0]]
    text = ""
    for _ in range(g.size(12, 1)):
        if g.bool():
            s = g.text(["a", "\n"], 12)
            text += s
            l, co = loc_after(s)
            steps.append(["add", l, co])
        else:
            ch = g.choice("ab\n\t")
            text += ch
            steps.append(["eat", ord(ch)])
        l, co = loc_after(text)
        exp.append([l, co, l, co])
    c.eq(c.one(["loc", steps]), exp, "line and column after advancing over %r" % text)
    c.nontrivial("\n" in text)
    c.sample(text)


def sgn(x):
    return (x > 0) - (x < 0)


def loccmp(g, c):
    m = lambda: g.choice([None, "", "a", "b", "ab"])
    a = [g.int(0, 3), g.int(0, 3), m()]
    b = [g.int(0, 3), g.int(0, 3), m()]
    if g.bool(1, 4):
        a[0], b[0] = g.int(0, 2000000000), g.int(0, 2000000000)
    key = lambda v, ms: (v[0], v[1]) + (((v[2] is not None), v[2] or "") if ms else ())
    ms = g.bool()
    ka, kb = key(a, ms), key(b, ms)
    r = c.run([["loc_cmp", a, b, int(ms)], ["loc_str", a]])
    c.eq(sgn(r[0]), (ka > kb) - (ka < kb), "order of locations %r %r" % (a, b))
    c.eq(r[1], "Line %d, column %d" % (a[0], a[1]) + (": " + a[2] if a[2] is not None else ""), "location text")
    c.nontrivial(a != b)
    c.sample((a, b, ms))


def misc(g, c):
    k = g.choice(["bin2hex", "indent", "indent_except_first", "build_path", "struniq", "anonymize", "demangle"])
    if k == "bin2hex":
        s = "".join(chr(g.int(1, 255)) for _ in range(g.size(20)))
        c.eq(c.one([k, s]), [2 * len(s), s.encode("latin-1").hex()], "bin2hex")
    elif k in ("indent", "indent_except_first"):
        s = g.text(["a", "\n", " ", "b"], 20)
        n = g.int(0, 8)
        e, start = "", k == "indent"
        for i, ch in enumerate(s):
            if start:
                e += " " * n
            start = ch == "\n"
            e += ch
        if s.startswith("\n") and k == "indent":
            pass
        c.eq(c.one([k, s, n]), e, "%s of %r by %d" % (k, s, n))
    elif k == "build_path":
        s = g.list(lambda: g.text("ab/.", 4), 4, 1)
        c.eq(c.one([k, s]), "/".join(s), "build_path")
    elif k == "struniq":
        s = g.list(lambda: g.choice(["a", "b", "c", "aa", "", "\xc3"]), 10)
        c.eq(c.one([k, s]), sorted(set(s)), "struniq of sorted strings")
    elif k == "anonymize":
        s = path(g)
        c.eq(c.one([k, s]), anonymize(s), "anonymize_path(%r)" % s)
    else:
        parts = [ident(g, 6)[:40] for _ in range(g.int(1, 4))]
        m = "".join("%d%s" % (len(p), p) for p in parts)
        sym = "_Z" + (m if len(parts) == 1 else "N" + m + "E") + "v"
        s = sym
        c.eq(c.one([k, sym]), "::".join(parts) + "()", "demangle(%s)" % sym)
        pl = g.choice(["main", "f", "i", "foo_Z", "", "_", "Z3foov", "_z3foov"])
        c.eq(c.one([k, pl]), None, "demangle of the plain name %r" % pl)
    c.label(k)
    c.nontrivial(len(s) > 1)
    c.note((k, s))
    c.sample((k, s))


FACETS = [Facet("scan", scan, 8), Facet("strloc", strloc, 3), Facet("loc", loc, 2), Facet("loccmp", loccmp, 1), Facet("misc", misc, 2)]
