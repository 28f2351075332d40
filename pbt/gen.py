"""Shared generators. Strings are latin-1 views of bytes."""
import copy

LOWER = "abcdefghijklmnopqrstuvwxyz"
ALNUM = LOWER + LOWER.upper() + "0123456789_"
UTF = ["é".encode().decode("latin-1"), "ž".encode().decode("latin-1"), "漢".encode().decode("latin-1"), "\U0001f600".encode().decode("latin-1")]
PUNCT = list("!#$%&*+,-./:;=?@^_|~ '()[]{}<>`")


def without(alpha, excl):
    return [c for c in alpha if c not in excl]


def ident(g, hi=10):
    return g.choice(LOWER + "_ABZ") + g.text(ALNUM, hi)


WORDS = ["foo", "bar", "at", "in", "from", "main", "block", "rescue in", "line", "File", "<module>", "<lambda>", "??", "(", ")", ":1:2",
         "/home/joe/x", "anonymized", "0x0", "Caused by:", "levels", "new Foo", "[as x]", "raise", "None", "null", "#0"]


def free(g, excl="", hi=20, lo=0, utf=True, words=True):
    """Free text without any of the characters in excl (newline is up to the caller)."""
    k = g.draw(10)
    if k <= 2:
        s = g.text(LOWER, hi, lo)
    elif k <= 6 or not words:
        al = list(ALNUM) + PUNCT * 2 + ["\"", "\\", "\t", "\r"]
        if utf:
            al += UTF
        s = g.text(al, hi, lo)
    else:
        s = "".join(g.choice(WORDS + [" ", ":", "/", "."]) for _ in range(g.int(max(lo, 1), 4)))
    for c in excl:
        s = s.replace(c, "")
    if len(s) < lo:
        s = (s + "x" * lo)[:lo]
    return s


def path(g, excl="\n"):
    k = g.draw(8)
    if k <= 2:
        s = "/usr/lib/" + ident(g) + "/" + ident(g) + g.choice([".py", ".rb", ".js", ".c", ".java", "", ".so.6"])
    elif k == 3:
        s = ident(g) + g.choice([".py", ".c", ""])
    elif k == 4:
        s = "/home/" + ident(g, 6) + "/" + free(g, excl + "\n", 12)
    elif k == 5:
        s = g.choice(["/home/", "/home", "/home/joe", "/home//x", "/homes/joe/x", "x/home/joe/y", "/home/joe/", "/home/a/home/b/c", "/Home/joe/x", "~joe/x"])
    elif k == 6:
        s = "/" + free(g, excl + "\n", 24)
    else:
        s = free(g, excl + "\n", 30, 1)
    for c in excl:
        s = s.replace(c, "")
    return s or "f"


def anonymize(p):
    if p is not None and p.startswith("/home/"):
        k = p.find("/", 6)
        if k >= 0:
            return "/home/anonymized" + p[k:]
    return p


def series(g, make, n):
    """n made values; some repeat the one before (recursion)"""
    out = []
    rep = g.bool(1, 3)
    for _ in range(n):
        out.append(copy.deepcopy(out[-1]) if rep and out and g.bool(1, 2) else make(g))
    if n and g.bool(1, 40):
        for _ in range(g.int(1, 130)):
            out.append(copy.deepcopy(out[g.draw(n)]))
    return out


def lines(g, excl=(), hi=4):
    """Unrelated lines of text (each ends with a newline) not containing any of excl."""
    out = []
    for _ in range(g.draw(hi + 1)):
        s = free(g, "\n", 30)
        for e in excl:
            s = s.replace(e, "")
        out.append(s + "\n")
    return "".join(out)


def line_number(g):
    return g.weighted([(6, 0), (2, 1), (1, 2)]) and g.uint(32) or g.int(1, 2000)
