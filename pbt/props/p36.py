"""P36: files read and written whole."""
import hashlib, os, shutil
from ..core import Facet
from ..gen import *
from . import p14

ID = "P36"
CASES = (120000, 1500000)
RULE = ("Files with generated contents (every byte, NUL included, empty to beyond the size limit of 20 million bytes) are written and read through the library at new, "
        "existing, linked, unwritable and impossible places, with the number of open files or the size of written files limited to inject failures; the contents, the "
        "reported success and the message must be those of a model, and what the model does not touch must be as before. Non-trivial: contents of two bytes or more, or a failure.")
ASSUMPTIONS = ["The checks run as root, so permission bits refuse nothing; directories, missing directories, links without target and limits stand in for them."]
LIMIT = 20000000


def make_ctx(env):
    return p14.DirCtx(env)


def content(g, nul=True):
    k = g.draw(6)
    if k == 0:
        s = ""
    elif k <= 2:
        s = "".join(chr(g.int(0 if nul and g.bool(1, 10) else 1, 255)) for _ in range(g.size(40)))
    elif k == 3:
        s = free(g, "", 60)
    else:
        s = "".join(free(g, "", 30) + g.choice(["\n", "\r\n", "\n\n", ""]) for _ in range(g.size(6)))
    if s and g.bool(1, 30):
        s = (s * (70000 // len(s) + 1))[:g.choice([4095, 4096, 4097, 8192, 65535, 65536, 65537, g.int(1, 70000)])]
    return s if nul else s.replace("\0", "")


def fresh(c):
    d = os.path.join(c.top, "files")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def fs(p):
    return p.encode("latin-1")


def put(p, s):
    with open(fs(p), "wb") as f:
        f.write(s.encode("latin-1"))


def get(p):
    with open(fs(p), "rb") as f:
        return f.read().decode("latin-1")


def place(g, d):
    """(path to use, what is really there or None if nothing can be read)"""
    k = g.draw(8)
    if k <= 3:
        return os.path.join(d, g.choice(["f", "a b", "-", "%s%n", "x" * 250, "f.txt", "\n", "\xc3\xa9"])), "file"
    if k == 4:
        os.symlink("target", os.path.join(d, "l"))
        return os.path.join(d, "l"), "link"
    if k == 5:
        return os.path.join(d, "nodir", "f"), "no directory"
    if k == 6:
        os.mkdir(os.path.join(d, "dir"))
        return os.path.join(d, "dir"), "directory"
    return g.choice(["", os.path.join(d, "x" * 256), os.path.join(d, "loop")]), "impossible"


def real(d, p, kind):
    return os.path.join(d, "target") if kind == "link" else p


def message(c, m, p, what):
    c.check(m is not None and p in m, "%s: the message %r does not name %r" % (what, m, p))


def read(g, c):
    d = fresh(c)
    p, kind = place(g, d)
    if p.endswith("loop"):
        os.symlink("loop", p)
    s = content(g)
    there = kind in ("file", "link") and g.bool(5, 6)
    if there:
        put(real(d, p, kind), s)
    starved = g.bool(1, 8)
    c.note((p, s, there, starved))
    prog = [["file_read", p]]
    if starved:
        prog = [["file_limit", 1, 0]] + prog + [["file_limit", 1, None]]
    r = c.run(prog)
    got, msg = r[1] if starved else r[0]
    if there and not starved:
        c.eq((got, msg), (s.split("\0")[0], None), "contents of %r" % p)
    else:
        c.eq(got, None, "contents of a file that cannot be read")
        message(c, msg, p, "reading")
    if there:
        c.eq(get(real(d, p, kind)), s, "file after reading it")
    c.label(kind, "starved" if starved else "there" if there else "missing")
    c.nontrivial(len(s) > 1 if there else True)
    c.sample((kind, s[:60]))


def write(g, c):
    d = fresh(c)
    p, kind = place(g, d)
    if p.endswith("loop"):
        os.symlink("loop", p)
    old, new = content(g), content(g, False)
    there = kind in ("file", "link") and g.bool()
    mode = None
    if there:
        put(real(d, p, kind), old)
        mode = g.choice([0o600, 0o644, 0o777, 0o640])
        os.chmod(fs(real(d, p, kind)), mode)
    starved = g.bool(1, 10)
    room = g.choice([0, 1, len(new) - 1, len(new), len(new) + 1, g.draw(len(new) + 1)]) if g.bool(1, 6) and not starved else None
    room = None if room is None else max(0, room)
    c.note((p, old if there else None, new, starved, room))
    limit = ["file_limit", 1, 0] if starved else ["file_limit", 0, room]
    r = c.run([limit, ["file_write", p, new], ["file_limit", int(starved), None]])
    ok, msg = r[1]
    can = kind in ("file", "link") and not starved
    whole = can and (room is None or room >= len(new))
    c.eq(bool(ok), whole, "success of writing %d bytes (%s, room %r)" % (len(new), kind, room))
    if whole:
        c.eq(msg, None, "message after success")
        c.eq(get(real(d, p, kind)), new, "contents written over %r" % (old if there else None))
        m = os.stat(fs(real(d, p, kind))).st_mode & 0o7777
        c.eq(oct(m), oct(mode if there else 0o640 & ~UMASK), "mode of the file")
        c.eq(c.one(["file_read", p]), [new, None], "contents read back")
    else:
        message(c, msg, p, "writing")
        if there and not can:
            c.eq(get(real(d, p, kind)), old, "file that could not be opened")
        if not can and not there:
            left = [x for x in os.listdir(d) if x not in ("dir", "l", "loop")]
            c.eq(left, [], "files made by a failed call")
    if kind == "link":
        c.eq(os.path.islink(fs(p)), True, "the link remains a link")
    c.label(kind, "starved" if starved else "room" if room is not None else "free", "over" if there else "new")
    c.nontrivial(len(new) > 1 or not whole)
    c.sample((kind, room, new[:60]))


UMASK = os.umask(0)
os.umask(UMASK)


def big(g, c):
    """At and around the size limit."""
    d = fresh(c)
    p = os.path.join(d, "big")
    n = g.choice([LIMIT, LIMIT + 1, LIMIT - 1, 5000000, 1 << 24, LIMIT + 4096, 1 << 31, 1 << 32, (1 << 32) + 5])
    s = (free(g, "\0", 20, 1) or "x").encode("latin-1")
    with open(p, "wb") as f:
        if n <= LIMIT:
            data = (s * (n // len(s) + 1))[:n]
            f.write(data)
        else:
            f.truncate(n)
    c.note((n, s))
    r = c.one(["file_digest", p])
    os.unlink(p)
    if n <= LIMIT:
        c.eq(r, [n, hashlib.sha1(data).hexdigest(), None], "length, hash and message of a file of %d bytes" % n)
    else:
        c.eq(r[:2], [None, None], "contents of a file of %d bytes" % n)
        c.check(r[2] is not None, "no message for a file of %d bytes" % n)
    c.label("limit" if n >= LIMIT - 1 else "large")
    c.nontrivial(True)


FACETS = [Facet("read", read, 600), Facet("write", write, 600), Facet("big", big, 1)]
