"""P27: os-release and system-release files."""
from ..core import Facet
from ..gen import *

ID = "P27"
CASES = (300000, 3000000)
RULE = ("os-release files with the known keys in any order and quoting, other keys, comments and malformed lines, and system-release lines in and out of the "
        "documented form, parsed and compared with a reference model. Non-trivial: a file with at least one known key, or a release line in the documented form.")
KNOWN_KEYS = ["ID", "VERSION_ID", "VERSION", "CPE_NAME", "VARIANT_ID"]
OTHER = ["NAME", "PRETTY_NAME", "ANSI_COLOR", "ID_LIKE", "HOME_URL", "VERSION_CODENAME", "VARIANT", "id", "ID ", " ID", "export ID", "XID", "CPE_NAMES", "VERSION_IDS",
         "REDHAT_SUPPORT_PRODUCT_VERSION"]


def quote(g, v):
    """A spelling of the value v: bare, quoted or escaped."""
    k = g.draw(4)
    if k == 0 and v and not any(c in v for c in "\"'\\"):
        return v
    esc = lambda s, extra="": "".join("\\" + c if c in "\"'\\" or c in extra else c for c in s)
    if k == 1:
        return "'" + esc(v) + "'"
    if k == 2:
        return esc(v, g.choice(["", " ", "$`", ":"]))
    return '"' + esc(v, g.choice(["", "$`"])) + '"'


def value(g, key):
    if key == "ID":
        return g.choice(["fedora", "rhel", "centos", "debian", ""]) if g.bool(2, 3) else free(g, "\n", 12)
    if key == "VERSION_ID":
        return g.choice(["19", "7.0", "rawhide", "41", ""]) if g.bool(2, 3) else free(g, "\n", 8)
    if key == "VERSION":
        return g.choice(["19 (Schrodinger's Cat)", "24 (Rawhide)", "24 (Workstation Edition)", "Rawhide", "(Rawhide", "x(Rawhide)y", "(rawhide)", "1 Rawhide)", "2 [Rawhide]", "3 (Rawhide )", "4 (RAWHIDE)", "5 (Rawhide)(Rawhide)", free(g, "\n", 12)])
    if key == "CPE_NAME":
        return g.choice(["cpe:/o:fedoraproject:fedora:19", "", "cpe:2.3:o:redhat:\\*"]) if g.bool() else free(g, "\n", 20)
    if key == "VARIANT_ID":
        return g.choice(["workstation", "server", ""])
    return free(g, "\n", 20)


def gen(g, repeat):
    lines, keys = [], [k for k in KNOWN_KEYS if g.bool(3, 4)]
    keys = g.shuffle(keys)
    if repeat and keys and g.bool():
        keys.append(g.choice(keys))
    entries = []
    for k in keys + [g.choice(OTHER) for _ in range(g.count(g.draw(4)))]:
        v = value(g, k)
        entries.append((k, v, "%s=%s" % (k, quote(g, v))))
    known = [e for e in entries if e[0] in KNOWN_KEYS]
    rest = [e for e in entries if e[0] not in KNOWN_KEYS]
    out = []
    for e in known:
        out.append(e)
    for e in rest:
        out.insert(g.draw(len(out) + 1), e)
    for _ in range(g.draw(4)):
        bad = g.choice(["# comment", "#ID=wrong", "", "no equals sign", "=value", "ID", "   ", "VERSION_ID", "# VERSION=\"1 (Rawhide)\"", free(g, "=\n", 12)])
        out.insert(g.draw(len(out) + 1), (None, None, bad))
    text = "".join(l + "\n" for _, _, l in out)
    if out and g.bool(1, 4):
        text = text[:-1]
    return text, [(k, v) for k, v, _ in out if k is not None]


def os_release(g, c):
    text, entries = gen(g, False)
    r = c.one(["os_release", text])
    d = dict(entries)
    want = dict(name=d.get("ID"), version="rawhide" if "(Rawhide)" in d.get("VERSION", "") else d.get("VERSION_ID"), cpe=d.get("CPE_NAME"), variant=d.get("VARIANT_ID"))
    c.eq({k: r[1][k] for k in want}, want, "operating system read from\n%s" % text)
    c.eq(bool(r[0]), want["name"] is not None and want["version"] is not None, "success")
    c.nontrivial(any(k in KNOWN_KEYS for k, _ in entries))
    c.label("complete" if r[0] else "incomplete", "rawhide" if want["version"] == "rawhide" else "release")
    c.sample(text)


def raw(g, c):
    text, entries = gen(g, True)
    c.eq(c.one(["os_release_raw", text]), [[k, v] for k, v in entries], "entries of\n%s" % text)
    c.one(["os_release", text])              # repeated keys: memory only (see P32)
    c.nontrivial(bool(entries))
    c.label("%d entries" % min(len(entries), 5))


def system_release(g, c):
    k = g.draw(6)
    name = g.choice(["Fedora", "CentOS", "CentOS Linux", "Red Hat Enterprise Linux Server", "red hat enterprise linux", "RED HAT ENTERPRISE LINUX WORKSTATION", "Red Hat Linux",
                     "Scientific Linux", "Fedora (Rawhide)"]) if g.bool(2, 3) else free(g, "\n", 16, 1)
    while " release " in name + " ":
        name = name.replace("release", "")
    name = name or "x"
    ver = g.text("0123456789.", 6, 1)
    tail = g.choice(["", " (Verne)", "\n", " (Final)\n", "rawhide", "~x", " release 9 (Two)\n", " " + free(g, "", 10)])
    while tail[:1] and tail[0] in "0123456789.":
        tail = tail[1:]
    if k == 0:
        text = g.choice([name + " " + ver, "", " release 5", name + " release", name + "release " + ver, name + " Release " + ver + "\n", " release "])
        if " release " in text and not text.startswith(" release "):
            text = "x"
        c.eq(c.one(["system_release", text]), None, "release line %r must be refused" % text)
        c.label("refused")
        c.nontrivial(True)
        return
    if k == 1:                       # no number: everything after " release " is the version
        ver, tail = "", g.choice(["rawhide", "Rawhide (x)", "", "Seven\n", "-1"])
    text = name + " release " + ver + tail
    lower = "".join(ch.lower() if "A" <= ch <= "Z" else ch for ch in name)
    want = ["rhel" if lower.startswith("red hat enterprise linux") else lower, ver or tail]
    c.eq(c.one(["system_release", text]), want, "name and version of %r" % text)
    c.label("rhel" if want[0] == "rhel" else "other", "number" if ver else "words")
    c.nontrivial(True)
    c.sample(text)


FACETS = [Facet("os_release", os_release, 4), Facet("raw", raw, 3), Facet("system_release", system_release, 3)]
