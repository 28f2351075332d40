"""P14: ABRT problem directories become the right report."""
import os, shutil, tempfile
from ..core import Ctx, Facet
from ..gen import *
from .. import stacks as st, koopstext
from . import p05, p06, p07, p08, p26, p27
from .p12 import gen_doc, put_at, wrong, sites
from .p13 import view

ID = "P14"
CASES = (90000, 900000)
RULE = ("Problem directories of every type are written to disk with any combination of present, absent, unreadable and malformed files; the report must equal a Python "
        "model of the directory (the trace is what the library's parser of the type gives for the file's text), or be refused with a message when the model says so. "
        "Non-trivial: a report with a trace or a package, or a refusal.")
BAD = object()
DIR = object()
TYPES = {"CCpp": 1, "Python": 2, "Python3": 2, "Kerneloops": 3, "Java": 4, "Ruby": 6, "JavaScript": 7}


class DirCtx(Ctx):
    def __init__(self, env):
        Ctx.__init__(self, env)
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.top = tempfile.mkdtemp(prefix="p14-", dir=base)
        self.n = 0

    def write(self, files):
        """The directory holding the files; the previous one is removed."""
        d = os.path.join(self.top, "d")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        for k, v in files.items():
            p = os.path.join(d, k)
            if v is DIR:
                os.mkdir(p)
            else:
                with open(p, "wb") as f:
                    f.write(v.encode("latin-1"))
        self.note(sorted((k, v if v is not DIR else 0) for k, v in files.items()))
        return d

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def make_ctx(env):
    return DirCtx(env)


def clean(s):
    return s.replace("\0", "")


def trace_files(g, t):
    """Files holding the trace of a report of type t (sound or malformed)."""
    bad = g.bool(1, 12)
    if t == 1:
        d = gen_doc(g, "core")
        if bad:
            ss = list(sites("core", d, "core"))
            if ss:
                p, k, _ = ss[g.draw(len(ss))]
                d = put_at(d, p, wrong(g, k))
        text = st.dump_json(g, d) + g.choice(["", "\n"])
        if g.bool(1, 20):
            text = text[:g.draw(len(text) + 1)]
        return {"core_backtrace": text}
    if t == 2:
        kind, text, _, _ = p05.gen_trace(g)
        text += p05.tail(g, kind == "syntax_script")
    elif t == 3:
        text = koopstext.gen_oops(g)[0]
    elif t == 4:
        text = p07.gen_trace(g)[0]
    elif t == 6:
        frames, msg, cls, = p06.gen_trace(g)
        text = "".join(p06.render(frames, msg, cls, ""))
    else:
        exc, msg = p08.gen_head(g)
        text = exc + ": " + msg + "\n" + "\n".join(p08.gen_frame(g)[0] for _ in range(g.size(5, 1)))
    if bad:
        text = g.choice([text[:g.draw(len(text) + 1)], "", free(g, "", 40), text[g.draw(len(text) + 1):]])
    r = {"backtrace": clean(text)}
    if t == 3:
        r["kernel"] = g.choice(["3.10.0-33.el7.ppc64", "3.11.10\n", "", free(g, "", 20)])
    if t == 7:
        r["analyzer"] = g.choice(["Node.js", "Node.js", "abrt-javascript", "node.js", "Node.js\n", "", "V8", "JavaScript; Node.js"])
    return r


def gen_system_release(g):
    """(text, meaning)"""
    if g.bool(1, 10):
        return g.choice(["Fedora 19", "", " release 5", "Fedora release", "x\n"]), None
    name = g.choice(["Fedora", "CentOS Linux", "Red Hat Enterprise Linux Server", "red hat enterprise linux", "Scientific Linux", "Red Hat Linux"])
    ver = g.choice(["19", "7.0", "6.4.1", "41"])
    tail = g.choice(["", "\n", " (Verne)", " (Final)\n", "rawhide"])
    low = name.lower()
    return name + " release " + ver + tail, ("rhel" if low.startswith("red hat enterprise linux") else low, ver)


def gen_environ(g):
    """(text, desktop)"""
    want, ls = None, []
    for _ in range(g.size(5)):
        k = g.draw(5)
        if k == 0:
            v = g.choice(["gnome-classic", "kde", "", "DESKTOP_SESSION=x", free(g, "\n", 10)])
            if want is None:
                want = v
            ls.append("DESKTOP_SESSION=" + v)
        elif k == 1:
            ls.append(g.choice(["GDM_", "X", " ", "DESKTOP_SESSION", "=", "\t", "XDG_SESSION_DESKTOP="]) + "DESKTOP_SESSION=" + ident(g))
            if ls[-1].startswith("DESKTOP_SESSION="):
                if want is None:
                    want = ls[-1][16:]
        elif k == 2:
            ls.append(g.choice(["DESKTOP_SESSIO=x", "DESKTOP_SESSION", "desktop_session=x", "DESKTOP_SESSION =x", "XDESKTOP=1"]))
        else:
            ls.append(ident(g).upper() + "=" + free(g, "\n", 12).replace("DESKTOP_SESSION", ""))
    text = "\n".join(ls)
    if ls and g.bool():
        text += "\n"
    return text, want


def gen_count(g):
    """(text, meaning)"""
    k = g.draw(20)
    if k == 19:
        return g.choice(["", "x", "abc", "1x", "1 ", "1\n", "0x1", "1.0", "-", "+", " ", "--1", "1,0"]), BAD
    if k == 18:
        return str(g.choice([-1, -(1 << 31), 1 << 32, 1 << 63, -(1 << 63), 1 << 64, 10 ** 30, -10 ** 30, (1 << 32) + 7])), BAD
    n = g.uint(32)
    return g.choice(["", "", "", "+", " ", "0", "\t"]) + str(n), n


def gen_pkgfiles(g, parts):
    """pkg_* files and what they say."""
    n, e, v, r, a = parts
    e = e or 0
    nl = lambda s: s + g.choice(["", "", "\n", "\nmore"])
    f = {"pkg_epoch": nl(str(e)), "pkg_name": nl(n), "pkg_version": nl(v), "pkg_release": nl(r), "pkg_arch": nl(a)}
    m = dict(name=n, epoch=e, version=v, release=r, architecture=a, install_time=0, role=1)
    if g.bool(1, 15):
        f["pkg_epoch"] = g.choice(["", "x", "1x", "4294967296", "-1", " ", "\n1", "1.0", "99999999999999999999999", "(none)", "1 ", "0 \n", "2 x", "1\t"])
        m = BAD
    elif g.bool(1, 15):
        k = g.choice(["name", "version", "release", "arch"])
        f["pkg_" + k] = g.choice(["", "\n"])
        m["architecture" if k == "arch" else k] = ""
    return f, m


def small_parts(g):
    c = g.choice
    return (c(["glibc", "libfoo", "bash"]), c([None, 0, 1, 2]), c(["1", "2.1", "10"]), c(["1.fc19", "2"]), c(["x86_64", "x86_64", "i686"]))


def install_time(p):
    return (hash_(p) % 5) and hash_(p)


def hash_(p):
    import zlib
    return zlib.crc32(repr((p[0], p[1] or 0) + tuple(p[2:])).encode()) * 1000003


def gen_dir(g, t=None):
    """(files, meaning)"""
    m, f = {}, {}
    tn = g.choice(list(TYPES)) if t is None else t
    if t is None and g.bool(1, 10):
        tn = g.choice(["", "ccpp", "CCp", "xorg", "Kernel", "Py", "JAVA", "vmcore", " CCpp", "Rub"])
    m["type"] = TYPES.get(tn, 0)
    f["type"] = tn + g.choice(["", "", "\n", "3", " x"])
    if tn == "Java" and f["type"].startswith("JavaScript"):
        f["type"] = tn
    # operating system
    text, entries = p27.gen(g, False)
    d = dict(entries)
    name, version = d.get("ID"), "rawhide" if "(Rawhide)" in d.get("VERSION", "") else d.get("VERSION_ID")
    m["os"] = dict(name=name, version=version, cpe=d.get("CPE_NAME"), variant=d.get("VARIANT_ID")) if name is not None and version is not None else None
    f["os_info"] = text
    f["os_release"], rel = gen_system_release(g)
    m["release"] = dict(name=rel[0], version=rel[1], cpe=None, variant=None) if rel else None
    f["architecture"] = g.choice(["x86_64", "i686", "ppc64", "", "x86_64\n", free(g, "", 8)])
    f["environ"], m["desktop"] = gen_environ(g)
    # packages
    parts = small_parts(g) if g.bool(3, 4) else p26.gen_named_parts(g)
    pf, m["affected"] = gen_pkgfiles(g, parts)
    if g.bool(3, 4):
        f.update(pf)
        f["package"] = g.choice(["x", "", "glibc-1-1"])
    elif g.bool(1, 3):
        f.update(pf)

    def mk():
        p = small_parts(g)
        return p, install_time(p)
    f["dso_list"], m["dso"] = p26.gen_dso(g, mk)
    k = g.draw(3)
    ip = p26.gen_named_parts(g)
    if k == 0:
        f["interpreter"] = p26.nevra_text(ip)
        m["interpreter"] = dict(name=ip[0], epoch=ip[1] or 0, version=ip[2], release=ip[3], architecture=ip[4], install_time=0, role=0)
    else:
        f["interpreter"], m["interpreter"] = g.choice(["", "python", "python3-3.9", "bash-x:1-1.noarch", "a-b-c"]), None
    f["component"] = g.choice(["glibc", "", "kernel\n", free(g, "", 12)])
    f["executable"] = g.choice(["/usr/bin/will_segfault", "will_segfault", "/", "", "/usr/bin/", "/opt/a b/c-d.py", "/x\n", free(g, "", 12)])
    f["count"], m["count"] = gen_count(g)
    f.update(trace_files(g, m["type"] or g.choice([1, 2, 3, 4, 6, 7])))
    for x in ("uid", "reason", "cmdline", "hostname", "kernel", "backtrace", "core_backtrace", "analyzer"):
        if x not in f and g.bool(1, 6):
            f[x] = free(g, "", 20)
    # absent and unreadable files
    for x in ("os_info", "os_release", "environ", "dso_list", "interpreter", "component", "executable"):
        if x in f:
            if g.bool(1, 5):
                del f[x]
            elif g.bool(1, 30):
                f[x] = DIR
    for x in ("type", "architecture", "count", "pkg_epoch", "pkg_name", "pkg_version", "pkg_release", "pkg_arch", "backtrace", "core_backtrace", "kernel", "analyzer"):
        if x in f and g.bool(1, 40):
            if g.bool():
                del f[x]
            else:
                f[x] = DIR
    return {k: clean(v) if v is not DIR else v for k, v in f.items()}, m


def readable(f, k):
    return k in f and f[k] is not DIR


def model_os(f, m):
    o = None
    if readable(f, "os_info") and m["os"]:
        o = dict(m["os"])
    elif readable(f, "os_release") and m["release"]:
        o = dict(m["release"])
    if o is None or not readable(f, "architecture"):
        return BAD
    o.update(architecture=f["architecture"], uptime=0, desktop=m["desktop"] if readable(f, "environ") else None)
    return o


def model_rpms(f, m):
    l = []
    if "package" in f:
        if m["affected"] is BAD or not all(readable(f, "pkg_" + x) for x in ("epoch", "name", "version", "release", "arch")):
            return BAD
        l = [m["affected"]]
    if "dso_list" in f:
        if not readable(f, "dso_list"):
            return BAD
        if m["dso"]:
            l = p26.uniq(sorted(l + [dict(x) for x in m["dso"]], key=p26.nevra_key))
    if readable(f, "interpreter") and m["interpreter"]:
        l = l + [m["interpreter"]]
    return l


def model(f, m, c):
    """The report, or the reason why there is none."""
    if not readable(f, "type"):
        return "type"
    o = model_os(f, m)
    if o is BAD:
        return "operating system"
    rp = model_rpms(f, m)
    if rp is BAD:
        return "packages"
    if not readable(f, "count") or m["count"] is BAD:
        return "count"
    t = m["type"]
    s = None
    if t:
        for x in {1: ["core_backtrace"], 3: ["kernel", "backtrace"], 7: ["backtrace", "analyzer"]}.get(t, ["backtrace"]):
            if not readable(f, x):
                return x
        kind = {1: "core", 2: "python", 3: "koops", 4: "java", 6: "ruby", 7: "js"}[t]
        if t == 1:
            r = c.run([["fromjson", 0, kind, f["core_backtrace"]], ["dump", 0]])
        else:
            r = c.run([["parse", 0, kind, f["backtrace"]], ["dump", 0]])
        if not r[0][0]:
            return "trace"
        s = r[1]
        if t == 3:
            s["version"] = f["kernel"]
        if t == 7:
            s["platform"] = 0x11 if f["analyzer"] == "Node.js" else 1
    if "package" in f:
        comp = f["component"] if readable(f, "component") else None
    elif readable(f, "executable"):
        comp = f["executable"].rsplit("/", 1)[-1] + "-unpackaged"
    else:
        comp = None
    return dict(report_version=2, report_type=t, user_root=0, user_local=1, component_name=comp, serial=m["count"], operating_system=o, rpm_packages=rp, auth=[],
                stacktrace=st.strip_ids(s))


def whole(g, c):
    f, m = gen_dir(g)
    want = model(f, m, c)
    d = c.write(f)
    r = c.run([["errno", g.choice([0, 34, 22, 2])], ["report_from_dir", 0, d], ["dump", 0]])[1:]
    if isinstance(want, str):
        c.eq([r[0][0], r[1]], [0, None], "a report was made although %s is unusable" % want)
        c.check(r[0][1], "refusal without a message (%s)" % want)
        c.label("refused: " + want)
        c.nontrivial(True)
    else:
        c.eq(r[0], [1, None], "report of the directory")
        got = view(r[1])
        dflt = c.run([["breport", 0, {}], ["dump", 0]])[1]
        want["reporter"] = dflt["reporter"]
        c.eq(got, want, "report")
        c.nontrivial(m["type"] or want["rpm_packages"])
        c.label("type %d" % m["type"], "packaged" if "package" in f else "unpackaged")
    c.sample({k: (v if v is not DIR else "<directory>")[:200] for k, v in f.items()})


def parts(g, c):
    f, m = gen_dir(g)
    d = c.write(f)
    if g.bool():
        want = model_os(f, m)
        r = c.run([["os_from_dir", 0, d], ["dump", 0]])
        if want is BAD:
            c.eq([r[0][0], r[1]], [0, None], "an operating system was made of unusable files")
            c.check(r[0][1], "refusal without a message")
            c.label("no os")
        else:
            c.eq(r[0][0], 1, "success")
            c.eq(r[1], want, "operating system")
            c.label("os")
        c.nontrivial(True)
    else:
        want = model_rpms(f, m)
        r = c.run([["rpms_from_dir", 0, d], ["dump", 0]])
        if want is BAD:
            bad_pkg = "package" in f and (m["affected"] is BAD or not all(readable(f, "pkg_" + x) for x in ("epoch", "name", "version", "release", "arch")))
            c.eq([r[0][0], r[0][1]], [-1 if bad_pkg else -2, 0], "packages of unusable files")
            c.check(r[0][2], "refusal without a message")
            c.label("no packages")
        else:
            c.eq(r[0][0], 0, "success")
            c.eq(p26.strip(r[1]), want, "packages")
            c.label("%d packages" % min(4, len(want)))
        c.nontrivial(want is BAD or want)
    c.sample({k: (v if v is not DIR else "<directory>")[:200] for k, v in f.items()})


def types(g, c):
    n = g.choice(["CCpp", "Python", "Kerneloops", "Java", "JavaScript", "Ruby"]) if g.bool(3, 4) else free(g, "", 12)
    k = g.draw(4)
    s = n + free(g, "", 6) if k == 0 else n[:-1] if k == 1 else n
    want = next((v for p, v in (("CCpp", 1), ("Python", 2), ("Kerneloops", 3), ("JavaScript", 7), ("Java", 4), ("Ruby", 6)) if s.startswith(p)), 0)
    c.eq(c.run([["abrt_type", clean(s)]]), [want], "report type of %r" % s)
    if g.bool(1, 8):
        c.eq(c.run([["abrt_analyzer", clean(s)]]), [want], "report type of analyzer %r" % s)
    c.nontrivial(want)
    c.label("type %d" % want)
    c.sample(s)


FACETS = [Facet("whole", whole, 8), Facet("parts", parts, 3), Facet("types", types, 1)]
