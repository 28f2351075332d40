"""P13: reports serialise and read back completely."""
from ..core import Facet
from ..gen import *
from .. import stacks as st
from .p10 import gen_rpm, rpm_json, gen_os, os_json, same
from .p12 import wrong, put_at, sites, gen_doc, OBJ, anyvalue, utf

ID = "P13"
CASES = (120000, 1000000)
RULE = ("Reports of every type are built with arbitrary facts, packages, operating system, authentication entries and traces; the JSON must equal the "
        "document derived from the members and reading it back must give an equal report; report documents with one member of a wrong type must be "
        "refused with a message. Non-trivial: a report with a trace of at least one frame or a package, or a refused document.")
TYPE = {"core": 1, "python": 2, "koops": 3, "java": 4, "gdb": 5, "ruby": 6, "js": 7}
NAME = {0: "invalid", 1: "core", 2: "python", 3: "kerneloops", 4: "java", 5: "gdb", 6: "ruby", 7: "javascript"}
STYPE = {v: k for k, v in TYPE.items()}


def gen_report(g):
    t = g.choice([1, 2, 3, 4, 6, 7, 1, 2, 3, 4, 6, 7, 0, 5])
    r = dict(report_version=g.weighted([(3, 2), (1, g.uint(31))]), report_type=t, user_root=int(g.bool()), user_local=int(g.bool()),
             component_name=g.opt(lambda: st.anystr(g), 3, 4), serial=g.uint(32))
    r["reporter_name"] = g.choice(["satyr", "x"]) if g.bool() else st.anystr(g)
    r["reporter_version"] = g.choice(["0.42", ""]) if g.bool() else st.anystr(g)
    r["operating_system"] = g.opt(lambda: gen_os(g), 3, 4)
    r["rpm_packages"] = g.many(lambda: gen_rpm(g), g.size(4))
    r["stacktrace"] = None
    if t not in (0, 5) and g.bool(4, 5):
        s = st.gen_stack(g, STYPE[t], hi=4, threads=3)
        for fix in ([("executable", "/bin/x")] if t == 1 else [("exception_name", "E")] if t in (2, 6, 7) else []):
            if s[fix[0]] is None:
                s[fix[0]] = fix[1]                  # the reason prints it
        if t in (2, 6, 7):
            for f in s["frames"]:
                f["file_name"] = f["file_name"] or "f"
        r["stacktrace"] = s
    keys = []
    r["auth"] = []
    for _ in range(g.weighted([(20, g.size(4)), (1, g.int(10, 60))])):
        k = st.anystr(g, 6)
        if k not in keys:
            keys.append(k)
            r["auth"].append([k, st.anystr(g, 8)])
    return r


def expected(r, reason):
    d = {"ureport_version": r["report_version"], "reason": reason, "reporter": {"name": r["reporter_name"], "version": r["reporter_version"]}}
    if r["operating_system"] is not None:
        d["os"] = os_json(r["operating_system"])
    t = r["report_type"]
    p = {"type": "invalid" if t == 5 else NAME[t]}
    st.put(p, "component", r["component_name"])
    if t != 3:
        p["user"] = {"root": bool(r["user_root"]), "local": bool(r["user_local"])}
    p["serial"] = r["serial"]
    if r["stacktrace"] is not None:
        p.update(st.stack_json(r["stacktrace"]))
    d["problem"] = p
    d["packages"] = [rpm_json(x) for x in r["rpm_packages"]]
    if r["auth"]:
        d["auth"] = dict(r["auth"][::-1])            # the latest entry comes first
    return d


def view(d):
    """A dumped report as a comparable value."""
    d = dict(d)
    d["stacktrace"] = st.strip_ids(d["stacktrace"])
    d["rpm_packages"] = [{k: v for k, v in p.items() if k != "consistency"} for p in d["rpm_packages"] or []]
    return d


def roundtrip(g, c):
    from .p11 import normal_form
    r = gen_report(g)
    s = r["stacktrace"]
    prog = [["breport", 0, r], ["report_json", 0], ["dump", 0]]
    if s is not None:
        prog += [["build", 1, s], ["reason", 1]]
    x = c.run(prog)
    reason = x[4] if s is not None else "invalid"
    if reason is None:
        return
    same(c, x[1], expected(r, reason), "report JSON")
    if '"auth"' in x[1] and r["auth"]:
        c.eq(list(st.parse_json(x[1])["auth"].items()), [tuple(a) for a in r["auth"][::-1]], "order of the authentication entries")
    t = r["report_type"]
    want = dict(report_version=r["report_version"], report_type=0 if t == 5 else t, user_root=r["user_root"], user_local=r["user_local"],
                component_name=r["component_name"], serial=r["serial"], reporter=dict(reporter_name=r["reporter_name"], reporter_version=r["reporter_version"]),
                operating_system=r["operating_system"], rpm_packages=r["rpm_packages"], auth=[list(a) for a in r["auth"][::-1]],
                stacktrace=normal_form(s) if s is not None else None)
    if t == 3:
        want["user_root"], want["user_local"] = 0, 1
    if s is None and t not in (0, 5):
        e = dict(type=STYPE[t])                       # the members of a trace are absent: an empty one
        e.update(st.stack_default(STYPE[t]))
        e["threads" if STYPE[t] in st.THREADED else "frames"] = []
        if t == 1:
            e["crash_thread"] = None
        want["stacktrace"] = e
    y = c.run([["report_fromjson", 0, x[1]], ["dump", 0], ["report_json", 0]])
    c.eq(y[0], [1, None], "reading the report back")
    c.eq(view(y[1]), want, "report read back")
    if s is not None or t in (0, 5):
        z = dict(st.parse_json(x[1]))
        w = dict(st.parse_json(y[2]))
        if t == 3:
            z.pop("reason"), w.pop("reason")          # a kernel oops' own reason text is not part of the format
        c.check(st.same_json(z, w), "the report read back is written differently", "%s\n%s" % (x[1], y[2]))
    c.label(NAME[t], "trace" if s is not None else "no trace")
    c.nontrivial((s is not None and st.nframes(s)) or r["rpm_packages"])
    c.sample(x[1])


RS = [("ureport_version", 32), ("reporter", "reporter"), ("os", "os"), ("packages", ("a", "package")), ("problem", "problem"), ("auth", "auth")]


def rsites(d, t):
    """(path, kind, name) of every typed member of a report document."""
    O = {"reporter": [("name", "s"), ("version", "s")], "user": [("root", "b"), ("local", "b")],
         "os": [("name", "s"), ("version", "s"), ("architecture", "s"), ("cpe", "s"), ("uptime", 64)],
         "package": [("name", "s"), ("version", "s"), ("release", "s"), ("architecture", "s"), ("epoch", 32), ("install_time", 64), ("package_role", ("affected",))],
         "problem": [("type", "s"), ("component", "s"), ("user", "user"), ("serial", 32)]}
    out = [((), "object", "root value")]

    def go(v, k, path):
        if isinstance(k, tuple) and k[0] == "a":
            for i, x in enumerate(v):
                out.append((path + (i,), k[1], None))
                go(x, k[1], path + (i,))
        elif k == "auth":
            for m in v:
                out.append((path + (m,), "s", None))
        elif k in O:
            for m, kk in O[k]:
                if m in v:
                    out.append((path + (m,), kk, m))
                    go(v[m], kk, path + (m,))
    for m, k in RS:
        if m in d:
            out.append(((m,), k, m if m not in ("os", "packages") else None))
            go(d[m], k, (m,))
    if t in OBJ and "problem" in d:
        for p, k, n in sites(t, d["problem"], t):
            out.append((("problem",) + p, k, n))
    return out


def gen_report_doc(g):
    """A well-typed document and its trace type (or None)."""
    t = g.choice([1, 2, 3, 4, 6, 7, 0])
    d = {}
    maybe = lambda k, f: d.update({k: f()}) if g.bool(3, 4) else None
    some = lambda **kw: {k: f() for k, f in kw.items() if g.bool(2, 3)}
    s = lambda: utf(g)
    maybe("ureport_version", lambda: g.uint(31))
    maybe("reporter", lambda: some(name=s, version=s))
    maybe("os", lambda: some(name=s, version=s, architecture=s, cpe=s, desktop=s, variant=s, uptime=lambda: g.uint(64)))
    maybe("packages", lambda: g.many(lambda: some(name=s, version=s, release=s, architecture=s, epoch=lambda: g.uint(32), install_time=lambda: g.uint(64),
                                                  package_role=lambda: "affected"), g.size(3)))
    maybe("auth", lambda: {utf(g, 5) + str(i): s() for i in range(g.draw(3))})
    p = some(component=s, user=lambda: some(root=g.bool, local=g.bool), serial=lambda: g.uint(32))
    p["type"] = NAME[t] if t else g.choice(["invalid", "", "gdb", "koops", "Core", "abc"])
    if t:
        p.update(gen_doc(g, STYPE[t]))
    if g.bool(9, 10):
        d["problem"] = dict(g.shuffle(list(p.items())))
    if g.bool(1, 4):
        d["x" + ident(g, 4)] = anyvalue(g)
    return dict(g.shuffle(list(d.items()))), t


def read(g, c):
    d, t = gen_report_doc(g)
    text = st.dump_json(g, d)
    x = c.run([["report_fromjson", 0, text], ["dump", 0], ["breport", 1, {}], ["dump", 1]])
    c.eq(x[0], [1, None], "a well-typed report was refused")
    p = d.get("problem", {})
    u = p.get("user", {})
    tt = t if "problem" in d else 0
    if "problem" in d and p["type"] == "gdb":
        tt = 5
    dflt = x[3]["reporter"]
    os_ = d.get("os")
    if os_ is not None:
        os_ = dict({k: None for k in ("name", "version", "architecture", "cpe", "desktop", "variant")}, uptime=0, **{})
        os_.update(d["os"])
    rp = d.get("reporter", {})
    want = dict(report_version=d.get("ureport_version", 2), report_type=tt, user_root=int(u.get("root", 0)), user_local=int(u.get("local", 1)),
                component_name=p.get("component"), serial=p.get("serial", 0),
                reporter=dict(reporter_name=rp.get("name", dflt["reporter_name"]), reporter_version=rp.get("version", dflt["reporter_version"])),
                operating_system=os_,
                rpm_packages=[dict(name=q.get("name"), epoch=q.get("epoch", 0), version=q.get("version"), release=q.get("release"),
                                   architecture=q.get("architecture"), install_time=q.get("install_time", 0), role=int("package_role" in q))
                              for q in d.get("packages", [])],
                auth=[list(a) for a in d.get("auth", {}).items()],
                stacktrace=st.stack_from(STYPE[t], p) if t and "problem" in d else None)
    c.eq(view(x[1]), want, "report read")
    c.label(NAME[t])
    c.nontrivial(len(d) >= 2)
    c.sample(text)


def refuse(g, c):
    d, t = gen_report_doc(g)
    ss = rsites(d, STYPE.get(t))
    p, k, name = ss[g.draw(len(ss))]
    w = wrong(g, k)
    if k == ("affected",) and g.bool():
        w, name = g.choice(["", "Affected", "related", "affected "]), None
    text = st.dump_json(g, put_at(d, p, w))
    x = c.run([["report_fromjson", 0, text], ["dump", 0]])
    c.eq([x[0][0], x[1]], [0, None], "a report with a member of the wrong type (%s) was accepted" % "/".join(map(str, p)))
    c.check(x[0][1], "refusal without a message (%s)" % "/".join(map(str, p)))
    if name and not isinstance(k, str) or k in ("s", "b"):
        if name:
            c.check(name in x[0][1], "the message does not name the member %s: %s" % (name, x[0][1]))
    c.label("/".join("#" if isinstance(q, int) else q for q in p[:2]) if p[:1] != ("auth",) else "auth")
    c.nontrivial(True)
    c.sample((text, x[0][1]))


def types(g, c):
    """Report type names in both directions."""
    n = g.choice(list(NAME.values())) if g.bool(2, 3) else utf(g)
    k = g.int(0, 12)
    r = c.run([["type_from_str", n], ["type_str", k]])
    rev = {v: k for k, v in NAME.items()}
    c.eq(r, [rev.get(n, 0), NAME.get(k, "invalid")], "report type of %r and name of %d" % (n, k))
    c.nontrivial(n in rev)
    c.sample((n, k))


FACETS = [Facet("roundtrip", roundtrip, 6), Facet("read", read, 3), Facet("refuse", refuse, 4), Facet("types", types, 1)]
