#!/usr/bin/env python3
"""Planted bugs: verify that each kept patch builds, passes the stable tests, fails its demonstration, and which checks catch it.

  seed.py check ID...      full verification (build, tests, demo on both trees, the quick check of its property)
  seed.py all              all of them
  seed.py plant SPEC.py    creates seeded/<id>/ from a spec (see bugs() in the spec) and verifies it
"""
import json, os, subprocess, sys, glob

V, R = "/verif", "/repo"
SH = """#!/bin/bash
# run in the built tree; exit 0: the tree behaves, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
gcc -w -g -D_GNU_SOURCE -o "$d/demo" "$here/demo.c" -I include -I lib -I . $(pkg-config --cflags glib-2.0 json-c) -L lib/.libs -lsatyr $(pkg-config --libs glib-2.0 json-c) -Wl,-rpath,"$PWD/lib/.libs" || exit 98
cd "$d" && timeout 60 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C %s checkout -- ." % R)


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-800:]


def tests():
    sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
    d = json.load(open("/tmp/seed-tests.json"))
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(d["passed"]))


def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R)


def check(i, props=None, quick=False):
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    out = dict(id=i, property=meta["property"])
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "dirty /repo"
    if not quick:
        build()
        r = demo(i)
        out["demo_clean"] = r.returncode
        if r.returncode:
            print(r.stdout[-500:])
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode:
        out["apply"] = r.stdout
        return out
    try:
        if not quick:
            ok, log = build()
            out["builds"] = ok
            if not ok:
                print(log)
            out["broken_tests"] = tests() if ok else None
            r = demo(i)
            out["demo_patched"] = r.returncode
            out["demo_says"] = r.stdout.strip()[-200:]
        for p in props or [meta["property"]]:
            r = sh("bash %s/check.sh %s quick" % (V, p), cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            out["check " + p] = r.returncode
            out["says " + p] = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "what" in l][:2] or r.stdout[-300:]
    finally:
        clean()
        if not quick:
            build()
    return out


def report(o):
    good = o.get("demo_clean") == 0 and o.get("demo_patched") and o.get("builds") and o.get("broken_tests") == []
    caught = [k[6:] for k, v in o.items() if k.startswith("check ") and v == 1]
    print("%-28s %s  valid=%s caught=%s" % (o["id"], o["property"], bool(good), caught or "NO"))
    if not good or not caught:
        print("   ", o)
    sys.stdout.flush()


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        i = b["id"]
        d = "%s/seeded/%s" % (V, i)
        os.makedirs(d, exist_ok=True)
        try:
            for path, old, new in b["edits"]:
                s = open(R + "/" + path).read()
                assert s.count(old) == 1, (i, path, s.count(old), old)
                open(R + "/" + path, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        finally:
            clean()
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if b.get("c"):
            open(d + "/demo.c", "w").write(b["c"].lstrip())
            open(d + "/demo.sh", "w").write(SH)
        else:
            open(d + "/demo.sh", "w").write(b["sh"])
        report(check(i, b.get("checks")))


if __name__ == "__main__":
    if sys.argv[1] == "plant":
        plant(sys.argv[2])
    else:
        ids = sys.argv[2:] if sys.argv[1] == "check" else sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*"))
        for i in ids:
            report(check(i, quick=sys.argv[1] == "quick"))
