#!/usr/bin/env python3
"""Small syntactic changes to the library, to find what the checks do not notice.

  mutate.py OUT.jsonl [--sample N] [--seed S] [--files a.c,b.c] [--props P01,…] [--cases N] [--redo OLD.jsonl] [--limit S]

Nothing in /repo is touched: one file is changed and compiled in a scratch directory and linked with the objects of the unchanged tree.
Each mutant is run against the quick cases of the properties anchored in its file until one notices. Survivors are written with what ran."""
import argparse, importlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import build, core

REL = {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<", "=="], ">=": [">", "=="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"],
       "++": ["--"], "--": ["++"], "+=": ["-="], "-=": ["+="], "*": ["/"], "/": ["*"]}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//[^\n]*|->|\+\+|--|<<=?|>>=?|<=|>=|==|!=|&&|\|\||\+=|-=|[A-Za-z_]\w*|\d\w*|[^\s]', re.S)


def mutants(text):
    """[(position, end, replacement, kind)]"""
    out = []
    toks = [(m.start(), m.end(), m.group(0)) for m in TOK.finditer(text)]
    depth = 0
    pre = False
    body = False
    for i, (a, b, t) in enumerate(toks):
        ls = text.rfind("\n", 0, a) + 1
        line = text[ls:text.find("\n", a)]
        if line.lstrip().startswith("#") or t.startswith("/*") or t.startswith("//"):
            continue
        if t == "{":
            depth += 1
        if t == "}":
            depth -= 1
        if depth == 0:
            if t[0] in "\"":
                pass
            else:
                continue
        prev = toks[i - 1][2] if i else ""
        nxt = toks[i + 1][2] if i + 1 < len(toks) else ""
        binary = bool(re.match(r"[\w)\]]", prev[-1:])) and prev not in ("return", "case", "if", "while", "sizeof")
        if t in REL and (t not in "+-*/" or (binary and not re.match(r"(struct|char|const|void|int|bool|unsigned|size_t|\w+_t)\b", prev))):
            if t == "*" and (re.search(r"\b(struct \w+|char|void|int|bool|GString|json_object|FILE|Dwfl\w*|Elf\w*)\s*$", text[ls:a]) or nxt in ("*", ",", ")")):
                continue
            for r in REL[t]:
                out.append((a, b, r, "operator"))
        elif t == "true":
            out.append((a, b, "false", "constant"))
        elif t == "false":
            out.append((a, b, "true", "constant"))
        elif re.match(r"\d+$", t) and depth:
            out.append((a, b, str(int(t) + 1), "constant"))
            if int(t):
                out.append((a, b, str(int(t) - 1), "constant"))
        elif t[0] == '"' and len(t) > 2 and (depth or True):
            s = t[1:-1]
            if s[0] != "\\" and s[0] != "%":
                out.append((a, b, '"' + ("X" if s[0] != "X" else "Y") + s[1:] + '"', "string"))
            if len(s) > 1 and s[-2] not in "\\%" and not re.search(r"%[-0-9l\"]*[a-zA-Z\"]?$", s):
                out.append((a, b, '"' + s[:-1] + '"', "string"))
        elif t[0] == "'" and len(t) == 3:
            out.append((a, b, "'%s'" % ("x" if t[1] != "x" else "y"), "character"))
        elif t in ("if", "while") and nxt == "(":
            d = 0
            for j in range(i + 1, len(toks)):
                if toks[j][2] == "(":
                    d += 1
                if toks[j][2] == ")":
                    d -= 1
                    if d == 0:
                        break
            out.append((toks[i + 1][0], toks[j][1], "(!" + text[toks[i + 1][0]:toks[j][1]] + ")", "condition"))
            if t == "if":
                out.append((toks[i + 1][0], toks[j][1], "(0)", "condition"))
                out.append((toks[i + 1][0], toks[j][1], "(1)", "condition"))
        elif t == ";" and depth:
            # the statement that ends here
            j = i - 1
            d = 0
            while j >= 0 and not (d == 0 and toks[j][2] in (";", "{", "}", ":")) and not toks[j][2].startswith(("/*", "//")):
                if toks[j][2] == ")":
                    d += 1
                if toks[j][2] == "(":
                    d -= 1
                    if d < 0:
                        break
                j -= 1
            if d < 0:
                continue
            st = [x[2] for x in toks[j + 1:i]]
            if not st:
                continue
            if st[0] in ("if", "while", "for", "else"):
                # keep the head
                k = 1 if st[0] == "else" and (len(st) < 2 or st[1] != "if") else None
                if k is None:
                    d = 0
                    for k in range(len(st)):
                        if st[k] == "(":
                            d += 1
                        if st[k] == ")":
                            d -= 1
                            if d == 0:
                                break
                    k += 1
                if k < len(st):
                    out.append((toks[j + 1 + k][0], a, "(void)0", "statement"))
                continue
            if st[0] in ("struct", "char", "int", "bool", "const", "static", "return", "goto", "unsigned", "void", "size_t", "enum", "GString", "json_object", "float", "double", "long", "uint64_t", "uint32_t", "uint16_t",
                         "int64_t", "short", "gsize", "ssize_t", "case", "default", "do", "regex_t", "regmatch_t", "FILE", "va_list", "Dwarf_Addr", "GElf_Addr", "Dwfl", "Elf", "extern", "typedef"):
                if st[0] == "return" and len(st) > 1 and st[1:] != ["NULL"] and len(st) == 2 and re.match(r"[a-z_]\w*$", st[1]) and st[1] not in ("true", "false"):
                    out.append((toks[j + 2][0], a, "0", "return"))
                continue
            if len(st) > 1 and re.match(r"[A-Za-z_]\w*$", st[0]) and re.match(r"[A-Za-z_]\w*$|\*$", st[1]) and st[0] not in ("break", "continue"):
                continue
            out.append((toks[j + 1][0], a, "(void)0", "statement"))
        elif t == "sr_skip_whitespace" or t == "sr_skip_char_span":
            pass
    return out


LIMIT = 40


def load_props():
    m = {}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            m.setdefault(os.path.basename(f), []).append(p["id"])
    return m


class Runner:
    def __init__(self, tree, chain, cases):
        self.tree, self.chain, self.cases = tree, chain, cases

    def judge(self, server, props, log, cli=None):
        """The property that notices, or None."""
        core.TIMEOUT = 10
        for pid in props:
            mod = importlib.import_module("pbt.props." + pid.lower())
            if hasattr(mod, "extra") and not mod.FACETS:
                continue
            env = dict(server=server, chain=self.chain, cli=cli, tier="quick", seed=1)
            ctx = mod.make_ctx(env) if hasattr(mod, "make_ctx") else core.Ctx(env)
            n = min(mod.CASES[0], self.cases)
            sch = core.facets_schedule(mod.FACETS)
            t0 = time.time()
            try:
                for i in range(n):
                    if time.time() - t0 > 40:
                        break
                    f = sch[i % len(sch)]
                    g = core.Gen(rng=core.case_rng(1, mod.ID, i))
                    try:
                        v = core.run_case(f, ctx, g)
                    except Exception as e:
                        return pid, "error " + str(e)[:100]
                    if v is not None:
                        return pid, v.msg[:100]
            finally:
                if ctx.srv:
                    ctx.srv.stop()
                if hasattr(ctx, "close"):
                    ctx.close()
        return None


def work(args):
    (idx, fname, text, mut, props, tdir, chain, cases) = args
    a, b, rep, kind = mut
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        t = build.Tree(tdir)
        new = text[:a] + rep + text[b:]
        line = text.count("\n", 0, a) + 1
        res = dict(i=idx, file=fname, line=line, kind=kind, old=text[a:b][:120], new=rep[:120], src=text[text.rfind("\n", 0, a) + 1:text.find("\n", a)].strip()[:160])
        # keep relative includes: compile from a copy in the scratch directory with the tree's lib first in the include path
        src = os.path.join(d, fname)
        open(src, "w").write(new)
        obj = os.path.join(d, fname[:-2] + ".o")
        r = subprocess.run(["gcc", "-w", "-c", src, "-o", obj, "-O1"] + build.SAN + ["-I" + tdir + "/src/lib"] + t._flags(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            res["result"] = "does not compile"
            return res
        objs = [obj if os.path.basename(o) == fname[:-2] + ".o" else o for o in t._lib_objs("san", "gcc", [])]
        exe = os.path.join(d, "server")
        h = [os.path.join(tdir, "h-%s.o" % n) for n in ("proto", "obj", "server")]
        subprocess.run(["gcc", "-o", exe] + h + objs + build.SAN + build.LIBS, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cli = os.path.join(d, "satyr")
        if "P33" in props:
            subprocess.run(["gcc", "-o", cli, os.path.join(tdir, "satyr-cli.o")] + objs + build.SAN + build.LIBS, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        v = Runner(tdir, chain, cases).judge(exe, props, None, cli)
        res["result"] = "survived" if v is None else v[0]
        res["how"] = None if v is None else v[1]
        res["props"] = props
        return res
    except Exception as e:
        return dict(i=idx, file=fname, result="tool error", how=repr(e)[:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--sample", type=int, default=0)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--files")
    p.add_argument("--props")
    p.add_argument("--cases", type=int, default=4000)
    p.add_argument("--redo", help="only the survivors in this file")
    p.add_argument("--limit", type=int, default=40, help="seconds for one property")
    a = p.parse_args()
    global LIMIT
    LIMIT = a.limit
    with build.locked():
        t = build.tree()
        t.server()
        t.cli()
        chain = t.chain()
    keep = "/tmp/mut/tree"
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(t.dir, keep)
    chain = os.path.join(keep, os.path.basename(chain))
    have = {f[:-3].upper() for f in os.listdir(V + "/pbt/props") if re.match(r"p\d+\.py$", f)}
    anchors = load_props()
    jobs = []
    for f in sorted(os.listdir(keep + "/src/lib")):
        if not f.endswith(".c") or a.files and f not in a.files.split(","):
            continue
        props = [x for x in anchors.get(f, []) if x in have and x not in ("P01", "P32", "P30")] + ["P01", "P32"]
        if f in ("abrt.c",):
            pass
        else:
            props = [x for x in props if x != "P33"]
        if a.props:
            props = a.props.split(",")
        text = open(keep + "/src/lib/" + f).read()
        for m in mutants(text):
            jobs.append((len(jobs), f, text, m, props, keep, chain, a.cases))
    if a.redo:
        again = {(r["file"], r["line"], r["kind"], r["old"], r["new"], r["src"]) for r in map(json.loads, open(a.redo)) if r["result"] == "survived"}
        jobs = [j for j in jobs if (j[1], j[2].count("\n", 0, j[3][0]) + 1, j[3][3], j[2][j[3][0]:j[3][1]][:120], j[3][2][:120],
                                    j[2][j[2].rfind("\n", 0, j[3][0]) + 1:j[2].find("\n", j[3][0])].strip()[:160]) in again]
    if a.sample and a.sample < len(jobs):
        jobs = random.Random(a.seed).sample(jobs, a.sample)
    else:
        random.Random(a.seed).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    n = {}
    with mp.Pool(8, maxtasksperchild=20) as pool, open(a.out, "w") as o:
        for k, r in enumerate(pool.imap_unordered(work, jobs)):
            o.write(json.dumps(r) + "\n")
            o.flush()
            n[r["result"]] = n.get(r["result"], 0) + 1
            if k % 50 == 0:
                print(k, n, flush=True)
    print(n)


if __name__ == "__main__":
    main()
