"""Builds the harness from /repo's current working tree into /verif/build/<hash>."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-I/usr/include/json-c"]
LIBS = ["-lglib-2.0", "-ljson-c", "-ldw", "-lelf", "-lrpm", "-lrpmio", "-lpopt", "-lstdc++", "-lm", "-Wl,--copy-dt-needed-entries"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _src_files():
    out = []
    for pat in ("lib/*.c", "lib/*.h", "lib/*.gperf", "include/*.h", "include/*/*.h", "satyr.c", "python/*.c", "python/*.h"):
        out += glob.glob(os.path.join(REPO, pat))
    return sorted(f for f in out if os.path.basename(f) not in ("config.h", "normalize_hash.h"))


def _digest():
    h = hashlib.sha256()
    for f in _src_files() + sorted(glob.glob(os.path.join(VERIF, "harness", "*"))) + sorted(glob.glob(os.path.join(VERIF, "fuzz", "*.c"))) + [os.path.abspath(__file__)]:
        if os.path.isfile(f):
            h.update(os.path.relpath(f, VERIF).encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf-8", "replace")[-4000:])
    return r.stdout


def _compile_all(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))


class Tree:
    def __init__(self, d):
        self.dir = d
        self.src = os.path.join(d, "src")

    def _flags(self):
        s = self.src
        return ["-std=gnu99", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-g", "-I" + s + "/lib", "-I" + s + "/include", "-I" + s + "/include/..", "-I" + VERIF + "/harness"] + INC

    def _lib_objs(self, tag, cc, extra):
        """Compiles the library (once per tag); returns the object files."""
        od = os.path.join(self.dir, "obj-" + tag)
        done = os.path.join(od, "DONE")
        srcs = sorted(glob.glob(self.src + "/lib/*.c"))
        objs = [os.path.join(od, os.path.basename(f)[:-2] + ".o") for f in srcs]
        if not os.path.exists(done):
            os.makedirs(od, exist_ok=True)
            _compile_all([[cc, "-w", "-c", f, "-o", o] + extra + self._flags() for f, o in zip(srcs, objs)])
            open(done, "w").close()
        return objs

    def server(self):
        exe = os.path.join(self.dir, "server")
        if not os.path.exists(exe):
            fl = ["-O1"] + SAN
            objs = self._lib_objs("san", "gcc", fl)
            h = []
            jobs = []
            for n in ("proto", "obj", "server"):
                o = os.path.join(self.dir, "h-%s.o" % n)
                h.append(o)
                jobs.append(["gcc", "-w", "-c", "%s/harness/%s.c" % (VERIF, n), "-o", o] + fl + self._flags())
            _compile_all(jobs)
            _run(["gcc", "-o", exe + ".tmp"] + h + objs + SAN + LIBS)
            os.rename(exe + ".tmp", exe)
        return exe

    def cli(self):
        exe = os.path.join(self.dir, "satyr")
        if not os.path.exists(exe):
            fl = ["-O1"] + SAN
            objs = self._lib_objs("san", "gcc", fl)
            o = os.path.join(self.dir, "satyr-cli.o")
            _run(["gcc", "-w", "-c", self.src + "/satyr.c", "-o", o] + fl + self._flags())
            _run(["gcc", "-o", exe + ".tmp", o] + objs + SAN + LIBS)
            os.rename(exe + ".tmp", exe)
        return exe

    def pymod(self):
        """The Python extension with sanitizers, as package directory <dir>/py/satyr/."""
        pd = os.path.join(self.dir, "py", "satyr")
        so = os.path.join(pd, "_satyr3.so")
        if not os.path.exists(so):
            os.makedirs(pd, exist_ok=True)
            fl = ["-O1", "-fPIC"] + SAN
            objs = self._lib_objs("pic", "gcc", fl)
            pyinc = ["-I" + sysconfig.get_paths()["include"], "-I" + self.src + "/python"]
            srcs = sorted(glob.glob(self.src + "/python/*.c"))
            po = [os.path.join(self.dir, "py", os.path.basename(f)[:-2] + ".o") for f in srcs]
            _compile_all([["gcc", "-w", "-c", f, "-o", o] + fl + self._flags() + pyinc for f, o in zip(srcs, po)])
            for f in glob.glob(self.src + "/python/*.py"):
                shutil.copy(f, pd)
            _run(["gcc", "-shared", "-o", so + ".tmp"] + po + objs + SAN + LIBS)
            os.rename(so + ".tmp", so)
        return os.path.join(self.dir, "py")

    def chain(self):
        """The programs that the generated core files are of."""
        from . import corefile
        h = hashlib.sha256(open(corefile.__file__, "rb").read()).hexdigest()[:12]
        d = os.path.join(self.dir, "chain-" + h)
        if not os.path.exists(d):
            tmp = d + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            corefile.build(tmp)
            # what the programs were linked with is found next to them
            os.rename(tmp, d)
        return d

    def fuzzer(self, name):
        exe = os.path.join(self.dir, "fuzz-" + name)
        if not os.path.exists(exe):
            fl = ["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=nonnull-attribute,function", "-fno-sanitize-recover=all"]
            objs = self._lib_objs("fuzz", "clang", fl)
            o = os.path.join(self.dir, "fuzz-%s.o" % name)
            _run(["clang", "-w", "-c", "%s/fuzz/%s.c" % (VERIF, name), "-o", o] + fl + self._flags())
            _run(["clang", "-o", exe + ".tmp", o] + objs + ["-fsanitize=address,undefined,fuzzer"] + LIBS)
            os.rename(exe + ".tmp", exe)
        return exe


def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d) and d != keep), key=os.path.getmtime)
        for d in ds[:-8]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


class locked:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def tree():
    """Copies the sources and generates what the build needs; call under locked()."""
    dg = _digest()
    d = os.path.join(BUILD, dg)
    t = Tree(d)
    if not os.path.exists(os.path.join(d, "READY")):
        shutil.rmtree(d, ignore_errors=True)
        for f in _src_files():
            dst = os.path.join(t.src, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(f, dst)
        pkg = glob.glob(os.path.join(REPO, "python", "*.py"))
        for f in pkg:
            shutil.copy(f, os.path.join(t.src, "python"))
        shutil.copy(os.path.join(VERIF, "harness", "config.h"), t.src + "/lib/config.h")
        shutil.copy(os.path.join(VERIF, "harness", "config.h"), t.src + "/config.h")
        _run(["gperf", "--output-file=normalize_hash.h", "normalize_hash.gperf"], cwd=t.src + "/lib")
        open(os.path.join(d, "READY"), "w").close()
        _prune(d)
    else:
        os.utime(d)
    return t


if __name__ == "__main__":
    t0 = time.time()
    with locked():
        t = tree()
        for what in sys.argv[1:] or ["server"]:
            getattr(t, what)()
    print(t.dir, "%.1fs" % (time.time() - t0))
