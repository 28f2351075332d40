"""Printer of GDB backtraces and shared library tables together with what they state."""
from .gen import *
from . import stacks as st

OPS = [">>=", ">>", ">=", ">", "<<=", "<<", "<=", "<", "->*", "->", "-", "==", "=", "&&", "&=", "&", "||", "|=", "|", "++", "+=", "+", "--", "-=", "-", "/=", "/",
       "*=", "*", "%=", "%", "!=", "!", "~", "()", "[]", ",", "^=", "^", " new[]", " new", " delete[]", " delete"]
TYPES = ["int", "char const*", "std::string const&", "void*", "unsigned long", "Foo::Bar*", "QString", "bool", "std::vector<int, std::allocator<int> >&",
         "void (*)(int)", "QMap<QString, int>", "...", "std::pair<int const, Foo>", "long long", "A&&", "int [3]", "char (&) [4]"]


def cname(g):
    k = g.draw(12)
    if k == 0:
        return g.choice(["main", "raise", "abort", "__libc_start_main", "_start", "start_thread", "clone", "o", "op", "oper", "operation", "const", "at", "from", "in", "vtable", "vtable_init", "vtables",
                         "x_operator", "constant"])
    if k == 1:
        return ident(g) + g.choice(["@plt", "@@GLIBC_2.3.2", "@GLIBC_2.2.5", ".part.0", ".isra.3", ".constprop.12", ".cold"])
    if k == 2:
        return g.choice(["*__GI_", "._", ".", "~", "_", "*"]) + ident(g)
    if k == 3:
        return g.choice("0123456789") + ident(g)
    return ident(g, 14)


def ctype(g, deep=2):
    if deep and g.bool(1, 4):
        return ident(g) + "<" + ", ".join(ctype(g, deep - 1) for _ in range(g.int(1, 3))) + g.choice([">", " >"])
    if deep and g.bool(1, 8):
        return ident(g) + "<" + ident(g) + " [with T = " + ident(g) + g.choice(["", "[4]", ", U = int*", " [with V = x[2]]", ", W = [a [b]]"]) + "]>"
    if deep and g.bool(1, 16):
        # template arguments that follow a parenthesis or a template are kept as they are
        return ident(g) + "<" + ident(g) + g.choice(["(int)", "<int>", "(A, B*)"]) + " [with T = " + ident(g) + \
            g.choice(["", "[4]; U = int*", " [x]; f = {lambda(int)#1}", "[2]; s = \"x\"", "; V = a[b[c]]; W = $x"]) + "]>"
    return g.choice(TYPES) if g.bool() else ident(g) + g.choice(["", "*", "&", " const&", "::" + ident(g)])


def part(g):
    k = g.draw(8)
    r = ident(g)
    if k == 0:
        return "(anonymous namespace)"
    if k <= 2:
        r += "<" + ", ".join(ctype(g) for _ in range(g.draw(3))) + g.choice([">", " >"])
    return r


def cppname(g):
    """A C++ function name as GDB prints it."""
    r = "".join(part(g) + "::" for _ in range(g.draw(3)))
    k = g.draw(8)
    if k <= 1:
        op = g.choice(OPS)
        r += "operator" + op
        if g.bool(1, 3):
            r += (" <" if op.endswith("<") or g.bool() else "<") + ctype(g) + ">"
    elif k == 2:
        r += "~" + ident(g)
    elif k <= 4:
        r += ident(g) + "<" + ", ".join(ctype(g) for _ in range(g.int(1, 2))) + g.choice([">", " >"])
    else:
        r += ident(g)
    if not r.endswith("(") and g.bool(3, 4):
        r += "(" + ", ".join(ctype(g) for _ in range(g.draw(4))) + ")"
        if g.bool(1, 4):
            r += " const"
    return r


def rettype(g):
    r = ident(g)
    if r.startswith("const"):
        r = "t" + r
    if g.bool(1, 3):
        r += "<" + ", ".join(ctype(g) for _ in range(g.int(1, 2))) + ">"
    return r + g.choice(["", "", "*", "&", "::" + ident(g)])


def gen_name(g):
    """(function name, function type)"""
    k = g.draw(10)
    if k == 0:
        return "??", None
    if k <= 4:
        return cname(g), None
    name = cppname(g)
    ty = None
    if k >= 8 and name[0] not in "(~" and not name.startswith("const"):
        ty = g.choice(["void", "int", "bool", "void*", "std::string", rettype(g)])
    return name, ty


CHARS = ["40 '('", "41 ')'", "34 '\"'", "39 '\\''", "92 '\\\\'", "0 '\\000'", "10 '\\n'", "65 'A'", "-1 '\\377'", "44 ','"]


def value(g, deep=2):
    k = g.draw(10)
    if k == 0:
        return str(g.uint(31))
    if k == 1:
        return "0x%x" % g.uint(48)
    if k == 2:
        return g.choice(["<optimized out>", "<value optimized out>", "@0x7ffd: 3", "<error reading variable>", "<synthetic pointer>", "...", "FOO_BAR", "(A | B)", "(unknown: 12)", "true"])
    if k <= 4:
        s = "".join(g.choice(["a", "b c", "(", ")", "\\\"", "\\\\", "\\n", "'", "#0 ", "{", "\\000", "%s", "é".encode().decode("latin-1"), "at x.c:1", "Thread 1"]) for _ in range(g.draw(6)))
        return g.choice(["0x%x " % g.uint(32), "", "@0x1: "]) + '"' + s + '"' + g.choice(["", "..."])
    if k == 5:
        return g.choice(CHARS)
    if k == 6:
        return "0x%x <%s>" % (g.uint(32), g.choice([cname(g), "foo(int, char)", "(anonymous namespace)::x"]))
    if k == 7 and deep:
        return "{" + ", ".join("%s = %s" % (ident(g), value(g, deep - 1)) for _ in range(g.draw(3))) + "}"
    if k == 8 and deep:
        return "(%s)" % ", ".join(value(g, deep - 1) for _ in range(g.draw(3)))
    return ident(g) + "=" + str(g.uint(8)) if g.bool() else str(-g.uint(8))


SECRET = None       # when set: a mark that is printed among arguments and variables (see P28)


def gen_args(g):
    r = []
    if SECRET and g.bool(2, 3):
        r.append(g.choice(["pw=", "s=0x1 ", ""]) + '"' + SECRET + '"')
    for _ in range(g.count(g.weighted([(3, 0), (4, 1), (3, 2), (2, g.draw(6))]), 40)):
        r.append(g.choice([ident(g), "this", "ap@entry"]) + "=" + value(g))
    if r and g.bool(1, 20):
        r[-1] = "f=" + g.choice(["Frame 0x1, for file /x.py (a=(1, ", "{'x': \"abc", "((("]) + "...(truncated)"
    sep = g.choice([", ", ", ", ", ", ", \n    "])
    return "(" + sep.join(r) + ")"


def source(g):
    return g.choice(["../nptl/" + ident(g) + ".c", ident(g) + ".c", "/usr/src/debug/" + ident(g) + "-1.0/" + ident(g) + ".cpp", "/home/" + ident(g) + "/x.c", "C.c++", "a_b-c.h",
                     "/usr/lib/" + ident(g) + ".c", "/usr/src/debug/foo-1.0~rc1/a.c", "/builddir/x@y/z.c", "<built-in>", "/a+b/c=d,e.c", "./" + ident(g), "/home/lib/foo.sofa/a.c", "/x.so.d/lib/y.c", "/builddir/libfoo.sock.c", "my(1).c", "/src/a'b.c",
                     "/lib.c", "/a/librt/[x].c", "x.so", "/b/x.so.c"])


def gen_frame(g, number, address=None):
    """(text, frame)"""
    f = st.frame_default("gdb")
    f["number"] = number
    pre = "#%d%s" % (number, " " * g.int(1, 3))
    if g.bool(1, 14):
        f["signal_handler_called"] = 1
        return pre + "<signal handler called>", f
    fn, ty = gen_name(g)
    f["function_name"], f["function_type"] = fn, ty
    t = pre
    if g.bool(5, 6) or fn == "??":
        f["address"] = g.uint(64) if address is None else address
        t += "0x%s in " % (("%016x" if g.bool() else "%x") % f["address"])
        if ty is None and g.bool(1, 25) and fn != "??":
            t += "vtable for "
    elif fn == "in" or (ty is None and fn.startswith("0x")):
        fn = f["function_name"] = "foo"
    wrap = g.choice([" ", " ", " ", " ", "\n    "])
    t += (ty + " " if ty is not None else "") + fn + wrap + gen_args(g)
    k = g.draw(8)
    if k <= 4:
        f["source_file"] = source(g)
        t += g.choice([" ", " ", " ", "\n    "]) + "at " + f["source_file"]
        if g.bool(5, 6):
            f["source_line"] = g.weighted([(5, g.int(1, 5000)), (1, g.uint(32))])
            t += ":%d" % f["source_line"]
    elif k <= 6:
        lib = g.choice(["/lib64/libc.so.6", "/usr/lib/libfoo.so", "/usr/lib64/xorg/modules/drivers/nvidia_drv.so", "/usr/bin/foo", "/opt/x/plugin.so", "libx.so.1", "/usr/lib/foo/bar", "/usr/lib64/p.so.d/x", "/x.so.1/lib/y", "/usr/lib/libx.sox", "/lib/x.so.1.so", "/opt/libfoo-1.so.2.3.4"])
        t += " from " + lib
        i = lib.find("/lib")
        if i < 0 or not (".so." in lib[i:] or lib.endswith(".so")):
            f["source_file"] = lib
    return t, f


VARS = ["No locals.", "No symbol table info available.", "        x = 1", "        s = \"#0 foo () at a.c:1\"", "        ret = <optimized out>", "        __FUNCTION__ = \"(\"",
        "        p = {a = 1, b = 0x0}", "        Thread = 3", "82\tT_PSEUDO (SYSCALL_SYMBOL)", "        #1 = 2", "", "warning: x", "        c = 40 '('", "  Thread 1 (LWP 1):", "Locals:"]


def gen_vars(g):
    if SECRET and g.bool():
        return "\n" + g.choice(["        pw = ", "", "        s = 0x1 "]) + SECRET
    return "".join("\n" + g.choice(VARS) for _ in range(g.weighted([(4, 0), (4, 1), (1, 4)])))


def gen_thread(g, hi=6, top=None):
    """(text with the final newline, thread)"""
    th = dict(number=g.weighted([(5, g.int(1, 30)), (1, g.uint(32))]), tid=st.U32, frames=[])
    lwp = g.weighted([(5, g.int(1, 99999)), (1, g.uint(32))])
    t = "Thread %d%s" % (th["number"], " " * g.weighted([(6, 1), (1, 2)]))
    k = g.draw(6)
    if k == 0:
        t += "(Thread %d)" % g.uint(20)
    elif k == 1:
        t += "(LWP %d)" % lwp
        th["tid"] = lwp
    else:
        t += "(Thread 0x%x (LWP %d))" % (g.uint(47), lwp)
        th["tid"] = lwp
    t += ":\n"
    def frame(i=[0]):
        n = i[0] if g.bool(9, 10) else g.uint(32)
        ft, f = gen_frame(g, n) if top is None or i[0] else (top[0], dict(top[1]))
        i[0] += 1
        return ft + gen_vars(g) + "\n", f
    for ft, f in g.many(frame, g.int(1, hi)):
        th["frames"].append(f)
        t += ft
    return t, th


HEAD = ["[New LWP 1234]", "[Thread debugging using libthread_db enabled]", "Using host libthread_db library \"/lib64/libthread_db.so.1\".", "[New Thread 0x7f (LWP 12)]",
        "Core was generated by `/usr/bin/foo --bar'.", "Program terminated with signal 11, Segmentation fault.", "warning: .dynamic section for \"/lib/ld.so\" is not at the expected address",
        "Reading symbols from /usr/bin/foo...done.", "", "From here to there", "Threads: 2", " #0 x () at y", " Thread 1 (LWP 2):"]


def gen_head(g):
    return "".join(g.choice(HEAD) + "\n" for _ in range(g.int(1, 4)))


TITLE = ["From                To                  Syms Read   Shared Object Library\n", "From      To      Syms Read      Shared Object Library\n",
         "From To Syms Read Shared Object Library\n", "From\tTo\t\tSyms Read\tShared Object Library\n"]
TAIL = ["(*): Shared library is missing debugging information.\n", "\nNo symbol table is loaded.\n", "$1 = 0x0\n", "\n", "No symbol \"__abort_msg\" in current context.\n", "rax  0x1  1\n", "Yesterday\n",
        "", "0x1 nothing\n"]
NAMES = ["/lib64/libc.so.6", "/lib64/libpthread.so.0", "/usr/lib64/libfoo-1.2.so", "/lib64/ld-linux-x86-64.so.2", "/usr/lib/my lib/x.so", "libz.so", "/usr/bin/prog", "x", "/a.so.d/libq.so.1.so"]


def gen_table(g, ranges=None, end=None):
    """(text, libraries); the text ends the table by itself unless it is the end of the input."""
    t = g.choice(TITLE)
    libs = []
    a = g.uint(40)
    for _ in range(g.count(g.draw(6)) if ranges is None else len(ranges)):
        sym = g.choice(["Yes", "Yes (*)", "No"])
        so = g.choice(NAMES) if g.bool(3, 4) else "/" + free(g, "\n", 12).strip(" \t")
        if g.bool(1, 8) and ranges is None:
            fr = to = st.U64
            t += " " * g.int(1, 40) if g.bool(3, 4) else g.choice(["\t", " \t\t ", "\t   "])
        else:
            if ranges is None:
                fr = a + g.draw(3)
                to = fr + g.uint(16)
                a = g.choice([to, to + 1, to + g.uint(16), g.uint(64)]) & st.U64 - (1 << 20)
            else:
                fr, to = ranges[len(libs)]
            w = g.choice(["0x%016x", "0x%x", "0x%08x"])
            t += w % fr + " " * g.int(1, 3) + w % to + " " * g.int(1, 3)
        t += sym + " " * g.int(1, 14) + so + "\n"
        libs.append({"from": fr, "to": to, "symbols": {"Yes": 0, "No": 1, "Yes (*)": 2}[sym], "soname": so})
    return t, libs


def gen_trace(g, hi=6, threads=4):
    """(text, stack)"""
    s = dict(type="gdb", **st.stack_default("gdb"))
    s["threads"], s["libs"], s["crash"] = [], [], None
    t = gen_head(g)
    table, libs = "", []
    if g.bool():
        table, libs = gen_table(g)
        table += g.choice(TAIL[:-2]) or "-\n"
    at = g.draw(3)
    if at == 0:
        t += table
    if g.bool(4, 5):
        ft, f = gen_frame(g, g.weighted([(8, 0), (1, g.uint(32))]))
        s["crash"] = f
        t += ft + gen_vars(g) + "\n"
    if at == 1:
        t += table
    if s["crash"] is not None and g.bool(1, 10):
        # frames of one thread without header
        th = dict(number=0, tid=st.U32, frames=[])
        t += "[no threads]\n\n"
        for i in range(g.int(1, hi)):
            ft, f = gen_frame(g, i)
            th["frames"].append(f)
            t += ft + gen_vars(g) + "\n"
        s["threads"].append(th)
    else:
        for tt, th in g.many(lambda: gen_thread(g, hi, (ft, f) if s["crash"] is not None and g.bool(1, 3) else None), g.int(1, threads), 40):
            t += "\n" * g.weighted([(6, 1), (1, 0), (1, 2)]) + tt
            s["threads"].append(th)
    if at == 2:
        t += table
    s["libs"] = libs
    return t, s
