"""Printer of kernel oopses together with what they state."""
from .gen import *
from . import stacks as st

LETTERS = "PFSRMBUDAWCIOELK"
MARKS = ["IRQ", "NMI", "#DF", "#DB", "SOFTIRQ", "TASK", "ENTRY_TRAMPOLINE", "UNK", "HARDIRQ", "#DB-1", "NMI_2", "A-B:c(d)"]
ENDS = ["<EOI>", "<<EOE>>", "<EOE>"]


def func(g):
    k = g.draw(8)
    if k == 0:
        return g.choice(["do_softirq", "dump_stack", "kthread", "from", "Modules", "?", "0x", "0", "abc", "fa", "sys_init_module", "ret_from_fork", "_raw_spin_lock_irqsave", "RIP", "__x64_sys_x", "EOI>"])
    if k == 1:
        return ident(g) + g.choice([".isra.50.constprop.56", ".part.8", ".constprop.0", ".cold", ".llvm.123", "$x", ">", "-", "/", "::x", "[", "]"])
    return ident(g, 14)


def module(g):
    k = g.draw(6)
    if k == 0:
        return ident(g) + g.choice(["(PO)", "(OF+)", "(+)", "(OE)", "(F-)", "(P)"])
    return ident(g, 12)


def hexa(g):
    return g.choice(["0x%x", "0x%x", "0x%04x", "0x%X"])


def gap(g):
    return g.weighted([(6, " "), (1, ""), (1, "  "), (1, "\t")])


def address(g):
    return g.weighted([(3, 0xffffffff81000000 + g.uint(24)), (2, 0xc0000000 + g.uint(24)), (2, g.uint(64)), (1, 1)])


def brackets(g, a):
    s = g.choice(["%016x", "%016x", "%08x", "%x", "%X"]) % a
    return "[<" + s + ">]" if g.bool(5, 6) else "[" + s + "]"


def symbol(g, f, prefix="", paren=False, mods=True):
    """name+offset/length [module]; fills in f."""
    f[prefix + "function_name"] = n = func(g)
    o, l = g.weighted([(5, g.uint(12)), (1, g.uint(64))]), g.weighted([(5, g.uint(13)), (1, g.uint(64))])
    f[prefix + "function_offset"], f[prefix + "function_length"] = o, l
    t = n + "+" + hexa(g) % o + "/" + hexa(g) % l
    if mods and g.bool(1, 3):
        f[prefix + "module_name"] = m = module(g)
        t += gap(g) + "[" + m + "]"
        if not paren and g.bool(1, 10):
            t += " "
    return "(" + t + ")" if paren else t


def gen_frame(g):
    """(line without newline, frame)"""
    f = st.frame_default("koops")
    f["reliable"] = 1
    k = g.draw(12)

    def q():
        if g.bool(1, 3):
            f["reliable"] = 0
            return "?" + gap(g)
        return ""
    if k <= 3:                         # x86: [<address>] ? symbol [module]
        f["address"] = address(g)
        t = brackets(g, f["address"]) + gap(g) + q() + symbol(g, f)
    elif k <= 5:                       # recent: symbol only
        t = q() + symbol(g, f)
    elif k == 6:                       # s390: ([<address>] symbol)
        f["address"] = address(g)
        t = "(" + brackets(g, f["address"]) + gap(g) + q() + (symbol(g, f) if g.bool(5, 6) else "0x%x" % f["address"]) + ")" + g.choice(["", "", " "])
    elif k == 7:                       # without symbol
        f["address"] = a = address(g)
        if g.bool():
            t = brackets(g, a) + gap(g) + q() + "0x%x" % g.choice([a, a, g.uint(32)])
            if g.bool(1, 5):
                f["module_name"] = module(g)
                t += g.choice([" ", "  ", "\t"]) + "[" + f["module_name"] + "]"
        else:
            t = "0x%x" % a
    elif k == 8:                       # PowerPC: [stack pointer] [address] .symbol (unreliable)
        f["address"] = address(g)
        t = brackets(g, g.uint(64)) + gap(g) + brackets(g, f["address"]) + gap(g)
        if g.bool():
            t += "."
            t += symbol(g, f)
        else:
            t += symbol(g, f)
        if g.bool(1, 3):
            f["reliable"] = 0
            t += " (unreliable)"
    elif k <= 10:                      # ARM: [<address>] (symbol) from [<address>] (symbol)
        f["address"], f["from_address"] = address(g), address(g)
        t = brackets(g, f["address"]) + gap(g) + q() + symbol(g, f, paren=True) + " from" + (gap(g) or " ") + brackets(g, f["from_address"]) + gap(g) + symbol(g, f, "from_", True)
    else:                              # ARM: [<address>] (name) from [<address>] (symbol)
        f["address"], f["from_address"] = address(g), address(g)
        f["function_name"] = func(g)
        t = brackets(g, f["address"]) + gap(g) + q() + "(" + f["function_name"] + ")" + " from" + (gap(g) or " ") + brackets(g, f["from_address"]) + gap(g) + symbol(g, f, "from_", True)
    return t, f


def ambiguous(f):
    n = f["function_name"]
    return n is not None and (n[0] in "?[(.<" or n.startswith("0x")) or (f["from_function_name"] or "x")[0] in "[("


def frame(g):
    while True:
        t, f = gen_frame(g)
        if not ambiguous(f):
            return t, f
        g.draw(2)


def stamp(g):
    return "[" + g.choice(["%5d.%06d" % (g.draw(99999), g.draw(1000000)), "%d.%06d" % (g.uint(40), g.draw(1000000)), "    0.000000"]) + "]"


OTHER = ["------------[ cut here ]------------", "WARNING: at /tmp/will_oops.c:11", "Call Trace:", "task: 000000007ffa9998 ti: 0000000059e1c000 task.ti: 0000000059e1c000",
         "Hardware name: Gigabyte Technology Co., Ltd. EP45-UD3L/EP45-UD3L, BIOS F4 02/24/2009", " 0000000000000009 ffff88022259da58 ffffffff816606a8 ffff88022259da98",
         "Code: 8b 55 00 48 89 <0f> 0b e8", "RSP: 0018:ffff8801243fb958  EFLAGS: 00010246", "RAX: 0000000000000000 RBX: ffff880124", "FS:  00007f00(0000) GS:ffff88(0000) knlGS:0000",
         "---[ end trace 4e37b1eb61ae9844 ]---", "Krnl GPRS: 0000000000010000 070000000020db8e", "           000003ff8086d03a: a7290000           lghi    %r2,0", "", "",
         "lock: 0xc3358724, .magic: dead4ead", "NIP [c000000008068dfc] .eeh_dev_check_failure+0x27c/0x390", "LR [c000000008068df8] .eeh+0x278/0x390", "PC is at shmem_getpage_gfp+0x584/0x72c",
         "RIP  [<ffffffff81171b02>] find_get_entry+0x42/0xc0", "EIP is at wdev_priv.part.8+0x3/0x5 [wl]", "EIP: 0060:[<f8e40765>] EFLAGS: 00210246 CPU: 1", "EFLAGS: 00210246 CPU: 1",
         "INFO: Freed in hotkey_exit+0x50/0xb0 [thinkpad_acpi] age=14 cpu=1 pid=1333", " #0:  (&(&host->lock)->rlock#2){-.-...}, at: [<bf054120>] mxs+0x18/0xdc [mxs_mmc]",
         "[<ffffffff8>", "[<zzz>] foo+0x1/0x2", "foo+0x1", "(foo+0x1/0x2", "stack backtrace:", "Not tainted", "[drm] x", "[   1.2", "RIP: 0033:0x7fd1f18192fb", "a + b", "Trace; x+0x1/0x2 y",
         "Pid: 802, comm: wpa_supplicant Not tainted 3.6.1 #1", "CPU: 1 PID: 42 Comm: kswapd0 Not tainted 3.10.4 #1", "CR2: 0000000000000008", "irq event stamp: 12"]
NEXT = ["Pid: 802, comm: x Not tainted 3.6.1", "CPU: 1 PID: 42 Comm: kswapd0 Not tainted 3.10.4 #1", "CPU 1 ", "irq event stamp: 12", "CR2: 00000000deadbeef", "CR2: deadbeef", "CR2: ffff88012", "CPU:3"]


def taint(g, s):
    letters = [c if g.bool(1, 3) else " " for c in LETTERS]
    k = g.draw(3)
    if k == 0:
        t = "G" + "".join(letters)
    elif k == 1:
        t = "".join(c for c in letters if c != " ") or "G"
        t = "".join(g.shuffle(list(t)) or t) if g.bool() else t
    else:
        t = g.choice("GP") + " " * g.draw(9) + "".join(letters) + g.choice(["", "T", "X", "N", "J", "H"])
    for c in t:
        if c in LETTERS:
            s["taint_" + st.FLAGS[LETTERS.index(c)]] = 1
    return "Tainted: " + t + g.choice(["\n", " 3.10.4-100.fc18.x86_64 #1\n", "   3.6.1 #1 Hewlett-Packard\n", "-------------- 3.10\n", " ------------   3.10.0-54.0.1.el7.s390x #1\n", " 4.2.8-yocto #1\n"])


def gen_modules(g, nostamp):
    """(text from "Modules linked in:" to the newline after the list, modules, must be followed by a line of NEXT or of a timestamp)"""
    t = "Modules linked in:"
    mods = []
    if g.bool(1, 12):
        return t + g.choice(["", " "]), mods
    tight = True
    for i in range(g.weighted([(12, g.int(1, 6)), (4, g.int(15, 45)), (1, g.int(46, 140))])):
        m = module(g)
        mods.append(m)
        if i and g.bool(1, 12):
            # the list goes on in the next line
            t += g.choice([" \n" + m, "\n " + m, " \n  " + m, "  \n" + m])
        elif len(m) > 2 and g.bool(1, 25):
            j = g.int(1, len(m) - 1)
            t += " " + m[:j] + "\n" + m[j:]
        else:
            t += g.weighted([(8, " "), (1, "  "), (1, "\t")]) + m
    k = g.draw(6)
    if k == 0:
        t += " "
    elif k == 1:
        t += " [last unloaded: " + module(g) + "]"
    return t, mods


def gen_oops(g, hi=8):
    """(text, stack)"""
    s = dict(type="koops", **st.stack_default("koops"))
    s["frames"] = []
    stamped = g.bool()
    out = []
    items = []
    if g.bool(2, 3):
        items += ["taint"] * g.weighted([(5, 1), (1, 2)])
    if g.bool(2, 3):
        items.append("modules")
    ip = g.weighted([(3, None), (2, "RIP"), (1, "EIP")])
    if ip:
        items += ["ip"] * g.weighted([(5, 1), (1, 2)])
    items += ["other"] * g.draw(5)
    items = g.shuffle(items)
    n = g.weighted([(30, g.draw(hi + 1)), (1, g.int(10, 150))])
    at = g.draw(len(items) + 1)
    items[at:at] = ["frame"] * n
    if g.bool(1, 4):
        items.append("stop")
    special = None
    frames = []
    first = None
    text = g.choice(["BUG: unable to handle kernel paging request at 0000", "general protection fault: 0000 [#1] SMP", "WARNING: at x.c:1 foo+0x1/0x2()", "------------[ cut here ]------------", "[12.5] bad",
                     "INFO: possible recursive locking detected", "", "a\rb", "x\ty \x01\xc3\xbc ", "BUG: \"quoted\" \\ line \x0b", "z" * 300]) if g.bool(3, 4) else None
    lines = [] if text is None else [(text, False)]
    tainted = False
    for it in items:
        pre = " " * g.weighted([(3, 0), (3, 1), (1, 3)])
        if it == "other":
            lines.append((pre + g.choice(OTHER), True))
        elif it == "taint":
            lead = g.choice(["CPU: 3 PID: 27 Comm: khungtaskd ", "Pid: 802, comm: wpa_supplicant ", "3.4.0 #37 ", ""])
            # only the first one counts
            t = taint(g, {} if tainted else s)[:-1]
            tainted = True
            lines.append((lead + t, True))
        elif it == "modules":
            t, s["modules"] = gen_modules(g, not stamped)
            lines.append((t, True, "modules"))
        elif it == "ip":
            f = st.frame_default("koops")
            f["reliable"] = 1
            a = f["address"] = address(g)
            if ip == "RIP":
                b = brackets(g, a)
                t = "RIP: 0010:" + b + g.choice(["  ", "  ", " ", "\t"]) + b + g.choice([" ", "  "])
                if g.bool(1, 6):
                    f["reliable"] = 0
                    t += "? "
                t += symbol(g, f)
            else:
                t = "EIP: " + brackets(g, a) + " "
                if g.bool(1, 6):
                    f["reliable"] = 0
                    t += "? "
                t += symbol(g, f) + g.choice([" SS:ESP 0068:f180dbf8", "", " x"])
            if ambiguous(f):
                lines.append(("Call Trace:", True))
                continue
            if first is None:              # only the first one counts
                first = f
            lines.append((t, True))
        elif it == "frame":
            ft, f = frame(g)
            marks = ""
            if special is not None and g.bool(1, 3):
                marks += g.choice(ENDS) + g.choice([" ", "  ", ""])
                special = None
            if g.bool(1, 5):
                special = g.choice(MARKS)
                marks += "<" + special + ">" + g.choice([" ", "  ", ""])
            if marks and g.bool(1, 4):
                lines.append((pre + marks.strip(), True))
                marks = ""
            f["special_stack"] = special
            lines.append((pre + marks + ft, True))
            frames.append(f)
        else:
            lines.append(("Last Breaking-Event-Address:", True))
            lines.append((frame(g)[0], True))
            if g.bool():
                lines.append((" <IRQ> " + frame(g)[0], True))
    out = []
    for i, l in enumerate(lines):
        t = l[0]
        if stamped and l[1]:
            t = stamp(g) + " " + t
        out.append(t)
        if len(l) > 2:
            # what follows the list must not look like its continuation
            if not (stamped or "[last" in t or i + 1 == len(lines)):
                out.append(g.choice(NEXT))
    text = "\n".join(out) + g.choice(["\n", "\n", ""])
    s["frames"] = ([first] if first else []) + frames
    s["raw_oops"] = text
    s["reason"] = text.split("\n")[0]
    return text, s
