"""Reference model of trace normalisation (transcribed from the documented tables, not read from the tree)."""

# function -> parts of the source file or library name, one of which must occur
REMOVABLE = {
    'may_core_dump': ['os_unix.c'],
    'mch_exit': ['os_unix.c'],
    'os::abort': ['os_linux.cpp'],
    'VMError::report_and_die': ['vmError.cpp'],
    'JVM_handle_linux_signal': ['os_linux_x86.cpp'],
    'gerror_to_dbus_error_message': ['dbus-gobject.c'],
    'dbus_g_method_return_error': ['dbus-gobject.c'],
    'message_queue_dispatch': ['dbus-gmain.c'],
    '_dbus_abort': ['dbus-sysdeps.c', 'libdbus'],
    'dbus_connection_dispatch': ['dbus-connection.c', 'libdbus'],
    'gdk_x_error': ['gdkmain-x11.c'],
    'gdk_threads_dispatch': ['gdk.c'],
    'gdk_event_dispatch': ['gdkevents-x11.c', 'gdkevents.c'],
    'gdk_event_source_dispatch': ['gdkeventsource.c'],
    '_gdk_x11_display_error_event': ['gdkdisplay-x11.c', 'libgdk'],
    'g_log': ['gmessages.c', 'libglib'],
    'g_logv': ['gmessages.c', 'libglib'],
    'g_assertion_message': ['gtestutils.c', 'libglib'],
    'g_assertion_message_expr': ['gtestutils.c', 'libglib'],
    'g_closure_invoke': ['gclosure.c', 'libgobject'],
    'g_free': ['gmem.c', 'libglib'],
    'g_type_class_meta_marshal': ['gclosure.c', 'libglib'],
    'g_signal_emit_valist': ['gsignal.c', 'libgobject'],
    'signal_emit_unlocked_R': ['gsignal.c', 'libgobject'],
    'g_signal_emit': ['gsignal.c', 'libgobject'],
    'g_idle_dispatch': ['gmain.c', 'gutf8.c'],
    'g_object_dispatch_properties_changed': ['gobject.c', 'libgobject'],
    'g_object_notify_dispatcher': ['gobject.c', 'libgobject'],
    'g_object_unref': ['gobject.c', 'libgobject'],
    'g_object_run_dispose': ['gobject.c', 'libgobject'],
    'g_object_new': ['gobject.c', 'libgobject'],
    'g_object_newv': ['gobject.c', 'libgobject'],
    'g_main_context_dispatch': ['gmain.c', 'libglib'],
    'g_main_context_iterate': ['gmain.c', 'libglib'],
    'g_main_dispatch': ['gmain.c', 'libglib'],
    'g_main_loop_run': ['gmain.c', 'libglib'],
    'g_timeout_dispatch': ['gmain.c', 'libglib'],
    'g_thread_pool_thread_proxy': ['gthreadpool.c', 'libglib'],
    'g_thread_create_proxy': ['gthread.c', 'libglib'],
    'g_cclosure_marshal_VOID__BOXED': ['gmarshal.c', 'libgobject'],
    'g_cclosure_marshal_VOID__VOID': ['gclosure.c', 'gmarshal.c', 'libgobject'],
    'g_object_notify': ['gobject.c', 'libgobject'],
    'Glib::exception_handlers_invoke()': ['libglibmm'],
    'g_signal_handlers_destroy': ['gsignal.c', 'libgobject'],
    'g_vasprintf': ['gprintf.c', 'libglib'],
    'g_strdup_vprintf': ['libglib'],
    'g_strdup_printf': ['libglib'],
    'g_print': ['libglib'],
    'invalid_closure_notify': ['gsignal.c', 'libgobject'],
    'smc_tree_abort': ['gslice.c', 'libglib'],
    'g_thread_abort': ['libglib'],
    '_g_log_abort': ['gmessages.c', 'libglib'],
    'g_log_default_handler': ['gmessages.c', 'libglib'],
    'g_log_writer_default': ['gmessages.c', 'libglib'],
    'g_log_structured_array': ['gmessages.c', 'libglib'],
    'g_log_structured': ['gmessages.c', 'libglib'],
    'default_log_handler': ['main.c'],
    'g_signal_emit_by_name': ['gsignal.c', 'libgobject'],
    '__gnu_cxx::__verbose_terminate_handler': ['vterminate.cc'],
    '__cxxabiv1::__terminate': ['eh_terminate.cc'],
    'std::terminate': ['eh_terminate.cc'],
    '__cxxabiv1::__cxa_throw': ['eh_throw.cc'],
    '__cxxabiv1::__cxa_rethrow': ['eh_throw.cc'],
    '__verbose_terminate_handler': ['vterminate.cc'],
    '__cxxabiv1::__cxa_pure_virtual': ['pure.cc'],
    '__kernel_vsyscall': [''],
    '_XReply': ['xcb_io.c'],
    '_XError': ['XlibInt.c'],
    'XSync': ['Sync.c'],
    'process_responses': ['xcb_io.c'],
    'OsSigHandler': ['osinit.c'],
    'FatalError': ['log.c'],
    'AbortServer': ['log.c'],
    'AbortDDX': ['xf86Init.c'],
    'ddxGiveUp': ['xf86Init.c'],
    'OsAbort': ['utils.c'],
    'handle_error': ['xcb_io.c', 'libX11'],
    '_XIOError': ['XlibInt.c', 'libX11'],
    '_XEventsQueued': ['xcb_io.c', 'libX11'],
    'handle_response': ['xcb_io.c', 'libX11'],
    '_start': [''],
    '__libc_start_main': ['libc'],
    'clone': ['clone.S', 'libc'],
    'poll': ['libc'],
    '_IO_new_fclose': ['iofclose.c', 'libc'],
    '_IO_vfprintf_internal': ['vfprintf.c', 'libc'],
    '_IO_default_xsputn': ['genops.c', 'libc'],
    '_IO_wdefault_xsputn': ['wgenops.c', 'libc'],
    '__libc_message': ['libc_fatal.c', 'libc'],
    'start_thread': ['pthread_create.c', 'libpthread'],
    'assert_cursor': ['intel_display.c'],
    'assert_device_not_suspended': ['intel_uncore.c'],
    'assert_pipe': ['intel_display.c'],
    'assert_plane': ['intel_display.c'],
    'assert_transcoder_disabled': ['intel_display.c'],
    'btrfs_assert_delayed_root_empty': ['delayed-inode.c', 'btrfs'],
    '_cogl_set_error': ['cogl-error.c', 'libcogl'],
    'defaultCrashHandler': ['kcrash.cpp', 'libKF5Crash'],
    '_dl_signal_error': ['dl-error.c', 'ld-linux'],
    'error_dialog_response_cb': [''],
    'do_warn': ['_warnings.c', 'libpython'],
    'QMessageLogger::fatal(char const*, ...) const': [''],
    'nsProfileLock::FatalSignalHandler(int, siginfo_t*, void*)': [''],
    'qt_message_output': ['qglobal.cpp', 'libQtCore'],
    'qt_message_output(QtMsgType, char const*)': [''],
    'signalHandler(int, siginfo_t*, void*)': [''],
    'FatalSignalHandler': ['nsProfileLock.cpp', 'libxul'],
    'Foam::error::abort()': [''],
    'JS_AbortIfWrongThread': ['libmozjs'],
    'Crash::defaultCrashHandler(int)': ['libkdeui', 'libKF5Crash'],
    'Py_FatalError': ['pythonrun.c', 'libpython'],
    '__btrfs_abort_transaction': ['btrfs'],
    'assert_pch_hdmi_disabled': [''],
    'assert_pll': [''],
    'core::system::abort()': [''],
    'ddd_assert_fail': ['assert.C'],
    'debug_dma_assert_idle': [''],
    'error_handler': [''],
    'fatal_error_signal': [''],
    'fatal_handler': ['signal.c', 'libfreerdp'],
    'gpf_notice': [''],
    'log': [''],
    '_log': [''],
    'log_assert_failed': [''],
    'mozalloc_abort': ['mozalloc_abort.cpp', 'libmozalloc'],
    'mozalloc_abort(char const*)': ['libmozalloc', 'content-container', 'plugin-container'],
    'note_interrupt': ['spurious.c', 'vmlinux'],
    'print_bad_pte': ['memory.c', 'vmlinux'],
    'print_oops_end_marker': ['panic.c', 'vmlinux'],
    'printk': ['printk.c', 'vmlinux'],
    'qupzilla_signal_handler': ['main.cpp', 'qupzilla'],
    'rb_bug': ['error.c', 'libruby'],
    'sighandler': [''],
    'signalHandler(int)': [''],
    'signal_abort': ['signal.c'],
    'signal_handler': [''],
    'sys_abort': ['error.c', 'libgfortran'],
    'terminate_due_to_signal': ['emacs.c', 'emacs'],
    'wl_log': ['wayland-util.c'],
    'display_protocol_error': ['wayland-client.c'],
    'display_handle_error': ['wayland-client.c'],
    'x_io_error': ['libmutter', 'meta-xwayland.c'],
    '__ioremap_calle': ['ioremap.c'],
    'ioremap_nocache': ['ioremap.c'],
    'wpa_msg': ['wpa_debug.c'],
    'js::gc::FinalizeArenas(js::FreeOp*, js::gc::ArenaHeader**, js::gc::ArenaList&, js::gc::AllocKind, js::SliceBudget&)': [''],
    'js::Shape::finalize(js::FreeOp*)': [''],
    'WTF::StringImpl::endsWith(char const*, unsigned int, bool) const': [''],
    'mozilla::plugins::child::_invokedefault(_NPP*, NPObject*, _NPVariant const*, unsigned int, _NPVariant*)': [''],
    'xitk_signal_handler': ['xitk.c', 'xine'],
    'dump_gjs_stack_on_signal_handler': ['main.c'],
    'meta_run': ['libmutter', 'main.c'],
}

_ANY = ["__assert_fail", "__assert_fail_base", "__chk_fail", "__longjmp_chk", "__malloc_assert", "__strcat_chk", "__strcpy_chk", "__strncpy_chk",
        "__vsnprintf_chk", "___vsnprintf_chk", "__snprintf_chk", "___snprintf_chk", "__vasprintf_chk", "__vsprintf_chk", "___sprintf_chk",
        "__fwprintf_chk", "__asprintf_chk", "___printf_chk", "___fprintf_chk", "__vswprintf_chk"]
# removed together with everything above
WITH_ABOVE = {n: [""] for n in _ANY}
WITH_ABOVE.update({n: ["malloc.c", "libc"] for n in ("malloc_consolidate", "malloc_printerr", "_int_malloc", "_int_free", "_int_realloc")})
WITH_ABOVE.update({n: ["malloc.c"] for n in ("_int_memalign", "__libc_free", "__libc_malloc", "__libc_memalign", "__libc_realloc", "__posix_memalign",
                                             "__libc_calloc")})
WITH_ABOVE["__libc_fatal"] = ["libc"]
ARCH = ["memchr", "memcmp", "memcpy", "memmove", "memset", "rawmemchr", "strcasecmp", "strcasecmp_l", "strcat", "strchr", "strchrnul", "strcmp", "strcpy",
        "strcspn", "strlen", "strncmp", "strncpy", "strpbrk", "strrchr", "strspn", "strstr", "strtok"]
SUFFIX = ["_sse2", "_sse2_bsf", "_ssse3", "_ssse3_rep", "_ssse3_back", "_sse42", "_ia32"]
GDB_EXIT = {"__run_exit_handlers": ["exit.c"], "raise": ["pt-raise.c", "libc.so", "libc-", "libpthread.so", "raise.c"], "__GI_raise": ["raise.c"],
            "exit": ["exit.c"], "abort": ["abort.c", "libc.so", "libc-"], "__GI_abort": ["abort.c"], "__chk_fail": ["chk_fail.c", "libc.so"],
            "__stack_chk_fail": ["stack_chk_fail.c", "libc.so"], "do_exit": ["exit.c"], "kill": ["syscall-template.S"]}
CORE_EXIT = {"__run_exit_handlers": None, "raise": ["libc.so", "libc-", "libpthread.so"], "__GI_raise": None, "exit": None, "abort": ["libc.so", "libc-"],
             "__GI_abort": None, "__chk_fail": ["libc.so"], "__stack_chk_fail": ["libc.so"], "kill": None}
KOOPS = ["do_softirq", "do_vfs_ioctl", "dump_stack", "flush_kthread_worker", "gs_change", "irq_exit", "kernel_thread_helper", "kthread", "process_one_work",
         "system_call_fastpath", "warn_slowpath_common", "warn_slowpath_fmt", "warn_slowpath_fmt_taint", "warn_slowpath_null", "worker_thread"]


def has(table, fn, src):
    if fn is None or fn not in table:
        return False
    t = table[fn]
    return t is None or (src is not None and any(x in src for x in t))


def is_exit(t, f):
    return has(GDB_EXIT, f["function_name"], f["source_file"]) if t == "gdb" else has(CORE_EXIT, f["function_name"], f["file_name"])


def exit_frame(t, frames):
    """Index of the deepest exit frame or None."""
    ix = [i for i, f in enumerate(frames) if is_exit(t, f)]
    return ix[-1] if ix else None


def strip_prefix(fn):
    if fn is None:
        return None
    for p, n in (("IA__gdk", 4), ("IA__g_", 4), ("IA__gtk", 4), ("__GI_", 5)):
        if fn.startswith(p):
            fn = fn[n:]
    return fn


def unify(fn, src):
    if fn is None or src is None or not fn.startswith("__"):
        return fn
    for b in ARCH:
        for s in SUFFIX:
            if fn == "__" + b + s and (b in src or ("/sysdeps" if s == "_ia32" else "/sysdeps/") in src or "libc.so" in src):
                return b
    return fn


def anonymize(p):
    if p is not None and p.startswith("/home/"):
        k = p.find("/", 6)
        if k >= 0:
            return "/home/anonymized" + p[k:]
    return p


def userspace(t, frames):
    """Normalised copy of the frames of a GDB or core thread."""
    src = "source_file" if t == "gdb" else "file_name"
    fr = [dict(f) for f in frames]
    k = exit_frame(t, fr)
    if k is not None:
        fr = fr[k + 1:]
    for f in fr:
        if t == "core" or f[src] is not None:
            f["function_name"] = strip_prefix(f["function_name"])
        f["function_name"] = unify(f["function_name"], f[src])
    cut = [i for i, f in enumerate(fr) if has(WITH_ABOVE, f["function_name"], f[src]) or is_exit(t, f)]
    if cut:
        fr = fr[cut[-1] + 1:]
    fr = [f for f in fr if not has(REMOVABLE, f["function_name"], f[src])]
    if t == "core":
        for f in fr:
            f["file_name"] = anonymize(f["file_name"])
    null = lambda f: f["address"] == 0 and f["function_name"] == ("??" if t == "gdb" else None)
    if fr and null(fr[0]):
        fr = fr[1:]
    if fr and null(fr[-1]):
        fr = fr[:-1]
    out = []
    for f in fr:
        p = out[-1]["function_name"] if out else None
        same = bool(out) and p == f["function_name"] and (p != "??" if t == "gdb" else p is not None)
        if not same:
            out.append(f)
    return out


def koops(frames):
    fr = [dict(f) for f in frames]
    for f in fr:
        if f["function_name"] is not None:
            f["function_name"] = f["function_name"].split(".", 1)[0]
    return [f for f in fr if f["module_name"] is not None or f["function_name"] not in KOOPS]


def normalize(t, frames):
    if t in ("gdb", "core"):
        return userspace(t, frames)
    if t == "koops":
        return koops(frames)
    return [dict(f) for f in frames]


# ------------------------------------------------------------------ generation
NAMES = sorted(REMOVABLE)
OTHER = ["main", "foo", "bar", "baz", "operator()", "foo", "bar", "do_something", "memcpy", "g_main_loop", "poll2", "abort2", "__strlen_avx2", "raise_it"]
PLAIN_SRC = ["foo.c", "/usr/lib64/libfoo.so.1", "bar.cpp", "/home/joe/src/x.c", "../sysdeps/unix/x.S", "/home/ann/lib/libc.so.6", ""]


NEAR_SRC = ["/usr/lib64/libc-2.33.so", "/lib64/libcrypto.so.3", "/lib64/libcurl.so.4", "/lib64/libcap-ng.so.0", "/lib64/libc.so.6", "/lib64/libpthread-2.33.so",
            "/lib64/libpthread.so.0", "/lib64/libglib-2.0.so.0", "/lib64/libgobject-2.0.so.0", "libc", "libc-", "lib", "malloc.h", "exit.cc", "my-exit.c", "raise.c",
            "pt-raise.c", "abort.c", "../sysdeps/x86_64/syscall-template.S", "../sysdeps/strlen.S", "/sysdep/x", "assert.c", "main.c", "vmlinux", "emacs"]


def pair_model(a, b):
    """Unknown functions of two threads that sit between the same known neighbours get a common name."""
    a, b = [dict(f) for f in a], [dict(f) for f in b]
    n = [0]
    unk = lambda f: f["function_name"] == "??"
    libs = lambda x, y: x["library_name"] is None or y["library_name"] is None or x["library_name"] == y["library_name"]

    def after(i, j):
        x, y = (a[i + 1] if i + 1 < len(a) else None), (b[j + 1] if j + 1 < len(b) else None)
        if x is None or y is None:
            return x is y
        return x["function_name"] == y["function_name"] and not unk(x) and libs(x, y)

    def name(i, j):
        a[i]["function_name"] = b[j]["function_name"] = "__unknown_function_%d" % n[0]
        n[0] += 1
    if a and b:
        if unk(a[0]) and unk(b[0]) and libs(a[0], b[0]) and after(0, 0):
            name(0, 0)
        for i in range(1, len(a)):
            if unk(a[i]):
                for j in range(1, len(b)):
                    if unk(b[j]) and libs(a[i], b[j]) and not unk(b[j - 1]) and after(i, j) and libs(a[i - 1], b[j - 1]) and \
                            a[i - 1]["function_name"] == b[j - 1]["function_name"]:
                        name(i, j)
                        break
    return a, b


def gen_function(g, t):
    """(function name, source) with the source often one that matters for the name."""
    k = g.draw(12)
    tab = GDB_EXIT if t == "gdb" else CORE_EXIT
    if k <= 3:
        fn, parts = g.choice(OTHER), []
    elif k == 4:
        fn = g.choice(sorted(tab))
        parts = tab[fn] or []
    elif k == 5:
        fn = g.choice(sorted(WITH_ABOVE))
        parts = WITH_ABOVE[fn]
    elif k <= 7:
        fn = g.choice(NAMES)
        parts = REMOVABLE[fn]
    elif k == 8:
        b = g.choice(ARCH)
        fn, parts = "__" + b + g.choice(SUFFIX + ["_avx", "_sse3"]), [b, "/sysdeps/", "libc.so"]
    elif k == 9:
        fn, parts = g.choice(["IA__g_free", "IA__gdk_x_error", "IA__gtk_main", "IA__foo", "__GI_foo", "__GI___libc_free", "__GI___memcpy_sse2", "__GI_exit",
                              "__GI_strlen", "IA__g_log", "IA__g_", "__GI_", "__GI___assert_fail"]), ["malloc.c", "libc.so", "exit.c", "libglib"]
    elif k == 10:
        return None, g.choice([None] + PLAIN_SRC)
    else:
        fn, parts = ("??" if t == "gdb" or g.bool() else None), []
    r = g.draw(10)
    if parts and r < 7:
        p = g.choice(parts)
        if p and g.bool(1, 5):                      # nearly the part the table asks for
            p = g.choice([p[:-1], p[1:], p.replace(".", "_"), p.replace("-", "."), p[:-1] + "rypto", p.upper(), p[:len(p) // 2]])
        src = g.choice(["", "/usr/src/", "x", "/home/joe/"]) + p + g.choice(["", "", ".6", "x", ".d/other", "/x.c"])
    elif r == 7:
        src = None
    elif r == 8 and fn is not None:
        src = g.choice(NEAR_SRC)
        if fn not in ("??", "") and g.bool(1, 3):   # nearly the function of the table
            fn = g.choice([fn[:-1], fn + "_", "_" + fn, fn[1:], fn + "2", fn.upper()])
    else:
        src = g.choice(PLAIN_SRC)
    return fn, src


def gen_frame(g, t):
    from . import stacks as st
    if t == "koops":
        f = st.gen_frame(g, t, text=st.plain)
        k = g.draw(6)
        f["function_name"] = g.choice(KOOPS) if k <= 1 else g.choice(KOOPS) + g.choice([".isra.0", ".", "_x", ".part.3.constprop.0"]) if k == 2 else \
            None if k == 3 else g.choice(["do_IRQ", "schedule", "vfs_read.isra.3", ".text", "foo.constprop.1", "kthread2", "a.b.c", "do_softirq_own_stack", "dump"])
        f["module_name"] = g.choice([None, None, "kvm", ""])
        return f
    if t not in ("gdb", "core"):
        return st.gen_frame(g, t, text=st.plain)
    f = st.frame_default(t)
    fn, src = gen_function(g, t)
    f["function_name"] = fn
    f["source_file" if t == "gdb" else "file_name"] = src
    f["address"] = g.choice([0, 0, 1, 0x400000]) if fn in (None, "??") else g.choice([0, 0x1000, 0x7f0000000000 + g.draw(100)])
    if t == "gdb":
        f["number"] = g.draw(5)
        f["source_line"] = g.choice([(1 << 32) - 1, 1, 200])
        f["signal_handler_called"] = int(fn is None and g.bool())
        f["function_type"] = g.choice([None, None, "void", "char *"])
        f["library_name"] = g.choice([None, None, "/lib/libx.so"])
    else:
        f["build_id"] = g.choice([None, None, "0123abcd", "ff"])
        f["build_id_offset"] = g.choice([0, 5, (1 << 64) - 1])
        f["fingerprint"] = g.choice([None, None, "v1;h"])
    return f


def gen_frames(g, t, hi=9):
    fr = g.many(lambda: gen_frame(g, t), g.size(hi))
    if fr and g.bool(1, 4):                         # recursion
        i = g.draw(len(fr))
        fr[i:i] = [dict(fr[i]) for _ in range(g.int(1, 2))]
    return fr
