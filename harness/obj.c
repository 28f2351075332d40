#include "obj.h"
#include <string.h>
#include <stdlib.h>

#define O(s, f, k) { #f, k, offsetof(struct s, f) }
#define END { NULL, 0, 0 }

static const struct field core_frame_f[] = {
    O(sr_core_frame, address, F_U64), O(sr_core_frame, build_id, F_STR), O(sr_core_frame, build_id_offset, F_U64),
    O(sr_core_frame, function_name, F_STR), O(sr_core_frame, file_name, F_STR), O(sr_core_frame, fingerprint, F_STR),
    O(sr_core_frame, fingerprint_hashed, F_BOOL), END };
static const struct field core_thread_f[] = { O(sr_core_thread, id, F_I64), END };
static const struct field core_stack_f[] = { O(sr_core_stacktrace, signal, F_U16), O(sr_core_stacktrace, executable, F_STR),
    O(sr_core_stacktrace, only_crash_thread, F_BOOL), END };

static const struct field gdb_frame_f[] = {
    O(sr_gdb_frame, function_name, F_STR), O(sr_gdb_frame, function_type, F_STR), O(sr_gdb_frame, number, F_U32),
    O(sr_gdb_frame, source_file, F_STR), O(sr_gdb_frame, source_line, F_U32), O(sr_gdb_frame, signal_handler_called, F_BOOL),
    O(sr_gdb_frame, address, F_U64), O(sr_gdb_frame, library_name, F_STR), END };
static const struct field gdb_thread_f[] = { O(sr_gdb_thread, number, F_U32), O(sr_gdb_thread, tid, F_U32), END };
static const struct field gdb_stack_f[] = { O(sr_gdb_stacktrace, crash_tid, F_U32), END };
const struct field lib_fields[] = { O(sr_gdb_sharedlib, from, F_U64), O(sr_gdb_sharedlib, to, F_U64),
    O(sr_gdb_sharedlib, symbols, F_INT), O(sr_gdb_sharedlib, soname, F_STR), END };

static const struct field java_frame_f[] = {
    O(sr_java_frame, name, F_STR), O(sr_java_frame, file_name, F_STR), O(sr_java_frame, file_line, F_U32),
    O(sr_java_frame, class_path, F_STR), O(sr_java_frame, is_native, F_BOOL), O(sr_java_frame, is_exception, F_BOOL),
    O(sr_java_frame, message, F_STR), END };
static const struct field java_thread_f[] = { O(sr_java_thread, name, F_STR), END };
static const struct field java_stack_f[] = { END };

static const struct field js_frame_f[] = {
    O(sr_js_frame, file_name, F_STR), O(sr_js_frame, file_line, F_U32), O(sr_js_frame, line_column, F_U32),
    O(sr_js_frame, function_name, F_STR), END };
static const struct field js_stack_f[] = { O(sr_js_stacktrace, exception_name, F_STR), O(sr_js_stacktrace, platform, F_U32), END };

static const struct field koops_frame_f[] = {
    O(sr_koops_frame, address, F_U64), O(sr_koops_frame, reliable, F_BOOL), O(sr_koops_frame, function_name, F_STR),
    O(sr_koops_frame, function_offset, F_U64), O(sr_koops_frame, function_length, F_U64), O(sr_koops_frame, module_name, F_STR),
    O(sr_koops_frame, from_address, F_U64), O(sr_koops_frame, from_function_name, F_STR),
    O(sr_koops_frame, from_function_offset, F_U64), O(sr_koops_frame, from_function_length, F_U64),
    O(sr_koops_frame, from_module_name, F_STR), O(sr_koops_frame, special_stack, F_STR), END };
#define KS(f, k) O(sr_koops_stacktrace, f, k)
static const struct field koops_stack_f[] = {
    KS(version, F_STR), KS(taint_module_proprietary, F_BOOL), KS(taint_module_out_of_tree, F_BOOL), KS(taint_forced_module, F_BOOL),
    KS(taint_forced_removal, F_BOOL), KS(taint_smp_unsafe, F_BOOL), KS(taint_mce, F_BOOL), KS(taint_page_release, F_BOOL),
    KS(taint_userspace, F_BOOL), KS(taint_died_recently, F_BOOL), KS(taint_acpi_overridden, F_BOOL), KS(taint_warning, F_BOOL),
    KS(taint_staging_driver, F_BOOL), KS(taint_firmware_workaround, F_BOOL), KS(taint_unsigned_module, F_BOOL),
    KS(taint_soft_lockup, F_BOOL), KS(taint_live_patched, F_BOOL), KS(modules, F_STRV), KS(raw_oops, F_STR), KS(reason, F_STR), END };

static const struct field python_frame_f[] = {
    O(sr_python_frame, special_file, F_BOOL), O(sr_python_frame, file_name, F_STR), O(sr_python_frame, file_line, F_U32),
    O(sr_python_frame, special_function, F_BOOL), O(sr_python_frame, function_name, F_STR), O(sr_python_frame, line_contents, F_STR), END };
static const struct field python_stack_f[] = { O(sr_python_stacktrace, exception_name, F_STR), END };

static const struct field ruby_frame_f[] = {
    O(sr_ruby_frame, file_name, F_STR), O(sr_ruby_frame, file_line, F_U32), O(sr_ruby_frame, special_function, F_BOOL),
    O(sr_ruby_frame, function_name, F_STR), O(sr_ruby_frame, block_level, F_U32), O(sr_ruby_frame, rescue_level, F_U32), END };
static const struct field ruby_stack_f[] = { O(sr_ruby_stacktrace, exception_name, F_STR), END };

const struct field rpm_fields[] = {
    O(sr_rpm_package, name, F_STR), O(sr_rpm_package, epoch, F_U32), O(sr_rpm_package, version, F_STR), O(sr_rpm_package, release, F_STR),
    O(sr_rpm_package, architecture, F_STR), O(sr_rpm_package, install_time, F_U64), O(sr_rpm_package, role, F_INT), END };
#define C(f) O(sr_rpm_consistency, f, F_BOOL)
const struct field cons_fields[] = {
    O(sr_rpm_consistency, path, F_STR), C(owner_changed), C(group_changed), C(mode_changed), C(md5_mismatch), C(size_changed),
    C(major_number_changed), C(minor_number_changed), C(symlink_changed), C(modification_time_changed), END };
#define OS(f, k) O(sr_operating_system, f, k)
const struct field os_fields[] = { OS(name, F_STR), OS(version, F_STR), OS(architecture, F_STR), OS(cpe, F_STR), OS(uptime, F_U64),
    OS(desktop, F_STR), OS(variant, F_STR), END };
#define RP(f, k) O(sr_report, f, k)
static const struct field reporter_f[] = { RP(reporter_name, F_STR), RP(reporter_version, F_STR), END };
static const struct field report_f[] = { RP(report_version, F_U32), RP(report_type, F_INT), RP(user_root, F_BOOL), RP(user_local, F_BOOL), RP(component_name, F_STR), RP(serial, F_U32), END };

static const struct tdesc descs[] = {
    { "core", SR_REPORT_CORE, core_frame_f, core_thread_f, core_stack_f },
    { "python", SR_REPORT_PYTHON, python_frame_f, NULL, python_stack_f },
    { "koops", SR_REPORT_KERNELOOPS, koops_frame_f, NULL, koops_stack_f },
    { "java", SR_REPORT_JAVA, java_frame_f, java_thread_f, java_stack_f },
    { "gdb", SR_REPORT_GDB, gdb_frame_f, gdb_thread_f, gdb_stack_f },
    { "ruby", SR_REPORT_RUBY, ruby_frame_f, NULL, ruby_stack_f },
    { "js", SR_REPORT_JAVASCRIPT, js_frame_f, NULL, js_stack_f },
};

const struct tdesc *tdesc(enum sr_report_type t)
{
    for (size_t i = 0; i < G_N_ELEMENTS(descs); i++)
        if (descs[i].type == t) return &descs[i];
    die("bad type %d", t);
}
const struct tdesc *tdesc_by_name(const char *name)
{
    for (size_t i = 0; i < G_N_ELEMENTS(descs); i++)
        if (strcmp(descs[i].name, name) == 0) return &descs[i];
    die("bad type name %s", name);
}

static void strv_free(char **v)
{
    if (!v) return;
    for (char **p = v; *p; p++) g_free(*p);
    g_free(v);
}

void set_fields(void *obj, const struct field *f, const Val *d, bool fresh)
{
    for (; f->name; f++)
    {
        const Val *v = v_get(d, f->name);
        if (!v) continue;
        char *p = (char*)obj + f->off;
        switch (f->kind)
        {
        case F_STR: g_free(*(char**)p); *(char**)p = g_strdup(v_str(v)); break;
        case F_U64: *(uint64_t*)p = v_u64(v); break;
        case F_U32: *(uint32_t*)p = v_u64(v); break;
        case F_U16: *(uint16_t*)p = v_u64(v); break;
        case F_I64: *(int64_t*)p = v_int(v); break;
        case F_INT: *(int*)p = v_int(v); break;
        case F_BOOL: *(bool*)p = v_int(v) != 0; break;
        case F_STRV:
            strv_free(*(char***)p);
            if (v->t == 'N') { *(char***)p = NULL; break; }
            char **l = g_malloc(sizeof(char*) * (v->n + 1));
            for (size_t k = 0; k < v->n; k++) l[k] = g_strdup(v_str(v->items[k]));
            l[v->n] = NULL;
            *(char***)p = l;
            break;
        }
    }
}

static uint32_t nfields(const struct field *f) { uint32_t n = 0; while (f[n].name) n++; return n; }

/* emits a dict header for the fields plus `extra` further entries, and the fields */
void dump_fields_into(void *obj, const struct field *f, uint32_t extra)
{
    o_dict(nfields(f) + extra);
    for (; f->name; f++)
    {
        char *p = (char*)obj + f->off;
        o_str(f->name);
        switch (f->kind)
        {
        case F_STR: o_str(*(char**)p); break;
        case F_U64: o_u64(*(uint64_t*)p); break;
        case F_U32: o_u64(*(uint32_t*)p); break;
        case F_U16: o_u64(*(uint16_t*)p); break;
        case F_I64: o_int(*(int64_t*)p); break;
        case F_INT: o_int(*(int*)p); break;
        case F_BOOL: o_int(*(bool*)p ? 1 : 0); break;
        case F_STRV:
            if (!*(char***)p) { o_null(); break; }
            size_t m = o_list_begin(); uint32_t n = 0;
            for (char **s = *(char***)p; *s; s++) { o_str(*s); n++; }
            o_list_end(m, n);
            break;
        }
    }
}

static void *new_frame(enum sr_report_type t)
{
    switch (t)
    {
    case SR_REPORT_CORE: return sr_core_frame_new();
    case SR_REPORT_PYTHON: return sr_python_frame_new();
    case SR_REPORT_KERNELOOPS: return sr_koops_frame_new();
    case SR_REPORT_JAVA: return sr_java_frame_new();
    case SR_REPORT_GDB: return sr_gdb_frame_new();
    case SR_REPORT_RUBY: return sr_ruby_frame_new();
    case SR_REPORT_JAVASCRIPT: return sr_js_frame_new();
    default: die("type");
    }
}

struct sr_frame *build_frames(enum sr_report_type t, const Val *list)
{
    struct sr_frame *head = NULL, *tail = NULL;
    if (!list || list->t == 'N') return NULL;
    for (size_t i = 0; i < list->n; i++)
    {
        struct sr_frame *f = new_frame(t);
        set_fields(f, tdesc(t)->frame, list->items[i], true);
        if (tail) sr_frame_set_next(tail, f); else head = f;
        tail = f;
    }
    return head;
}

struct sr_thread *build_thread(enum sr_report_type t, const Val *d)
{
    struct sr_thread *th;
    switch (t)
    {
    case SR_REPORT_CORE: th = (struct sr_thread*)sr_core_thread_new(); break;
    case SR_REPORT_GDB: th = (struct sr_thread*)sr_gdb_thread_new(); break;
    case SR_REPORT_JAVA: th = (struct sr_thread*)sr_java_thread_new(); break;
    default: die("no separate thread for type %d", t);
    }
    set_fields(th, tdesc(t)->thread, d, true);
    sr_thread_set_frames(th, build_frames(t, v_get(d, "frames")));
    return th;
}

struct sr_gdb_sharedlib *build_libs(const Val *list)
{
    struct sr_gdb_sharedlib *head = NULL;
    if (!list || list->t == 'N') return NULL;
    for (size_t i = 0; i < list->n; i++)
    {
        struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_new();
        set_fields(l, lib_fields, list->items[i], true);
        if (!head) head = l;
        else { struct sr_gdb_sharedlib *p = head; while (p->next) p = p->next; p->next = l; }
    }
    return head;
}
void dump_libs(struct sr_gdb_sharedlib *l)
{
    size_t m = o_list_begin(); uint32_t n = 0;
    for (; l; l = l->next, n++) dump_fields_into(l, lib_fields, 0);
    o_list_end(m, n);
}

struct sr_stacktrace *build_stack(const Val *d)
{
    const struct tdesc *td = tdesc_by_name(v_str(v_get(d, "type")));
    struct sr_stacktrace *s;
    switch (td->type)
    {
    case SR_REPORT_CORE: s = (void*)sr_core_stacktrace_new(); break;
    case SR_REPORT_PYTHON: s = (void*)sr_python_stacktrace_new(); break;
    case SR_REPORT_KERNELOOPS: s = (void*)sr_koops_stacktrace_new(); break;
    case SR_REPORT_JAVA: s = (void*)sr_java_stacktrace_new(); break;
    case SR_REPORT_GDB: s = (void*)sr_gdb_stacktrace_new(); break;
    case SR_REPORT_RUBY: s = (void*)sr_ruby_stacktrace_new(); break;
    case SR_REPORT_JAVASCRIPT: s = (void*)sr_js_stacktrace_new(); break;
    default: die("type");
    }
    set_fields(s, td->stack, d, true);
    if (!td->thread)
    {
        sr_thread_set_frames((struct sr_thread*)s, build_frames(td->type, v_get(d, "frames")));
        return s;
    }
    const Val *ts = v_get(d, "threads");
    struct sr_thread *head = NULL, *tail = NULL;
    const Val *ct = v_get(d, "crash_thread");
    for (size_t i = 0; ts && i < ts->n; i++)
    {
        struct sr_thread *t = build_thread(td->type, ts->items[i]);
        if (tail) sr_thread_set_next(tail, t); else head = t;
        tail = t;
        if (td->type == SR_REPORT_CORE && ct && ct->t != 'N' && v_int(ct) == (int64_t)i)
            ((struct sr_core_stacktrace*)s)->crash_thread = (struct sr_core_thread*)t;
    }
    sr_stacktrace_set_threads(s, head);
    if (td->type == SR_REPORT_GDB)
    {
        struct sr_gdb_stacktrace *g = (void*)s;
        g->libs = build_libs(v_get(d, "libs"));
        const Val *c = v_get(d, "crash");
        if (c && c->t == 'D')
        {
            g->crash = sr_gdb_frame_new();
            set_fields(g->crash, gdb_frame_f, c, true);
        }
    }
    return s;
}

void free_frames(struct sr_frame *f)
{
    while (f) { struct sr_frame *n = sr_frame_next(f); sr_frame_free(f); f = n; }
}
void free_threads(struct sr_thread *t)
{
    while (t) { struct sr_thread *n = sr_thread_next(t); sr_thread_free(t); t = n; }
}

void dump_frame(struct sr_frame *f)
{
    if (!f) { o_null(); return; }
    dump_fields_into(f, tdesc(f->type)->frame, 0);
}
void dump_frames(struct sr_frame *f)
{
    size_t m = o_list_begin(); uint32_t n = 0;
    for (; f; f = sr_frame_next(f), n++) dump_frame(f);
    o_list_end(m, n);
}
void dump_thread(struct sr_thread *t)
{
    if (!t) { o_null(); return; }
    const struct tdesc *td = tdesc(t->type);
    dump_fields_into(t, td->thread ? td->thread : td->stack, 1);
    o_str("frames");
    dump_frames(sr_thread_frames(t));
}

void dump_stack(struct sr_stacktrace *s)
{
    if (!s) { o_null(); return; }
    const struct tdesc *td = tdesc(s->type);
    uint32_t extra = 2;
    if (td->type == SR_REPORT_CORE) extra += 1;
    if (td->type == SR_REPORT_GDB) extra += 2;
    dump_fields_into(s, td->stack, extra);
    o_str("type"); o_str(td->name);
    if (!td->thread)
    {
        o_str("frames");
        dump_frames(sr_thread_frames((struct sr_thread*)s));
        return;
    }
    o_str("threads");
    size_t m = o_list_begin(); uint32_t n = 0;
    int64_t idx = -1;
    struct sr_thread *ct = td->type == SR_REPORT_CORE ? (void*)((struct sr_core_stacktrace*)s)->crash_thread : NULL;
    if (ct) idx = -2;
    for (struct sr_thread *t = sr_stacktrace_threads(s); t; t = sr_thread_next(t), n++)
    {
        if (t == ct) idx = n;
        dump_thread(t);
    }
    o_list_end(m, n);
    if (td->type == SR_REPORT_CORE)
    {
        o_str("crash_thread");
        if (idx == -1) o_null(); else o_int(idx);
    }
    if (td->type == SR_REPORT_GDB)
    {
        struct sr_gdb_stacktrace *g = (void*)s;
        o_str("libs"); dump_libs(g->libs);
        o_str("crash"); dump_frame((struct sr_frame*)g->crash);
    }
}

struct sr_rpm_consistency *build_cons(const Val *list)
{
    struct sr_rpm_consistency *head = NULL, **pp = &head;
    for (size_t i = 0; list && list->t == 'L' && i < list->n; i++)
    {
        *pp = sr_rpm_consistency_new();
        set_fields(*pp, cons_fields, list->items[i], true);
        pp = &(*pp)->next;
    }
    return head;
}
void dump_cons(struct sr_rpm_consistency *c)
{
    size_t m = o_list_begin(); uint32_t n = 0;
    for (; c; c = c->next, n++) dump_fields_into(c, cons_fields, 0);
    o_list_end(m, n);
}
struct sr_rpm_package *build_rpms(const Val *list)
{
    struct sr_rpm_package *head = NULL, **pp = &head;
    for (size_t i = 0; list && list->t == 'L' && i < list->n; i++)
    {
        *pp = sr_rpm_package_new();
        set_fields(*pp, rpm_fields, list->items[i], true);
        (*pp)->consistency = build_cons(v_get(list->items[i], "consistency"));
        pp = &(*pp)->next;
    }
    return head;
}
void dump_rpms(struct sr_rpm_package *p)
{
    size_t m = o_list_begin(); uint32_t n = 0;
    for (; p; p = p->next, n++)
    {
        dump_fields_into(p, rpm_fields, 1);
        o_str("consistency");
        dump_cons(p->consistency);
    }
    o_list_end(m, n);
}
struct sr_operating_system *build_os(const Val *d)
{
    if (!d || d->t == 'N') return NULL;
    struct sr_operating_system *o = sr_operating_system_new();
    set_fields(o, os_fields, d, true);
    return o;
}
void dump_os(struct sr_operating_system *o)
{
    if (!o) { o_null(); return; }
    dump_fields_into(o, os_fields, 0);
}
struct sr_report *build_report(const Val *d)
{
    struct sr_report *r = sr_report_new();
    set_fields(r, report_f, d, true);
    const Val *v;
    /* not owned by the report: point into the request */
    if ((v = v_get(d, "reporter_name"))) r->reporter_name = (char*)v_str(v);
    if ((v = v_get(d, "reporter_version"))) r->reporter_version = (char*)v_str(v);
    if ((v = v_get(d, "operating_system"))) { sr_operating_system_free(r->operating_system); r->operating_system = build_os(v); }
    if ((v = v_get(d, "rpm_packages"))) r->rpm_packages = build_rpms(v);
    if ((v = v_get(d, "stacktrace")) && v->t == 'D') r->stacktrace = build_stack(v);
    if ((v = v_get(d, "auth")) && v->t == 'L')
        for (size_t i = 0; i < v->n; i++)
            sr_report_add_auth(r, v_str(v_at(v->items[i], 0)), v_str(v_at(v->items[i], 1)));
    return r;
}
void dump_report(struct sr_report *r)
{
    if (!r) { o_null(); return; }
    dump_fields_into(r, report_f, 5);
    o_str("reporter"); dump_fields_into(r, reporter_f, 0);
    o_str("operating_system"); dump_os(r->operating_system);
    o_str("rpm_packages"); dump_rpms(r->rpm_packages);
    o_str("stacktrace"); dump_stack(r->stacktrace);
    o_str("auth");
    size_t m = o_list_begin(); uint32_t n = 0;
    for (struct sr_report_custom_entry *e = r->auth_entries; e; e = e->next, n++)
    { o_list(2); o_str(e->key); o_str(e->value); }
    o_list_end(m, n);
}
