/* Executes programs of library calls sent by the driver. See DESIGN.md. */
#include <dirent.h>
#include "obj.h"
#include <stdio.h>
int __sanitizer_get_ownership(const volatile void *p);
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <errno.h>
#include <sys/resource.h>
size_t __sanitizer_get_current_allocated_bytes(void);

extern int proto_out;

enum kind { K_EMPTY, K_STACK, K_THREAD, K_FRAME, K_LIBS, K_RPM, K_CONS, K_OS, K_REPORT, K_DIST, K_PARTS, K_DENDRO, K_CLUSTER, K_UNSTRIP, K_STR };
static struct reg { enum kind k; enum sr_report_type type; void *p; } R[64];

static int preset_errno;   /* value of errno before the next command */
static void *temps[4096]; static size_t ntemps;
/* exact-size heap copy, so that reading past the end of an input is seen */
static char *heap_str(const Val *v)
{
    const char *s = v_str(v);
    if (!s) return NULL;
    char *c = malloc(strlen(s) + 1);
    strcpy(c, s);
    if (ntemps >= G_N_ELEMENTS(temps)) die("too many temporaries");
    temps[ntemps++] = c;
    return c;
}

/* The reporter strings of a report read from JSON belong to the caller (tests/report.c); those of a new report are literals. */
static void free_report(struct sr_report *r, int fromjson)
{
    if (fromjson)
    {
        struct sr_report *d = sr_report_new();
        if (r->reporter_name != d->reporter_name) g_free(r->reporter_name);
        if (r->reporter_version != d->reporter_version) g_free(r->reporter_version);
        sr_report_free(d);
    }
    sr_report_free(r);
}

static void reg_free(struct reg *r)
{
    if (r->p)
    switch (r->k)
    {
    case K_EMPTY: break;
    case K_STACK: sr_stacktrace_free(r->p); break;
    case K_THREAD: free_threads(r->p); break;
    case K_FRAME: free_frames(r->p); break;
    case K_LIBS: { struct sr_gdb_sharedlib *l = r->p; while (l) { struct sr_gdb_sharedlib *n = l->next; sr_gdb_sharedlib_free(l); l = n; } break; }
    case K_RPM: sr_rpm_package_free(r->p, true); break;
    case K_CONS: sr_rpm_consistency_free(r->p, true); break;
    case K_OS: sr_operating_system_free(r->p); break;
    case K_REPORT: free_report(r->p, r->type); break;
    case K_DIST: sr_distances_free(r->p); break;
    case K_PARTS: sr_distances_part_free(r->p, true); break;
    case K_DENDRO: sr_dendrogram_free(r->p); break;
    case K_CLUSTER: { struct sr_cluster *c = r->p; while (c) { struct sr_cluster *n = c->next; sr_cluster_free(c); c = n; } break; }
    case K_UNSTRIP: sr_unstrip_free(r->p); break;
    case K_STR: g_free(r->p); break;
    }
    memset(r, 0, sizeof *r);
}

static struct reg *reg(const Val *v)
{
    int64_t i = v_int(v);
    if (i < 0 || i >= (int64_t)G_N_ELEMENTS(R)) die("bad register");
    return &R[i];
}
static void set_reg(const Val *v, enum kind k, enum sr_report_type t, void *p)
{
    struct reg *r = reg(v);
    if (r->k != K_EMPTY && r->p) die("register in use");
    r->k = p ? k : K_EMPTY; r->type = t; r->p = p;
}
static void *need(const Val *v, enum kind k)
{
    struct reg *r = reg(v);
    if (!r->p) return NULL;
    if (r->k != k) die("register holds kind %d, wanted %d", r->k, k);
    return r->p;
}

/* thread reference: [reg] (K_THREAD or single-thread trace), [reg, t] */
static struct sr_thread *tref(const Val *v)
{
    if (v->t == 'N') return NULL;
    struct reg *r = reg(v_at(v, 0));
    if (!r->p) die("empty register in thread ref");
    struct sr_thread *t;
    if (r->k == K_THREAD) t = r->p;
    else if (r->k == K_STACK) t = sr_stacktrace_threads(r->p);
    else die("not a thread ref");
    for (int64_t i = v->n > 1 ? v_int(v_at(v, 1)) : 0; i > 0 && t; i--) t = sr_thread_next(t);
    if (!t) die("thread index out of range");
    return t;
}
/* frame reference: ["f", reg, k] k-th of a frame list; ["t", reg, t, k] k-th frame of thread t; null */
static struct sr_frame *fref(const Val *v)
{
    if (v->t == 'N') return NULL;
    const char *kind = v_str(v_at(v, 0));
    struct sr_frame *f;
    int64_t k;
    struct reg *r = reg(v_at(v, 1));
    if (!r->p) die("empty register in frame ref");
    if (kind[0] == 'f') { f = r->p; if (r->k != K_FRAME) die("not frames"); k = v_int(v_at(v, 2)); }
    else if (kind[0] == 'c') { return (struct sr_frame*)((struct sr_gdb_stacktrace*)need(v_at(v, 1), K_STACK))->crash; }
    else
    {
        struct sr_thread *t = r->k == K_THREAD ? r->p : sr_stacktrace_threads(need(v_at(v, 1), K_STACK));
        for (int64_t i = v_int(v_at(v, 2)); i > 0 && t; i--) t = sr_thread_next(t);
        if (!t) die("thread index out of range");
        f = sr_thread_frames(t);
        k = v_int(v_at(v, 3));
    }
    for (; k > 0 && f; k--) f = sr_frame_next(f);
    if (!f) die("frame index out of range");
    return f;
}

static enum sr_report_type type_of(const Val *v) { return tdesc_by_name(v_str(v))->type; }
static void o_free(char *s) { o_str(s); free(s); }
static void o_bool(bool b) { o_int(b ? 1 : 0); }

#define A(n) v_at(c, (n))
#define OP(nm) else if (strcmp(op, nm) == 0)

static void dump_reg(struct reg *r)
{
    if (!r->p) { o_null(); return; }
    switch (r->k)
    {
    case K_STACK: dump_stack(r->p); break;
    case K_THREAD: { size_t m = o_list_begin(); uint32_t n = 0; for (struct sr_thread *t = r->p; t; t = sr_thread_next(t), n++) dump_thread(t); o_list_end(m, n); break; }
    case K_FRAME: dump_frames(r->p); break;
    case K_LIBS: dump_libs(r->p); break;
    case K_RPM: dump_rpms(r->p); break;
    case K_CONS: dump_cons(r->p); break;
    case K_OS: dump_os(r->p); break;
    case K_REPORT: dump_report(r->p); break;
    case K_DIST:
    {
        struct sr_distances *d = r->p;
        o_list(2); o_int(d->m); o_int(d->n);
        break;
    }
    case K_PARTS:
    {
        size_t m = o_list_begin(); uint32_t n = 0;
        for (struct sr_distances_part *p = r->p; p; p = p->next, n++)
        {
            o_dict(8);
            o_str("m"); o_int(p->m); o_str("n"); o_int(p->n); o_str("m_begin"); o_int(p->m_begin); o_str("n_begin"); o_int(p->n_begin);
            o_str("len"); o_u64(p->len); o_str("dist_type"); o_int(p->dist_type); o_str("checksum"); o_u64(p->checksum);
            o_str("distances");
            if (!p->distances) o_null();
            else { o_list(p->len); for (size_t i = 0; i < p->len; i++) o_dbl(p->distances[i]); }
        }
        o_list_end(m, n);
        break;
    }
    case K_DENDRO:
    {
        struct sr_dendrogram *d = r->p;
        o_dict(3);
        o_str("size"); o_int(d->size);
        o_str("order"); o_list(d->size); for (int i = 0; i < d->size; i++) o_int(d->order[i]);
        o_str("merge_levels"); o_list(d->size - 1); for (int i = 0; i < d->size - 1; i++) o_dbl(d->merge_levels[i]);
        break;
    }
    case K_CLUSTER:
    {
        size_t m = o_list_begin(); uint32_t n = 0;
        for (struct sr_cluster *k = r->p; k; k = k->next, n++)
        { o_list(k->size); for (int i = 0; i < k->size; i++) o_int(k->objects[i]); }
        o_list_end(m, n);
        break;
    }
    case K_UNSTRIP:
    {
        size_t m = o_list_begin(); uint32_t n = 0;
        for (struct sr_unstrip_entry *e = r->p; e; e = e->next, n++)
        { o_list(5); o_u64(e->start); o_u64(e->length); o_str(e->build_id); o_str(e->file_name); o_str(e->mod_name); }
        o_list_end(m, n);
        break;
    }
    case K_STR: o_str(r->p); break;
    default: o_null();
    }
}

static void stack_dup(const Val *c)
{
    struct sr_stacktrace *s = need(A(2), K_STACK);
    void *d;
    switch (s->type)
    {
    case SR_REPORT_CORE: d = sr_core_stacktrace_dup((void*)s); break;
    case SR_REPORT_PYTHON: d = sr_python_stacktrace_dup((void*)s); break;
    case SR_REPORT_KERNELOOPS: d = sr_koops_stacktrace_dup((void*)s); break;
    case SR_REPORT_JAVA: d = sr_java_stacktrace_dup((void*)s); break;
    case SR_REPORT_GDB: d = sr_gdb_stacktrace_dup((void*)s); break;
    case SR_REPORT_RUBY: d = sr_ruby_stacktrace_dup((void*)s); break;
    case SR_REPORT_JAVASCRIPT: d = sr_js_stacktrace_dup((void*)s); break;
    default: die("type");
    }
    set_reg(A(1), K_STACK, s->type, d);
    o_bool(d != NULL);
}

static struct sr_frame *frame_dup(struct sr_frame *f, bool sib)
{
    switch (f->type)
    {
    case SR_REPORT_CORE: return (void*)sr_core_frame_dup((void*)f, sib);
    case SR_REPORT_PYTHON: return (void*)sr_python_frame_dup((void*)f, sib);
    case SR_REPORT_KERNELOOPS: return (void*)sr_koops_frame_dup((void*)f, sib);
    case SR_REPORT_JAVA: return (void*)sr_java_frame_dup((void*)f, sib);
    case SR_REPORT_GDB: return (void*)sr_gdb_frame_dup((void*)f, sib);
    case SR_REPORT_RUBY: return (void*)sr_ruby_frame_dup((void*)f, sib);
    case SR_REPORT_JAVASCRIPT: return (void*)sr_js_frame_dup((void*)f, sib);
    default: die("type");
    }
}
static struct sr_frame *frame_append(struct sr_frame *d, struct sr_frame *i)
{
    switch (i->type)
    {
    case SR_REPORT_CORE: return (void*)sr_core_frame_append((void*)d, (void*)i);
    case SR_REPORT_PYTHON: return (void*)sr_python_frame_append((void*)d, (void*)i);
    case SR_REPORT_KERNELOOPS: return (void*)sr_koops_frame_append((void*)d, (void*)i);
    case SR_REPORT_JAVA: return (void*)sr_java_frame_append((void*)d, (void*)i);
    case SR_REPORT_GDB: return (void*)sr_gdb_frame_append((void*)d, (void*)i);
    case SR_REPORT_RUBY: return (void*)sr_ruby_frame_append((void*)d, (void*)i);
    case SR_REPORT_JAVASCRIPT: return (void*)sr_js_frame_append((void*)d, (void*)i);
    default: die("type");
    }
}
static char *frame_to_json(struct sr_frame *f)
{
    switch (f->type)
    {
    case SR_REPORT_CORE: return sr_core_frame_to_json((void*)f);
    case SR_REPORT_PYTHON: return sr_python_frame_to_json((void*)f);
    case SR_REPORT_KERNELOOPS: return sr_koops_frame_to_json((void*)f);
    case SR_REPORT_JAVA: return sr_java_frame_to_json((void*)f);
    case SR_REPORT_RUBY: return sr_ruby_frame_to_json((void*)f);
    case SR_REPORT_JAVASCRIPT: return sr_js_frame_to_json((void*)f);
    default: die("type");
    }
}
static struct sr_frame *frame_from_json(enum sr_report_type t, json_object *o, char **err)
{
    switch (t)
    {
    case SR_REPORT_CORE: return (void*)sr_core_frame_from_json(o, err);
    case SR_REPORT_PYTHON: return (void*)sr_python_frame_from_json(o, err);
    case SR_REPORT_KERNELOOPS: return (void*)sr_koops_frame_from_json(o, err);
    case SR_REPORT_JAVA: return (void*)sr_java_frame_from_json(o, err);
    case SR_REPORT_RUBY: return (void*)sr_ruby_frame_from_json(o, err);
    case SR_REPORT_JAVASCRIPT: return (void*)sr_js_frame_from_json(o, err);
    default: die("type");
    }
}

static void out_loc(bool ok, const char *begin, const char *in, struct sr_location *l)
{
    o_list(5);
    o_bool(ok);
    o_int(in - begin);
    o_int(l->line); o_int(l->column); o_str(l->message);
}

static const struct field *ref_fields(const Val *ref, void **obj)
{
    /* ["s", reg] stack, ["h", reg, t] thread, frame ref, ["l", reg, k] lib of a stack, ["L", reg, k] lib list */
    const char *k = v_str(v_at(ref, 0));
    if (k[0] == 's') { struct sr_stacktrace *s = need(v_at(ref, 1), K_STACK); *obj = s; return tdesc(s->type)->stack; }
    if (k[0] == 'h')
    {
        struct reg *r = reg(v_at(ref, 1));
        struct sr_thread *t = r->k == K_THREAD ? r->p : sr_stacktrace_threads(r->p);
        for (int64_t i = v_int(v_at(ref, 2)); i > 0 && t; i--) t = sr_thread_next(t);
        if (!t) die("thread index");
        *obj = t;
        return tdesc(t->type)->thread ? tdesc(t->type)->thread : tdesc(t->type)->stack;
    }
    if (k[0] == 'l' || k[0] == 'L')
    {
        struct sr_gdb_sharedlib *l = k[0] == 'L' ? need(v_at(ref, 1), K_LIBS) : ((struct sr_gdb_stacktrace*)need(v_at(ref, 1), K_STACK))->libs;
        for (int64_t i = v_int(v_at(ref, 2)); i > 0 && l; i--) l = l->next;
        if (!l) die("lib index");
        *obj = l;
        return lib_fields;
    }
    struct sr_frame *f = fref(ref);
    *obj = f;
    return tdesc(f->type)->frame;
}

/* Callers need not initialize the error message: it starts as something that must be neither read nor freed. */
static char *const unset_message = (char *)8;
static void o_err(char *err) { if (err == unset_message) o_null(); else o_free(err); }

/* ---- the commands ------------------------------------------------------------------------ */

static bool cmd_generic(const char *op, const Val *c)
{
    char *err = unset_message;
    if (0) ;
    OP("build") { struct sr_stacktrace *s = build_stack(A(2)); set_reg(A(1), K_STACK, s->type, s); o_null(); }
    OP("bthread") { enum sr_report_type t = type_of(A(2)); set_reg(A(1), K_THREAD, t, build_thread(t, A(3))); o_null(); }
    OP("bframes") { enum sr_report_type t = type_of(A(2)); set_reg(A(1), K_FRAME, t, build_frames(t, A(3))); o_null(); }
    OP("blibs") { set_reg(A(1), K_LIBS, 0, build_libs(A(2))); o_null(); }
    OP("dump") { dump_reg(reg(A(1))); }
    OP("free") { reg_free(reg(A(1))); o_null(); }
    OP("mutate") { void *o; const struct field *f = ref_fields(A(1), &o); set_fields(o, f, A(2), false); o_null(); }
    OP("dumpref") { void *o; const struct field *f = ref_fields(A(1), &o); dump_fields_into(o, f, 0); }
    OP("parse")
    {
        enum sr_report_type t = type_of(A(2));
        struct sr_stacktrace *s = sr_stacktrace_parse(t, heap_str(A(3)), &err);
        set_reg(A(1), K_STACK, t, s);
        o_list(2); o_bool(s != NULL); o_err(err);
    }
    OP("parseloc")
    {
        const char *k = v_str(A(2));
        char *b = heap_str(A(3)); const char *in = b;
        struct sr_location l; sr_location_init(&l);
        void *s; enum sr_report_type t;
        if (!strcmp(k, "gdb")) s = sr_gdb_stacktrace_parse(&in, &l), t = SR_REPORT_GDB;
        else if (!strcmp(k, "koops")) s = sr_koops_stacktrace_parse(&in, &l), t = SR_REPORT_KERNELOOPS;
        else if (!strcmp(k, "python")) s = sr_python_stacktrace_parse(&in, &l), t = SR_REPORT_PYTHON;
        else if (!strcmp(k, "ruby")) s = sr_ruby_stacktrace_parse(&in, &l), t = SR_REPORT_RUBY;
        else if (!strcmp(k, "java")) s = sr_java_stacktrace_parse(&in, &l), t = SR_REPORT_JAVA;
        else if (!strcmp(k, "js")) s = sr_js_stacktrace_parse(&in, &l), t = SR_REPORT_JAVASCRIPT;
        else if (!strcmp(k, "js_v8")) s = sr_js_stacktrace_parse_v8(&in, &l), t = SR_REPORT_JAVASCRIPT;
        else if (!strcmp(k, "js_node")) { sr_js_platform_t p; sr_js_platform_init(p, SR_JS_RUNTIME_NODEJS, SR_JS_ENGINE_V8); s = sr_js_platform_parse_stacktrace(p, &in, &l), t = SR_REPORT_JAVASCRIPT; }
        else die("parseloc %s", k);
        set_reg(A(1), K_STACK, t, s);
        out_loc(s != NULL, b, in, &l);
    }
    OP("js_platform_parse")   /* dst, platform, "frame" | "stack", text */
    {
        char *b = heap_str(A(4)); const char *in = b;
        struct sr_location l; sr_location_init(&l);
        bool frame = !strcmp(v_str(A(3)), "frame");
        void *s = frame ? (void*)sr_js_platform_parse_frame(v_int(A(2)), &in, &l) : (void*)sr_js_platform_parse_stacktrace(v_int(A(2)), &in, &l);
        set_reg(A(1), frame ? K_FRAME : K_STACK, SR_REPORT_JAVASCRIPT, s);
        out_loc(s != NULL, b, in, &l);
    }
    OP("frameparse")
    {
        const char *k = v_str(A(2));
        char *b = heap_str(A(3)); const char *in = b;
        struct sr_location l; sr_location_init(&l);
        void *s; enum sr_report_type t;
        if (!strcmp(k, "gdb")) s = sr_gdb_frame_parse(&in, &l), t = SR_REPORT_GDB;
        else if (!strcmp(k, "gdb_header")) s = sr_gdb_frame_parse_header(&in, &l), t = SR_REPORT_GDB;
        else if (!strcmp(k, "koops")) s = sr_koops_frame_parse(&in), t = SR_REPORT_KERNELOOPS;
        else if (!strcmp(k, "python")) s = sr_python_frame_parse(&in, &l), t = SR_REPORT_PYTHON;
        else if (!strcmp(k, "ruby")) s = sr_ruby_frame_parse(&in, &l), t = SR_REPORT_RUBY;
        else if (!strcmp(k, "java")) s = sr_java_frame_parse(&in, &l), t = SR_REPORT_JAVA;
        else if (!strcmp(k, "java_exception")) s = sr_java_frame_parse_exception(&in, &l), t = SR_REPORT_JAVA;
        else if (!strcmp(k, "js")) s = sr_js_frame_parse(&in, &l), t = SR_REPORT_JAVASCRIPT;
        else if (!strcmp(k, "js_v8")) s = sr_js_frame_parse_v8(&in, &l), t = SR_REPORT_JAVASCRIPT;
        else die("frameparse %s", k);
        set_reg(A(1), K_FRAME, t, s);
        out_loc(s != NULL, b, in, &l);
        if (!s && t == SR_REPORT_RUBY && l.message && __sanitizer_get_ownership(l.message)) free((char*)l.message);   /* the caller's (tests/ruby_frame.c) */
    }
    OP("threadparse")
    {
        const char *k = v_str(A(2));
        char *b = heap_str(A(3)); const char *in = b;
        struct sr_location l; sr_location_init(&l);
        void *s; enum sr_report_type t;
        if (!strcmp(k, "gdb")) s = sr_gdb_thread_parse(&in, &l), t = SR_REPORT_GDB;
        else if (!strcmp(k, "java")) s = sr_java_thread_parse(&in, &l), t = SR_REPORT_JAVA;
        else die("threadparse %s", k);
        set_reg(A(1), K_THREAD, t, s);
        out_loc(s != NULL, b, in, &l);
    }
    OP("tojson") { o_free(sr_stacktrace_to_json(need(A(1), K_STACK))); }
    OP("fromjson")
    {
        enum sr_report_type t = type_of(A(2));
        struct sr_stacktrace *s = sr_stacktrace_from_json_text(t, heap_str(A(3)), &err);
        set_reg(A(1), K_STACK, t, s);
        o_list(2); o_bool(s != NULL); o_err(err);
    }
    OP("fromjsonobj")      /* through the object interface, as a report does */
    {
        enum sr_report_type t = type_of(A(2));
        json_object *o = json_tokener_parse(v_str(A(3)));
        struct sr_stacktrace *s = o ? sr_stacktrace_from_json(t, o, &err) : NULL;
        if (o) json_object_put(o);
        set_reg(A(1), K_STACK, t, s);
        o_list(2); o_bool(s != NULL); o_err(err);
    }
    OP("short") { o_free(sr_stacktrace_to_short_text(need(A(1), K_STACK), v_int(A(2)))); }
    OP("reason") { o_free(sr_stacktrace_get_reason(need(A(1), K_STACK))); }
    OP("bthash") { o_free(sr_stacktrace_get_bthash(need(A(1), K_STACK), v_int(A(2)))); }
    OP("duphash") { o_free(sr_thread_get_duphash(tref(A(1)), v_int(A(2)), (char*)v_str(A(3)), v_int(A(4)))); }
    OP("find_crash")
    {
        struct sr_stacktrace *s = need(A(1), K_STACK);
        struct sr_thread *t = sr_stacktrace_find_crash_thread(s);
        if (!t) o_null();
        else
        {
            int i = 0; struct sr_thread *q = sr_stacktrace_threads(s);
            for (; q && q != t; q = sr_thread_next(q)) i++;
            o_int(q ? i : -1);
        }
    }
    OP("nthreads") { int n = 0; for (struct sr_thread *t = sr_stacktrace_threads(need(A(1), K_STACK)); t; t = sr_thread_next(t)) n++; o_int(n); }
    OP("fcount") { o_int(sr_thread_frame_count(tref(A(1)))); }
    OP("tnormalize") { sr_thread_normalize(tref(A(1))); o_null(); }
    OP("tcmp") { o_int(sr_thread_cmp(tref(A(1)), tref(A(2)))); }
    OP("tdup") { struct sr_thread *t = tref(A(2)), *d = sr_thread_dup(t);
                 bool st = tdesc(t->type)->thread == NULL;
                 set_reg(A(1), st ? K_STACK : K_THREAD, t->type, d); o_bool(d != NULL); }
    OP("tdupsib")
    {
        struct sr_thread *t = tref(A(2)); void *d; bool sib = v_int(A(3));
        if (t->type == SR_REPORT_GDB) d = sr_gdb_thread_dup((void*)t, sib);
        else if (t->type == SR_REPORT_CORE) d = sr_core_thread_dup((void*)t, sib);
        else if (t->type == SR_REPORT_JAVA) d = sr_java_thread_dup((void*)t, sib);
        else die("tdupsib");
        set_reg(A(1), K_THREAD, t->type, d); o_bool(d != NULL);
    }
    OP("remove_frame")
    {
        struct sr_thread *t = tref(A(1)); struct sr_frame *f = fref(A(2));
        const char *how = c->n > 3 ? v_str(A(3)) : NULL;
        if (how && !strcmp(how, "typed"))
        {
            if (t->type == SR_REPORT_GDB) o_bool(sr_gdb_thread_remove_frame((void*)t, (void*)f));
            else if (t->type == SR_REPORT_JAVA) o_bool(sr_java_thread_remove_frame((void*)t, (void*)f));
            else if (t->type == SR_REPORT_KERNELOOPS) o_bool(sr_koops_stacktrace_remove_frame((void*)t, (void*)f));
            else die("typed remove");
        }
        else o_bool(sr_thread_remove_frame(t, f));
    }
    OP("remove_above")
    {
        struct sr_thread *t = tref(A(1)); struct sr_frame *f = fref(A(2));
        const char *how = c->n > 3 ? v_str(A(3)) : NULL;
        if (how && !strcmp(how, "typed"))
        {
            if (t->type == SR_REPORT_GDB) o_bool(sr_gdb_thread_remove_frames_above((void*)t, (void*)f));
            else if (t->type == SR_REPORT_JAVA) o_bool(sr_java_thread_remove_frames_above((void*)t, (void*)f));
            else die("typed remove");
        }
        else o_bool(sr_thread_remove_frames_above(t, f));
    }
    OP("below_n")
    {
        struct sr_thread *t = tref(A(1));
        if (t->type == SR_REPORT_GDB) sr_gdb_thread_remove_frames_below_n((void*)t, v_int(A(2)));
        else if (t->type == SR_REPORT_JAVA) sr_java_thread_remove_frames_below_n((void*)t, v_int(A(2)));
        else die("below_n");
        o_null();
    }
    OP("quality")     /* [ok, all, quality] */
    {
        struct sr_thread *t = tref(A(1)); int ok = v_int(A(2)), all = v_int(A(3)); float q;
        if (t->type == SR_REPORT_GDB) { sr_gdb_thread_quality_counts((void*)t, &ok, &all); q = sr_gdb_thread_quality((void*)t); }
        else if (t->type == SR_REPORT_JAVA) { sr_java_thread_quality_counts((void*)t, &ok, &all); q = sr_java_thread_quality((void*)t); }
        else die("quality");
        o_list(3); o_int(ok); o_int(all); o_dbl(q);
    }
    OP("set_frames")   /* thread, new frame list register (moved; null for none), register receiving the old list */
    {
        struct sr_thread *t = tref(A(1));
        struct sr_frame *old = sr_thread_frames(t);
        struct sr_frame *f = NULL;
        if (A(2)->t != 'N') { struct reg *r = reg(A(2)); f = r->p; memset(r, 0, sizeof *r); }
        sr_thread_set_frames(t, f);
        set_reg(A(3), K_FRAME, t->type, old);
        o_null();
    }
    OP("set_threads")
    {
        struct sr_stacktrace *s = need(A(1), K_STACK);
        struct sr_thread *old = sr_stacktrace_threads(s), *t = NULL;
        if (A(2)->t != 'N') { struct reg *r = reg(A(2)); t = r->p; memset(r, 0, sizeof *r); }
        sr_stacktrace_set_threads(s, t);
        set_reg(A(3), K_THREAD, s->type, old);
        o_null();
    }
    OP("tappend")      /* append a thread register to a stack or a thread register */
    {
        struct reg *r = reg(A(2)); struct sr_thread *item = r->p; memset(r, 0, sizeof *r);
        struct reg *d = reg(A(1));
        struct sr_thread *head = d->k == K_STACK ? sr_stacktrace_threads(d->p) : d->p, *res;
        if (item->type == SR_REPORT_GDB) res = (void*)sr_gdb_thread_append((void*)head, (void*)item);
        else if (item->type == SR_REPORT_CORE) res = (void*)sr_core_thread_append((void*)head, (void*)item);
        else res = (void*)sr_java_thread_append((void*)head, (void*)item);
        if (d->k == K_STACK) sr_stacktrace_set_threads(d->p, res); else { d->p = res; d->k = K_THREAD; d->type = item->type; }
        o_null();
    }
    OP("fappend")      /* append a frame register to a thread ref, or (if A(1) is an int) to a frame register */
    {
        struct reg *r = reg(A(2)); struct sr_frame *item = r->p; memset(r, 0, sizeof *r);
        if (A(1)->t == 'I')
        {
            struct reg *d = reg(A(1));
            d->p = frame_append(d->p, item); d->k = K_FRAME; d->type = item->type;
        }
        else { struct sr_thread *t = tref(A(1)); sr_thread_set_frames(t, frame_append(sr_thread_frames(t), item)); }
        o_null();
    }
    OP("fprepend")
    {
        struct reg *r = reg(A(2)); struct sr_frame *item = r->p; memset(r, 0, sizeof *r);
        struct sr_thread *t = tref(A(1));
        sr_thread_set_frames(t, (void*)sr_koops_frame_prepend((void*)sr_thread_frames(t), (void*)item));
        o_null();
    }
    OP("fcmp") { o_int(sr_frame_cmp(fref(A(1)), fref(A(2)))); }
    OP("fcmpd") { o_int(sr_frame_cmp_distance(fref(A(1)), fref(A(2)))); }
    OP("fcmptyped")
    {
        struct sr_frame *a = fref(A(1)), *b = fref(A(2)); int r, d;
        switch (a->type)
        {
        case SR_REPORT_CORE: r = sr_core_frame_cmp((void*)a, (void*)b); d = sr_core_frame_cmp_distance((void*)a, (void*)b); break;
        case SR_REPORT_PYTHON: r = sr_python_frame_cmp((void*)a, (void*)b); d = sr_python_frame_cmp_distance((void*)a, (void*)b); break;
        case SR_REPORT_KERNELOOPS: r = sr_koops_frame_cmp((void*)a, (void*)b); d = sr_koops_frame_cmp_distance((void*)a, (void*)b); break;
        case SR_REPORT_JAVA: r = sr_java_frame_cmp((void*)a, (void*)b); d = sr_java_frame_cmp_distance((void*)a, (void*)b); break;
        case SR_REPORT_GDB: r = sr_gdb_frame_cmp((void*)a, (void*)b, v_int(A(3))); d = sr_gdb_frame_cmp_distance((void*)a, (void*)b); break;
        case SR_REPORT_RUBY: r = sr_ruby_frame_cmp((void*)a, (void*)b); d = sr_ruby_frame_cmp_distance((void*)a, (void*)b); break;
        case SR_REPORT_JAVASCRIPT: r = sr_js_frame_cmp((void*)a, (void*)b); d = sr_js_frame_cmp_distance((void*)a, (void*)b); break;
        default: die("type");
        }
        o_list(2); o_int(r); o_int(d);
    }
    OP("ftext") { GString *g = g_string_new(NULL); sr_frame_append_to_str(fref(A(1)), g); o_free(g_string_free(g, FALSE)); }
    OP("fdup") { struct sr_frame *f = fref(A(2)); set_reg(A(1), K_FRAME, f->type, frame_dup(f, v_int(A(3)))); o_null(); }
    OP("fjson") { o_free(frame_to_json(fref(A(1)))); }
    OP("ffromjson")
    {
        enum sr_report_type t = type_of(A(2));
        json_object *o = json_tokener_parse(v_str(A(3)));
        struct sr_frame *f = o ? frame_from_json(t, o, &err) : NULL;
        if (o) json_object_put(o);
        set_reg(A(1), K_FRAME, t, f);
        o_list(2); o_bool(f != NULL); o_err(err);
    }
    OP("tjson")
    {
        struct sr_thread *t = tref(A(1));
        if (t->type == SR_REPORT_CORE) o_free(sr_core_thread_to_json((void*)t, v_int(A(2))));
        else o_free(sr_java_thread_to_json((void*)t));
    }
    OP("tfromjson")
    {
        enum sr_report_type t = type_of(A(2));
        json_object *o = json_tokener_parse(v_str(A(3)));
        void *f = NULL;
        if (o) { if (t == SR_REPORT_CORE) f = sr_core_thread_from_json(o, &err); else f = sr_java_thread_from_json(o, &err); }
        if (o) json_object_put(o);
        set_reg(A(1), K_THREAD, t, f);
        o_list(2); o_bool(f != NULL); o_err(err);
    }
    OP("sdup") { stack_dup(c); }
    OP("fnext") { struct sr_frame *f = sr_frame_next(fref(A(1))); o_bool(f != NULL); }
    else return false;
    return true;
}

static bool cmd_typed(const char *op, const Val *c)
{
    char *err = unset_message;
    if (0) ;
    /* --- gdb --- */
    OP("gdb_crash_frame")
    {
        struct sr_gdb_frame *f = sr_gdb_stacktrace_get_crash_frame(need(A(2), K_STACK));
        set_reg(A(1), K_FRAME, SR_REPORT_GDB, f); o_bool(f != NULL);
    }
    OP("gdb_find_crash")
    {
        struct sr_gdb_stacktrace *s = need(A(1), K_STACK);
        struct sr_gdb_thread *t = sr_gdb_stacktrace_find_crash_thread(s), *q = s->threads; int i = 0;
        if (!t) o_null(); else { for (; q && q != t; q = q->next) i++; o_int(q ? i : -1); }
    }
    OP("gdb_quality") { o_list(2); o_dbl(sr_gdb_stacktrace_quality_simple(need(A(1), K_STACK))); o_dbl(sr_gdb_stacktrace_quality_complex(need(A(1), K_STACK))); }
    OP("gdb_limit_depth") { sr_gdb_stacktrace_limit_frame_depth(need(A(1), K_STACK), v_int(A(2))); o_null(); }
    OP("gdb_except_one") { sr_gdb_stacktrace_remove_threads_except_one(need(A(1), K_STACK), (void*)tref(A(2))); o_null(); }
    OP("gdb_to_text") { o_free(sr_gdb_stacktrace_to_text(need(A(1), K_STACK), v_int(A(2)))); }
    OP("gdb_thread_text") { GString *g = g_string_new(NULL); sr_gdb_thread_append_to_str((void*)tref(A(1)), g, v_int(A(2))); o_free(g_string_free(g, FALSE)); }
    OP("gdb_frame_text") { GString *g = g_string_new(NULL); sr_gdb_frame_append_to_str((void*)fref(A(1)), g, v_int(A(2))); o_free(g_string_free(g, FALSE)); }
    OP("java_thread_text") { GString *g = g_string_new(NULL); sr_java_thread_append_to_str((void*)tref(A(1)), g); o_free(g_string_free(g, FALSE)); }
    OP("gdb_set_crash_tid") { sr_gdb_stacktrace_set_crash_tid(need(A(1), K_STACK), v_int(A(2))); o_null(); }
    OP("gdb_set_libnames") { sr_gdb_stacktrace_set_libnames(need(A(1), K_STACK)); o_null(); }
    OP("gdb_thread_set_libnames")
    {
        struct sr_gdb_sharedlib *l = A(2)->t == 'L' ? ((struct sr_gdb_stacktrace*)need(v_at(A(2), 1), K_STACK))->libs : need(A(2), K_LIBS);
        sr_gdb_thread_set_libnames((void*)tref(A(1)), l); o_null();
    }
    OP("gdb_short") { o_free(sr_gdb_stacktrace_to_short_text(need(A(1), K_STACK), v_int(A(2)))); }
    OP("gdb_optimized")  /* dst, thread, libs reg or null or ["s", stack], max */
    {
        struct sr_gdb_sharedlib *l = NULL;
        if (A(3)->t == 'L') l = ((struct sr_gdb_stacktrace*)need(v_at(A(3), 1), K_STACK))->libs;
        else if (A(3)->t != 'N') l = need(A(3), K_LIBS);
        void *t = sr_gdb_thread_get_optimized((void*)tref(A(2)), l, v_int(A(4)));
        set_reg(A(1), K_THREAD, SR_REPORT_GDB, t); o_bool(t != NULL);
    }
    OP("gdb_parse_funs") { void *t = sr_gdb_thread_parse_funs(heap_str(A(2))); set_reg(A(1), K_THREAD, SR_REPORT_GDB, t); o_bool(t != NULL); }
    OP("gdb_format_funs") { o_free(sr_gdb_thread_format_funs((void*)tref(A(1)))); }
    OP("java_format_funs") { o_free(sr_java_thread_format_funs((void*)tref(A(1)))); }
    OP("gdb_normalize") { sr_normalize_gdb_stacktrace(need(A(1), K_STACK)); o_null(); }
    OP("gdb_normalize_thread") { sr_normalize_gdb_thread((void*)tref(A(1))); o_null(); }
    OP("core_normalize_thread") { sr_normalize_core_thread((void*)tref(A(1))); o_null(); }
    OP("gdb_paired_unknown") { sr_normalize_gdb_paired_unknown_function_names((void*)tref(A(1)), (void*)tref(A(2))); o_null(); }
    OP("gdb_optimize_thread") { sr_gdb_normalize_optimize_thread((void*)tref(A(1))); o_null(); }
    OP("gdb_exit_frame")
    {
        struct sr_thread *t = tref(A(1));
        struct sr_frame *f = t->type == SR_REPORT_GDB ? (void*)sr_glibc_thread_find_exit_frame((void*)t) : (void*)sr_core_thread_find_exit_frame((void*)t);
        if (!f) o_null();
        else { int i = 0; struct sr_frame *q = sr_thread_frames(t); for (; q && q != f; q = sr_frame_next(q)) i++; o_int(q ? i : -1); }
    }
    OP("core_is_exit") { o_bool(sr_core_thread_is_exit_frame((void*)fref(A(1)))); }
    OP("gdb_thread_count") { o_int(sr_gdb_stacktrace_get_thread_count(need(A(1), K_STACK))); }
    OP("core_thread_count") { o_int(sr_core_stacktrace_get_thread_count(need(A(1), K_STACK))); }
    OP("gdb_calls_func")   /* frame, name, [libs] */
    {
        const Val *l = A(3);
        const char *s[3] = { NULL, NULL, NULL };
        for (size_t i = 0; i < l->n && i < 3; i++) s[i] = v_str(l->items[i]);
        struct sr_frame *f = fref(A(1));
        if (f->type == SR_REPORT_GDB) o_bool(sr_gdb_frame_calls_func((void*)f, v_str(A(2)), s[0], s[1], s[2], NULL));
        else o_bool(sr_core_frame_calls_func((void*)f, v_str(A(2)), s[0], s[1], s[2], NULL));
    }
    OP("sharedlib_parse") { void *l = sr_gdb_sharedlib_parse(heap_str(A(2))); set_reg(A(1), K_LIBS, 0, l); o_bool(l != NULL); }
    OP("sharedlib_find")
    {
        struct sr_gdb_sharedlib *h = A(1)->t == 'L' ? ((struct sr_gdb_stacktrace*)need(v_at(A(1), 1), K_STACK))->libs : need(A(1), K_LIBS);
        struct sr_gdb_sharedlib *f = sr_gdb_sharedlib_find_address(h, v_u64(A(2)));
        if (!f) o_null(); else { int i = 0; for (; h && h != f; h = h->next) i++; o_int(h ? i : -1); }
    }
    OP("sharedlib_count") { o_int(sr_gdb_sharedlib_count(need(A(1), K_LIBS))); }
    OP("sharedlib_dup") { set_reg(A(1), K_LIBS, 0, sr_gdb_sharedlib_dup(need(A(2), K_LIBS), v_int(A(3)))); o_null(); }
    OP("sharedlib_append") { struct reg *r = reg(A(2)); struct reg *d = reg(A(1)); d->p = sr_gdb_sharedlib_append(d->p, r->p); d->k = K_LIBS; memset(r, 0, sizeof *r); o_null(); }
    OP("gdb_parse_header")
    {
        char *b = heap_str(A(2)); const char *in = b;
        struct sr_location l; sr_location_init(&l);
        struct sr_gdb_frame *f = NULL;
        bool ok = sr_gdb_stacktrace_parse_header(&in, &f, &l);
        if (ok) set_reg(A(1), K_FRAME, SR_REPORT_GDB, f);
        out_loc(ok, b, in, &l);
    }
    OP("gdb_small")    /* name, text -> [ret, consumed, outputs...] */
    {
        const char *k = v_str(A(1));
        char *b = heap_str(A(2)); const char *in = b;
        struct sr_location l; sr_location_init(&l);
        char *s1 = NULL, *s2 = NULL; uint32_t u = 0xdeadbeef; uint64_t q = 0xdeadbeefcafebabeull; int64_t ret; bool hs = true;
        if (!strcmp(k, "frame_start")) ret = sr_gdb_frame_parse_frame_start(&in, &u);
        else if (!strcmp(k, "operator")) { GString *g = g_string_new(NULL); ret = sr_gdb_frame_parseadd_operator(&in, g); s1 = g_string_free(g, FALSE); }
        else if (!strcmp(k, "chunk")) ret = sr_gdb_frame_parse_function_name_chunk(&in, false, &s1);
        else if (!strcmp(k, "chunk_space")) ret = sr_gdb_frame_parse_function_name_chunk(&in, true, &s1);
        else if (!strcmp(k, "braces")) ret = sr_gdb_frame_parse_function_name_braces(&in, &s1);
        else if (!strcmp(k, "template")) ret = sr_gdb_frame_parse_function_name_template(&in, &s1);
        else if (!strcmp(k, "name")) ret = sr_gdb_frame_parse_function_name(&in, &s1, &s2, &l);
        else if (!strcmp(k, "args")) { ret = sr_gdb_frame_skip_function_args(&in, &l); hs = false; }
        else if (!strcmp(k, "call")) ret = sr_gdb_frame_parse_function_call(&in, &s1, &s2, &l);
        else if (!strcmp(k, "addr")) ret = sr_gdb_frame_parse_address_in_function(&in, &q, &s1, &s2, &l);
        else if (!strcmp(k, "file")) ret = sr_gdb_frame_parse_file_location(&in, &s1, &u, &l);
        else if (!strcmp(k, "lwp")) ret = sr_gdb_thread_parse_lwp(&in, &u);
        else if (!strcmp(k, "skip_lwp")) ret = sr_gdb_thread_skip_lwp(&in);
        else die("gdb_small %s", k);
        o_list(8);
        o_int(ret); o_int(in - b);
        if (ret && hs) { o_str(s1); o_str(s2); } else { o_null(); o_null(); }
        o_u64(u); o_u64(q); o_int(l.line); o_int(l.column);
        if (ret && hs) { g_free(s1); g_free(s2); }
        else if (!strcmp(k, "operator")) g_free(s1);
    }
    /* --- core --- */
    OP("core_create")
    {
        void *s = sr_core_stacktrace_create(heap_str(A(2)), heap_str(A(3)), heap_str(A(4)));
        set_reg(A(1), K_STACK, SR_REPORT_CORE, s); o_bool(s != NULL);
    }
    OP("core_from_gdb")
    {
        void *s = sr_core_stacktrace_from_gdb(heap_str(A(2)), heap_str(A(3)), heap_str(A(4)), &err);
        set_reg(A(1), K_STACK, SR_REPORT_CORE, s);
        o_list(2); o_bool(s != NULL); o_err(err);
    }
    OP("core_parse_coredump")
    {
        void *s = sr_parse_coredump(heap_str(A(2)), heap_str(A(3)), &err);
        set_reg(A(1), K_STACK, SR_REPORT_CORE, s);
        o_list(2); o_bool(s != NULL); o_err(err);
    }
    /* --- tables of an ELF file --- */
    OP("elf_plt")   /* file, [address] */
    {
        struct sr_elf_plt_entry *p = sr_elf_get_procedure_linkage_table(heap_str(A(1)), &err), *e;
        o_list(3);
        uint32_t n = 0;
        size_t m = o_list_begin();
        for (e = p; e; e = e->next, n++) { o_list(2); o_u64(e->address); o_str(e->symbol_name); }
        o_list_end(m, n);
        o_list(A(2)->n);
        for (size_t i = 0; i < A(2)->n; i++)
        {
            struct sr_elf_plt_entry *f = sr_elf_plt_find_for_address(p, v_u64(v_at(A(2), i)));
            int k = 0;
            for (e = p; e && e != f; e = e->next) k++;
            o_int(f ? e ? k : -2 : -1);
        }
        o_err(err);
        sr_elf_procedure_linkage_table_free(p);
    }
    OP("elf_fde")   /* file, [number] */
    {
        struct sr_elf_fde *p = sr_elf_get_eh_frame(heap_str(A(1)), &err), *e;
        o_list(5);
        uint32_t n = 0;
        size_t m = o_list_begin();
        for (e = p; e; e = e->next, n++) { o_list(3); o_u64(e->exec_base); o_u64(e->start_address); o_u64(e->length); }
        o_list_end(m, n);
        o_list(A(2)->n);
        for (size_t i = 0; i < A(2)->n; i++)
        {
            o_list(3);
            for (int how = 0; how < 3; how++)
            {
                uint64_t u = v_u64(v_at(A(2), i));
                struct sr_elf_fde *f = how == 0 ? sr_elf_find_fde_for_offset(p, u) : how == 1 ? sr_elf_find_fde_for_address(p, u) : sr_elf_find_fde_for_start_address(p, u);
                int k = 0;
                for (e = p; e && e != f; e = e->next) k++;
                o_int(f ? e ? k : -2 : -1);
            }
        }
        if (p) { o_free(sr_elf_fde_to_json(p, true)); o_free(sr_elf_fde_to_json(p, false)); }
        else { o_null(); o_null(); }
        o_err(err);
        sr_elf_eh_frame_free(p);
    }
    OP("core_thread_cmp") { o_int(sr_core_thread_cmp((void*)tref(A(1)), (void*)tref(A(2)))); }
    OP("gdb_thread_cmp") { o_int(sr_gdb_thread_cmp((void*)tref(A(1)), (void*)tref(A(2)))); }
    OP("java_thread_cmp") { o_int(sr_java_thread_cmp((void*)tref(A(1)), (void*)tref(A(2)))); }
    OP("java_stack_cmp") { o_int(sr_java_stacktrace_cmp(need(A(1), K_STACK), need(A(2), K_STACK))); }
    OP("core_reason") { o_free(sr_core_stacktrace_get_reason(need(A(1), K_STACK))); }
    OP("unstrip") { set_reg(A(1), K_UNSTRIP, 0, sr_unstrip_parse(heap_str(A(2)))); dump_reg(reg(A(1))); }
    OP("unstrip_find")
    {
        struct sr_unstrip_entry *h = need(A(1), K_UNSTRIP), *f = sr_unstrip_find_address(h, v_u64(A(2)));
        if (!f) o_null(); else { int i = 0; for (; h && h != f; h = h->next) i++; o_int(h ? i : -1); }
    }
    /* --- koops --- */
    OP("koops_normalize") { sr_normalize_koops_stacktrace(need(A(1), K_STACK)); o_null(); }
    OP("koops_modules")
    {
        char *b = heap_str(A(1)); const char *in = b;
        char **m = sr_koops_stacktrace_parse_modules(&in);
        o_list(2); o_int(in - b);
        if (!m) o_null();
        else
        {
            size_t k = o_list_begin(); uint32_t n = 0;
            for (char **p = m; *p; p++, n++) { o_str(*p); g_free(*p); }
            o_list_end(k, n);
            g_free(m);
        }
    }
    OP("koops_small")
    {
        const char *k = v_str(A(1));
        char *b = heap_str(A(2)); const char *in = b;
        char *s1 = NULL, *s2 = NULL; uint64_t q1 = 0, q2 = 0; bool r;
        if (!strcmp(k, "timestamp")) r = sr_koops_skip_timestamp(&in);
        else if (!strcmp(k, "address")) r = sr_koops_parse_address(&in, &q1);
        else if (!strcmp(k, "module")) r = sr_koops_parse_module_name(&in, &s1);
        else if (!strcmp(k, "function")) r = sr_koops_parse_function(&in, &s1, &q1, &q2, &s2);
        else die("koops_small");
        o_list(6); o_bool(r); o_int(in - b);
        if (r) { o_str(s1); o_str(s2); g_free(s1); g_free(s2); } else { o_null(); o_null(); }
        o_u64(q1); o_u64(q2);
    }
    /* --- js platform --- */
    OP("js_platform") { err = NULL; uint32_t p = sr_js_platform_from_string(v_str(A(1)), v_str(A(2)), &err); o_list(2); o_u64(p); o_err(err); }
    OP("js_platform_json") { o_free(sr_js_platform_to_json(v_int(A(1)))); }
    OP("js_platform_from_json")
    {
        json_object *o = json_tokener_parse(v_str(A(1)));
        err = NULL;            /* the only sign of a failure */
        uint32_t p = o ? sr_js_platform_from_json(o, &err) : 0;
        if (o) json_object_put(o);
        o_list(2); o_u64(p); o_err(err);
    }
    OP("js_engine_str") { o_str(sr_js_engine_to_string(v_int(A(1)))); }
    OP("js_runtime_str") { o_str(sr_js_runtime_to_string(v_int(A(1)))); }
    OP("js_engine") { o_int(sr_js_engine_from_string(v_str(A(1)))); }
    OP("js_runtime") { o_int(sr_js_runtime_from_string(v_str(A(1)))); }
    /* --- distances --- */
    OP("distance") { o_dbl(sr_distance(v_int(A(1)), tref(A(2)), tref(A(3)))); }
    OP("compare")      /* dst, [trefs], m, n, type */
    {
        const Val *l = A(2);
        struct sr_thread **ts = malloc(sizeof(void*) * (l->n + 1));
        for (size_t i = 0; i < l->n; i++) ts[i] = tref(l->items[i]);
        struct sr_distances *d = sr_threads_compare(ts, v_int(A(3)), v_int(A(4)), v_int(A(5)));
        free(ts);
        set_reg(A(1), K_DIST, 0, d); o_bool(d != NULL);
    }
    OP("dist_new") { struct sr_distances *d = sr_distances_new(v_int(A(2)), v_int(A(3))); set_reg(A(1), K_DIST, 0, d); o_list(2); o_int(d->m); o_int(d->n); }
    OP("dist_dup") { set_reg(A(1), K_DIST, 0, sr_distances_dup(need(A(2), K_DIST))); o_null(); }
    OP("dist_get") { o_dbl(sr_distances_get_distance(need(A(1), K_DIST), v_int(A(2)), v_int(A(3)))); }
    OP("dist_set") { sr_distances_set_distance(need(A(1), K_DIST), v_int(A(2)), v_int(A(3)), v_dbl(A(4))); o_null(); }
    OP("dist_all")     /* full matrix through the getter: rows 0..m-1, columns 0..n-1 */
    {
        struct sr_distances *d = need(A(1), K_DIST);
        o_list(d->m);
        for (int i = 0; i < d->m; i++) { o_list(d->n); for (int j = 0; j < d->n; j++) o_dbl(sr_distances_get_distance(d, i, j)); }
    }
    OP("parts_create") { void *p = sr_distances_part_create(v_int(A(2)), v_int(A(3)), v_int(A(4)), v_int(A(5))); set_reg(A(1), K_PARTS, 0, p); o_bool(p != NULL); }
    OP("parts_build")   /* dst, [dict] */
    {
        struct sr_distances_part *head = NULL, **pp = &head;
        const Val *l = A(2);
        for (size_t i = 0; i < l->n; i++)
        {
            const Val *d = l->items[i];
            *pp = sr_distances_part_new(v_int(v_get(d, "m")), v_int(v_get(d, "n")), v_int(v_get(d, "dist_type")), v_int(v_get(d, "m_begin")), v_int(v_get(d, "n_begin")), v_u64(v_get(d, "len")));
            (*pp)->checksum = v_u64(v_get(d, "checksum"));
            const Val *x = v_get(d, "distances");
            if (x && x->t == 'L')
            {
                (*pp)->distances = g_malloc_n(x->n ? x->n : 1, sizeof(float));
                for (size_t k = 0; k < x->n; k++) (*pp)->distances[k] = v_dbl(x->items[k]);
            }
            pp = &(*pp)->next;
        }
        set_reg(A(1), K_PARTS, 0, head); o_null();
    }
    OP("parts_compute") /* reg, index, [trefs] */
    {
        struct sr_distances_part *p = need(A(1), K_PARTS);
        for (int64_t i = v_int(A(2)); i > 0 && p; i--) p = p->next;
        if (!p) die("part index");
        const Val *l = A(3);
        struct sr_thread **ts = malloc(sizeof(void*) * (l->n + 1));
        for (size_t i = 0; i < l->n; i++) ts[i] = tref(l->items[i]);
        sr_distances_part_compute(p, ts);
        free(ts);
        o_null();
    }
    OP("parts_merge") { void *d = sr_distances_part_merge(need(A(2), K_PARTS)); set_reg(A(1), K_DIST, 0, d); o_bool(d != NULL); }
    OP("cluster") { void *d = sr_distances_cluster_objects(need(A(2), K_DIST)); set_reg(A(1), K_DENDRO, 0, d); o_bool(d != NULL); }
    OP("dendro_build")
    {
        const Val *o = A(2), *m = A(3);
        struct sr_dendrogram *d = sr_dendrogram_new(o->n);
        for (size_t i = 0; i < o->n; i++) d->order[i] = v_int(o->items[i]);
        for (size_t i = 0; i < m->n; i++) d->merge_levels[i] = v_dbl(m->items[i]);
        set_reg(A(1), K_DENDRO, 0, d); o_null();
    }
    OP("cut") { void *k = sr_dendrogram_cut(need(A(2), K_DENDRO), v_dbl(A(3)), v_int(A(4))); set_reg(A(1), K_CLUSTER, 0, k); o_bool(k != NULL); }
    else return false;
    return true;
}

static void os_cb(char *key, char *value, void *data)
{
    uint32_t *n = data;
    o_list(2); o_str(key); o_str(value);
    (*n)++;
    g_free(key); g_free(value);
}

#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <signal.h>

/* Starts the program, which writes a byte to 4 once it is ready and exits when 3 is closed, and unwinds it as the core dump hook does:
   standard input is the other end of 3. Result: process id, JSON or null, message or null. */
static void core_hook(const char *prog, const char *arg, const char *how, int sig, const char *exe)
{
    int res[2];
    if (pipe(res)) die("pipe");
    fflush(NULL);
    pid_t w = fork();
    if (w == 0)
    {
        int in[2], ready[2];
        close(res[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (pipe(in) || pipe(ready)) _exit(9);
        pid_t tid = fork();
        if (tid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int a = fcntl(in[0], F_DUPFD, 20), b = fcntl(ready[1], F_DUPFD, 20);
            dup2(a, 3); dup2(b, 4);
            for (int i = 5; i < 100; i++) close(i);
            close(0);
            execl(prog, prog, arg, NULL);
            _exit(9);
        }
        close(in[0]); close(ready[1]);
        char c = 0;
        if (read(ready[0], &c, 1) != 1) _exit(9);
        dup2(in[1], 0);
        close(in[1]);
        char *json = NULL, *msg = NULL;
        struct sr_core_stacktrace *s = NULL;
        bool abrt = strstr(how, "abrt");
        pid_t who = strstr(how, "nobody") ? 0x3ffffff : tid;
        if (strstr(how, "once"))
        {
            if (abrt) json = sr_abrt_get_core_stacktrace_from_core_hook(who, exe, sig, &msg);
            else s = sr_core_stacktrace_from_core_hook(who, exe, sig, &msg);
        }
        else
        {
            void *st = abrt ? sr_abrt_get_core_stacktrace_from_core_hook_prepare(who, &msg) : sr_core_stacktrace_from_core_hook_prepare(who, &msg);
            if (st && strstr(how, "gone"))
            {
                ptrace(PTRACE_DETACH, tid, NULL, NULL);
                kill(tid, SIGKILL);
                waitpid(tid, NULL, 0);
            }
            if (st && abrt) json = sr_abrt_get_core_stacktrace_from_core_hook_generate(tid, exe, sig, st, &msg);
            else if (st) s = sr_core_stacktrace_from_core_hook_generate(tid, exe, sig, st, &msg);
        }
        if (s)
        {
            json = sr_core_stacktrace_to_json(s);
            if (s->crash_thread != s->threads || s->threads->id != tid || s->threads->next)
                msg = "wrong crash thread or thread id";
            sr_core_stacktrace_free(s);
        }
        int64_t n[3] = { tid, json ? (int64_t)strlen(json) : -1, msg ? (int64_t)strlen(msg) : -1 };
        (void)!write(res[1], n, sizeof n);
        if (json) (void)!write(res[1], json, n[1]);
        if (msg) (void)!write(res[1], msg, n[2]);
        close(res[1]);
        close(0);
        kill(tid, SIGKILL);
        ptrace(PTRACE_CONT, tid, NULL, NULL);
        waitpid(tid, NULL, 0);
        _exit(0);
    }
    close(res[1]);
    size_t cap = 1 << 20, n = 0;
    char *buf = malloc(cap + 1);
    ssize_t k;
    while (n < cap && (k = read(res[0], buf + n, cap - n)) > 0) n += k;
    close(res[0]);
    int st = -1;
    waitpid(w, &st, 0);
    if (st != 0 || n < 3 * sizeof(int64_t)) { fprintf(stderr, "hook process ended with status %x\n", st); abort(); }
    int64_t h[3];
    memcpy(h, buf, sizeof h);
    char *p = buf + sizeof h;
    o_list(3);
    o_int(h[0]);
    for (int i = 1; i < 3; i++)
        if (h[i] < 0) o_null();
        else { char *t = g_strndup(p, h[i]); p += h[i]; o_free(t); }
    free(buf);
}

static bool cmd_misc(const char *op, const Val *c)
{
    char *err = unset_message;
    if (0) ;
    /* --- rpm --- */
    OP("brpm") { set_reg(A(1), K_RPM, 0, build_rpms(A(2))); o_null(); }
    OP("bcons") { set_reg(A(1), K_CONS, 0, build_cons(A(2))); o_null(); }
    OP("rpm_cmp")   /* ra, rb -> [cmp, nvr, nevra] */
    {
        void *a = need(A(1), K_RPM), *b = need(A(2), K_RPM);
        o_list(3); o_int(sr_rpm_package_cmp(a, b)); o_int(sr_rpm_package_cmp_nvr(a, b)); o_int(sr_rpm_package_cmp_nevra(a, b));
    }
    OP("rpm_sort") { struct reg *r = reg(A(1)); r->p = sr_rpm_package_sort(r->p); o_null(); }
    OP("rpm_uniq") { struct reg *r = reg(A(1)); r->p = sr_rpm_package_uniq(r->p); o_null(); }
    OP("rpm_append") { struct reg *d = reg(A(1)), *s = reg(A(2)); d->p = sr_rpm_package_append(d->p, s->p); d->k = K_RPM; memset(s, 0, sizeof *s); o_null(); }
    OP("rpm_count") { o_int(sr_rpm_package_count(need(A(1), K_RPM))); }
    OP("rpm_json") { o_free(sr_rpm_package_to_json(need(A(1), K_RPM), v_int(A(2)))); }
    OP("rpm_fromjson")
    {
        json_object *o = json_tokener_parse(v_str(A(2)));
        struct sr_rpm_package *p = NULL;
        int r = o ? sr_rpm_package_from_json(&p, o, v_int(A(3)), &err) : -99;
        if (o) json_object_put(o);
        o_list(3); o_int(r); o_bool(p != NULL); o_err(err);
        set_reg(A(1), K_RPM, 0, p);
    }
    OP("rpm_nvr")
    {
        static char N[] = "N", W[] = "V", Q[] = "R";
        char *n = N, *v = W, *r = Q;
        bool ok = sr_rpm_package_parse_nvr(heap_str(A(1)), &n, &v, &r);
        if (ok) { o_list(3); o_free(n); o_free(v); o_free(r); } else o_int(n != N || v != W || r != Q);
    }
    OP("rpm_nevra")
    {
        static char N[] = "N", W[] = "V", Q[] = "R", T[] = "A";
        char *n = N, *v = W, *r = Q, *a = T; uint32_t e = 77;
        bool ok = sr_rpm_package_parse_nevra(heap_str(A(1)), &n, &e, &v, &r, &a);
        if (ok) { o_list(5); o_free(n); o_u64(e); o_free(v); o_free(r); o_free(a); } else o_int(n != N || v != W || r != Q || a != T || e != 77);
    }
    OP("cons_cmp")
    {
        o_list(2); o_int(sr_rpm_consistency_cmp(need(A(1), K_CONS), need(A(2), K_CONS)));
        o_int(sr_rpm_consistency_cmp_recursive(need(A(1), K_CONS), need(A(2), K_CONS)));
    }
    OP("dso_list") { set_reg(A(1), K_RPM, 0, sr_abrt_parse_dso_list(heap_str(A(2)))); dump_reg(reg(A(1))); }
    /* --- operating system --- */
    OP("bos") { set_reg(A(1), K_OS, 0, build_os(A(2))); o_null(); }
    OP("os_json") { o_free(sr_operating_system_to_json(need(A(1), K_OS))); }
    OP("os_fromjson")
    {
        json_object *o = json_tokener_parse(v_str(A(2)));
        void *p = o ? sr_operating_system_from_json(o, &err) : NULL;
        if (o) json_object_put(o);
        set_reg(A(1), K_OS, 0, p);
        o_list(2); o_bool(p != NULL); o_err(err);
    }
    OP("system_release")
    {
        char *n = NULL, *v = NULL;
        bool ok = sr_operating_system_parse_etc_system_release(heap_str(A(1)), &n, &v);
        if (ok) { o_list(2); o_free(n); o_free(v); } else o_null();
    }
    OP("os_release")
    {
        struct sr_operating_system *o = sr_operating_system_new();
        bool ok = sr_operating_system_parse_etc_os_release(heap_str(A(1)), o);
        o_list(2); o_bool(ok); dump_os(o);
        sr_operating_system_free(o);
    }
    OP("os_release_raw")
    {
        uint32_t n = 0; size_t m = o_list_begin();
        sr_parse_os_release(heap_str(A(1)), os_cb, &n);
        o_list_end(m, n);
    }
    /* --- report --- */
    OP("breport") { set_reg(A(1), K_REPORT, 0, build_report(A(2))); o_null(); }
    OP("report_json") { o_free(sr_report_to_json(need(A(1), K_REPORT))); }
    OP("report_fromjson")
    {
        void *p = sr_report_from_json_text(heap_str(A(2)), &err);
        set_reg(A(1), K_REPORT, 1, p);
        o_list(2); o_bool(p != NULL); o_err(err);
    }
    OP("report_from_dir")
    {
        void *p = sr_abrt_report_from_dir(v_str(A(2)), &err);
        set_reg(A(1), K_REPORT, 0, p);
        o_list(2); o_bool(p != NULL); o_err(err);
    }
    OP("os_from_dir")
    {
        void *p = sr_abrt_operating_system_from_dir(v_str(A(2)), &err);
        set_reg(A(1), K_OS, 0, p);
        o_list(2); o_bool(p != NULL); o_err(err);
    }
    OP("rpms_from_dir")
    {
        struct sr_rpm_package *p = NULL;
        int r = sr_abrt_rpm_packages_from_dir(v_str(A(2)), &p, &err);
        set_reg(A(1), K_RPM, 0, p);
        o_list(3); o_int(r); o_bool(p != NULL); o_err(err);
    }
    OP("core_from_dir_gdb") { bool r = sr_abrt_create_core_stacktrace_from_gdb(v_str(A(1)), v_str(A(2)), false, &err); o_list(2); o_bool(r); o_err(err); }
    OP("core_from_dir") { bool r = sr_abrt_create_core_stacktrace(v_str(A(1)), false, &err); o_list(2); o_bool(r); o_err(err); }
    OP("core_hook") { core_hook(v_str(A(1)), v_str(A(2)), v_str(A(3)), v_int(A(4)), v_str(A(5))); }   /* program, argument, how, signal, executable */
    OP("abrt_type") { o_int(sr_abrt_type_from_type(v_str(A(1)))); }
    OP("abrt_analyzer") { o_int(sr_abrt_type_from_analyzer(v_str(A(1)))); }
    OP("type_str") { o_free(sr_report_type_to_string(v_int(A(1)))); }
    OP("type_from_str") { o_int(sr_report_type_from_string(v_str(A(1)))); }
    /* --- utils --- */
    OP("struniq")
    {
        const Val *l = A(1);
        char **s = malloc(sizeof(char*) * (l->n + 1)); size_t n = l->n;
        for (size_t i = 0; i < n; i++) s[i] = g_strdup(v_str(l->items[i]));
        s[l->n] = NULL;
        qsort(s, n, sizeof(char*), sr_ptrstrcmp);
        char **all = malloc(sizeof(char*) * (l->n + 1)); size_t total = n;
        memcpy(all, s, sizeof(char*) * n);
        sr_struniq(s, &n);
        o_list(n); for (size_t i = 0; i < n; i++) o_str(s[i]);
        for (size_t i = 0; i < total; i++) g_free(all[i]);
        free(all);
        free(s);
    }
    OP("strloc")   /* fn, text, arg -> [offset or null, line, column] */
    {
        const char *k = v_str(A(1)); char *b = heap_str(A(2)); int line = v_int(A(4)), col = v_int(A(5)); char *r = NULL; int64_t off = -1;
        if (!strcmp(k, "strchr")) r = sr_strchr_location(b, v_int(A(3)), &line, &col);
        else if (!strcmp(k, "strstr")) r = sr_strstr_location(b, v_str(A(3)), &line, &col);
        else if (!strcmp(k, "strspn")) off = sr_strspn_location(b, v_str(A(3)), &line, &col);
        else if (!strcmp(k, "skip_span")) { const char *in = b; off = sr_skip_char_span_location(&in, v_str(A(3)), &line, &col); if (in - b != off) off = -77; }
        else if (!strcmp(k, "next_line")) { const char *in = b; bool ok = sr_skip_to_next_line_location(&in, &line, &col); off = ok ? in - b : -2 - (in - b); }
        else die("strloc");
        if (r) off = r - b;
        o_list(3); o_int(off); o_int(line); o_int(col);
    }
    OP("scan")     /* fn, text, arg -> [ret, consumed, value] */
    {
        const char *k = v_str(A(1)); char *b = heap_str(A(2)); const char *in = b; const Val *x = A(3);
        int64_t ret = 0; char *s = NULL; uint64_t u = 0x1122334455667788ull; uint32_t u32 = 0x55667788; char ch = '?'; int how = 0;
        bool fl = false;
        if (!strcmp(k, "skip_char")) ret = sr_skip_char(&in, v_int(x));
        else if (!strcmp(k, "skip_char_limited")) ret = sr_skip_char_limited(&in, v_str(x));
        else if (!strcmp(k, "parse_char_limited")) { ret = sr_parse_char_limited(&in, v_str(x), &ch); how = 3; }
        else if (!strcmp(k, "skip_char_sequence")) ret = sr_skip_char_sequence(&in, v_int(x));
        else if (!strcmp(k, "skip_char_span")) ret = sr_skip_char_span(&in, v_str(x));
        else if (!strcmp(k, "parse_char_span")) { ret = sr_parse_char_span(&in, v_str(x), &s); how = 1; }
        else if (!strcmp(k, "skip_char_cspan")) ret = sr_skip_char_cspan(&in, v_str(x));
        else if (!strcmp(k, "parse_char_cspan")) { ret = sr_parse_char_cspan(&in, v_str(x), &s); how = 1; }
        else if (!strcmp(k, "skip_string")) ret = sr_skip_string(&in, v_str(x));
        else if (!strcmp(k, "parse_string")) { ret = sr_parse_string(&in, v_str(x), &s); how = 1; }
        else if (!strcmp(k, "parse_digit")) ret = sr_parse_digit(&in);
        else if (!strcmp(k, "skip_uint")) ret = sr_skip_uint(&in);
        else if (!strcmp(k, "parse_uint32")) { ret = sr_parse_uint32(&in, &u32); how = 4; }
        else if (!strcmp(k, "parse_uint64")) { ret = sr_parse_uint64(&in, &u); how = 2; }
        else if (!strcmp(k, "skip_hex")) ret = sr_skip_hexadecimal_uint(&in);
        else if (!strcmp(k, "skip_0xhex")) ret = sr_skip_hexadecimal_0xuint(&in);
        else if (!strcmp(k, "parse_hex")) { ret = sr_parse_hexadecimal_uint64(&in, &u); how = 2; }
        else if (!strcmp(k, "parse_0xhex")) { ret = sr_parse_hexadecimal_0xuint64(&in, &u); how = 2; }
        else if (!strcmp(k, "skip_ws")) { in = sr_skip_whitespace(b); fl = true; }
        else if (!strcmp(k, "skip_non_ws")) { in = sr_skip_non_whitespace(b); fl = true; }
        else die("scan %s", k);
        (void)fl;
        o_list(3); o_int(ret); o_int(in - b);
        if (!ret) o_null();
        else if (how == 1) o_free(s);
        else if (how == 2) o_u64(u);
        else if (how == 3) o_int((unsigned char)ch);
        else if (how == 4) o_u64(u32);
        else o_null();
    }
    OP("bin2hex")
    {
        char *src = heap_str(A(1)); int n = strlen(src);
        char *dst = malloc(2 * n + 1); memset(dst, 'Z', 2 * n + 1);
        char *e = sr_bin2hex(dst, src, n);
        o_list(2); o_int(e - dst); o_mem(dst, 2 * n);
        free(dst);
    }
    OP("indent") { o_free(sr_indent(heap_str(A(1)), v_int(A(2)))); }
    OP("indent_except_first") { o_free(sr_indent_except_first_line(heap_str(A(1)), v_int(A(2)))); }
    OP("build_path")
    {
        const char *s[4] = { NULL, NULL, NULL, NULL }; const Val *l = A(1);
        for (size_t i = 0; i < l->n && i < 4; i++) s[i] = v_str(l->items[i]);
        o_free(sr_build_path(s[0], s[1], s[2], s[3], NULL));
    }
    OP("anonymize") { o_free(anonymize_path(g_strdup(v_str(A(1))))); }
    OP("demangle") { o_free(sr_demangle_symbol(v_str(A(1)))); }
    OP("file_read") { char *s = sr_file_to_string(v_str(A(1)), &err); o_list(2); o_free(s); o_err(err); }
    OP("file_digest")  /* [length, SHA-1 of the contents, message] */
    {
        char *s = sr_file_to_string(v_str(A(1)), &err);
        o_list(3);
        if (s) { o_u64(strlen(s)); o_free(g_compute_checksum_for_data(G_CHECKSUM_SHA1, (const guchar*)s, strlen(s))); }
        else { o_null(); o_null(); }
        o_err(err); g_free(s);
    }
    OP("file_limit")   /* what, limit or null for none: 0 size of written files, 1 number of open files */
    {
        int what = v_int(A(1)) ? RLIMIT_NOFILE : RLIMIT_FSIZE; struct rlimit l;
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(what, &l);
        l.rlim_cur = A(2)->t == 'N' ? l.rlim_max : (rlim_t)v_int(A(2));
        o_bool(0 == setrlimit(what, &l));
    }
    OP("file_write") { bool r = sr_string_to_file(v_str(A(1)), heap_str(A(2)), &err); o_list(2); o_bool(r); o_err(err); }
    OP("json_escape") { GString *g = g_string_new(NULL); GString *sr_json_append_escaped(GString*, const char*); sr_json_append_escaped(g, v_str(A(1))); o_free(g_string_free(g, FALSE)); }
    /* --- location --- */
    OP("loc")      /* list of steps -> list of [line, column] */
    {
        struct sr_location l; sr_location_init(&l);
        int line = l.line, col = l.column;
        const Val *st = A(1);
        o_list(st->n + 1);
        o_list(4); o_int(l.line); o_int(l.column); o_int(line); o_int(col);
        for (size_t i = 0; i < st->n; i++)
        {
            const char *k = v_str(v_at(st->items[i], 0));
            if (!strcmp(k, "add"))
            { sr_location_add(&l, v_int(v_at(st->items[i], 1)), v_int(v_at(st->items[i], 2))); sr_location_add_ext(&line, &col, v_int(v_at(st->items[i], 1)), v_int(v_at(st->items[i], 2))); }
            else { sr_location_eat_char(&l, v_int(v_at(st->items[i], 1))); sr_location_eat_char_ext(&line, &col, v_int(v_at(st->items[i], 1))); }
            o_list(4); o_int(l.line); o_int(l.column); o_int(line); o_int(col);
        }
    }
    OP("loc_cmp")
    {
        struct sr_location a, b; sr_location_init(&a); sr_location_init(&b);
        a.line = v_int(v_at(A(1), 0)); a.column = v_int(v_at(A(1), 1)); a.message = v_str(v_at(A(1), 2));
        b.line = v_int(v_at(A(2), 0)); b.column = v_int(v_at(A(2), 1)); b.message = v_str(v_at(A(2), 2));
        o_int(sr_location_cmp(&a, &b, v_int(A(3))));
    }
    OP("loc_str")
    {
        struct sr_location a; sr_location_init(&a);
        a.line = v_int(v_at(A(1), 0)); a.column = v_int(v_at(A(1), 1)); a.message = v_str(v_at(A(1), 2));
        o_free(sr_location_to_string(&a));
    }
    OP("errno") { preset_errno = v_int(A(1)); o_null(); }
    else return false;
    return true;
}

static int open_files(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}

int main(void)
{
    proto_out = dup(1);
    dup2(2, 1);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    { const char *s = sr_demangle_symbol("_Z1fv"); free((char*)s); }
    Val *req;
    while ((req = proto_read()))
    {
        /* request: [commands, stderr-less]; response: [[results], leaked bytes] */
        out_reset();
        int files = open_files();
        size_t before = __sanitizer_get_current_allocated_bytes();
        o_list(2);
        o_list(req->n);
        for (size_t i = 0; i < req->n; i++)
        {
            const Val *c = req->items[i];
            const char *op = v_str(v_at(c, 0));
            errno = preset_errno;
            preset_errno = 0;
            if (!cmd_generic(op, c) && !cmd_typed(op, c) && !cmd_misc(op, c)) die("unknown command %s", op);
        }
        for (size_t i = 0; i < G_N_ELEMENTS(R); i++) reg_free(&R[i]);
        while (ntemps) free(temps[--ntemps]);
        size_t after = __sanitizer_get_current_allocated_bytes();
        /* a file left open counts as 2^40 bytes */
        o_int((int64_t)after - (int64_t)before + (open_files() - files) * ((int64_t)1 << 40));
        out_flush();
    }
    return 0;
}
