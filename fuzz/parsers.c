/* libFuzzer target over every text parser of the library. The first byte selects the parser. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdbool.h>
#include <glib.h>
#include <json.h>
#include "location.h"
#include "report_type.h"
#include "stacktrace.h"
#include "thread.h"
#include "frame.h"
#include "report.h"
#include "rpm.h"
#include "operating_system.h"
#include "abrt.h"
#include "unstrip.h"
#include "utils.h"
#include "gdb/stacktrace.h"
#include "gdb/thread.h"
#include "gdb/frame.h"
#include "gdb/sharedlib.h"
#include "koops/stacktrace.h"
#include "koops/frame.h"
#include "python/stacktrace.h"
#include "python/frame.h"
#include "ruby/stacktrace.h"
#include "ruby/frame.h"
#include "java/stacktrace.h"
#include "java/thread.h"
#include "java/frame.h"
#include "js/stacktrace.h"
#include "js/frame.h"
#include "core/stacktrace.h"
#include "internal_utils.h"

static void bad(const char *what)
{
    fprintf(stderr, "ORACLE: %s\n", what);
    abort();
}

static int lines_of(const char *s) { int n = 1; for (; *s; s++) n += *s == '\n'; return n; }

static void where(const char *what, bool ok, const char *buf, const char *in, struct sr_location *l)
{
    char m[200];
    size_t n = strlen(buf);
    if (in < buf || in > buf + n) { snprintf(m, sizeof m, "%s leaves the read position outside the input", what); bad(m); }
    if (l->line < 1 || l->line > lines_of(buf) + (ok ? 1 : 0)) { snprintf(m, sizeof m, "%s reports line %d of %d", what, l->line, lines_of(buf)); bad(m); }
    if (l->column < 0) { snprintf(m, sizeof m, "%s reports column %d", what, l->column); bad(m); }
}

static void use(struct sr_stacktrace *s)
{
    if (s->type != SR_REPORT_GDB) { char *j = sr_stacktrace_to_json(s); json_object *o = json_tokener_parse(j); if (!o && strcmp(j, "{}") && s->type != SR_REPORT_KERNELOOPS) {} if (o) json_object_put(o); g_free(j); }
    if (sr_stacktrace_threads(s))
    {
        if (s->type != SR_REPORT_RUBY)      /* spells out every "rescue in", of which a document may claim 2^32 */
            g_free(sr_stacktrace_to_short_text(s, 5));
        g_free(sr_stacktrace_get_reason(s));
        g_free(sr_stacktrace_get_bthash(s, SR_BTHASH_NORMAL));
        struct sr_thread *t = sr_stacktrace_find_crash_thread(s);
        if (t && s->type != SR_REPORT_GDB) g_free(sr_thread_get_duphash(t, 3, NULL, SR_DUPHASH_NORMAL));
    }
}

#define WHOLE(T, fn, freefn) { struct T *s = fn(&in, &l); where(#fn, s != NULL, b, in, &l); if (s) freefn(s); }
#define FRAME(fn, freefn) { void *s = fn(&in, &l); where(#fn, s != NULL, b, in, &l); if (s) freefn(s); }

static void os_cb(char *k, char *v, void *x) { (void)x; g_free(k); g_free(v); }

static enum sr_report_type types[] = { SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_GDB, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT };

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (size < 2) return 0;
    unsigned k = data[0];
    char *b = malloc(size);
    memcpy(b, data + 1, size - 1);
    b[size - 1] = 0;
    const char *in = b;
    struct sr_location l;
    sr_location_init(&l);
    char *err = NULL;
    switch (k)
    {
    case 'a': case 'b': case 'c': case 'd': case 'e': case 'f': case 'g':
    {
        struct sr_stacktrace *s = sr_stacktrace_parse(types[k - 'a'], b, &err);
        if (s) { if (err) {} use(s); sr_stacktrace_free(s); }
        else if (!err) bad("parse failed without a message");
        break;
    }
    case 'A': case 'B': case 'C': case 'D': case 'F': case 'G':
    {
        struct sr_stacktrace *s = sr_stacktrace_from_json_text(types[k - 'A'], b, &err);
        if (s) { use(s); sr_stacktrace_free(s); }
        else if (!err) bad("JSON refused without a message");
        break;
    }
    case 'H':
    {
        struct sr_report *r = sr_report_from_json_text(b, &err);
        if (r) { g_free(sr_report_to_json(r)); sr_report_free(r); }
        else if (!err) bad("report refused without a message");
        break;
    }
    case '0': WHOLE(sr_gdb_stacktrace, sr_gdb_stacktrace_parse, sr_gdb_stacktrace_free) break;
    case '1': WHOLE(sr_koops_stacktrace, sr_koops_stacktrace_parse, sr_koops_stacktrace_free) break;
    case '2': WHOLE(sr_python_stacktrace, sr_python_stacktrace_parse, sr_python_stacktrace_free) break;
    case '3': WHOLE(sr_ruby_stacktrace, sr_ruby_stacktrace_parse, sr_ruby_stacktrace_free) break;
    case '4': WHOLE(sr_java_stacktrace, sr_java_stacktrace_parse, sr_java_stacktrace_free) break;
    case '5': WHOLE(sr_js_stacktrace, sr_js_stacktrace_parse, sr_js_stacktrace_free) break;
    case '6': FRAME(sr_gdb_frame_parse, sr_gdb_frame_free) break;
    case '7': FRAME(sr_gdb_frame_parse_header, sr_gdb_frame_free) break;
    case '8': { struct sr_koops_frame *f = sr_koops_frame_parse(&in); where("koops frame", f != NULL, b, in, &l); if (f) sr_koops_frame_free(f); break; }
    case '9': FRAME(sr_python_frame_parse, sr_python_frame_free) break;
    case 'i': FRAME(sr_ruby_frame_parse, sr_ruby_frame_free) if (l.message) g_free((char*)l.message); break;
    case 'j': FRAME(sr_java_frame_parse, sr_java_frame_free) break;
    case 'k': { struct sr_java_frame *f = sr_java_frame_parse_exception(&in, &l); where("java exception", f != NULL, b, in, &l); while (f) { struct sr_java_frame *n = f->next; sr_java_frame_free(f); f = n; } break; }
    case 'l': FRAME(sr_js_frame_parse_v8, sr_js_frame_free) break;
    case 'm': FRAME(sr_gdb_thread_parse, sr_gdb_thread_free) break;
    case 'n': FRAME(sr_java_thread_parse, sr_java_thread_free) break;
    case 'o': { struct sr_gdb_sharedlib *s = sr_gdb_sharedlib_parse(b); if (s) sr_gdb_sharedlib_free(s); break; }
    case 'p': { struct sr_unstrip_entry *u = sr_unstrip_parse(b); if (u) sr_unstrip_free(u); break; }
    case 'q': sr_parse_os_release(b, os_cb, NULL); break;
    case 'r': { char *n = NULL, *v = NULL; if (sr_operating_system_parse_etc_system_release(b, &n, &v)) { g_free(n); g_free(v); } break; }
    case 's': { char *n, *v, *r, *a; uint32_t e; if (sr_rpm_package_parse_nevra(b, &n, &e, &v, &r, &a)) { g_free(n); g_free(v); g_free(r); g_free(a); } break; }
    case 't': { struct sr_rpm_package *p = sr_abrt_parse_dso_list(b); if (p) sr_rpm_package_free(p, true); break; }
    case 'u': { struct sr_core_stacktrace *s; char *sep = strstr(b, "\n=====\n"); if (!sep) break; *sep = 0; s = sr_core_stacktrace_create(b, sep + 7, "/x"); if (s) sr_core_stacktrace_free(s); break; }
    case 'v': { struct sr_operating_system *o = sr_operating_system_new(); sr_operating_system_parse_etc_os_release(b, o); sr_operating_system_free(o); break; }
    case 'w': { struct sr_gdb_thread *t = sr_gdb_thread_parse_funs(b); if (t) sr_gdb_thread_free(t); break; }
    }
    g_free(err);
    free(b);
    return 0;
}
