#ifndef OBJ_H
#define OBJ_H
#include "proto.h"
#include <glib.h>
#include <json.h>
#include "report_type.h"
#include "frame.h"
#include "thread.h"
#include "stacktrace.h"
#include "location.h"
#include "normalize.h"
#include "distance.h"
#include "utils.h"
#include "abrt.h"
#include "report.h"
#include "rpm.h"
#include "operating_system.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/sharedlib.h"
#include "gdb/stacktrace.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "core/unwind.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "js/frame.h"
#include "js/platform.h"
#include "js/stacktrace.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "cluster.h"
#include "unstrip.h"
#include "elves.h"

enum fkind { F_STR, F_U64, F_U32, F_U16, F_I64, F_INT, F_BOOL, F_STRV };
struct field { const char *name; enum fkind kind; size_t off; };

struct tdesc {
    const char *name;
    enum sr_report_type type;
    const struct field *frame, *thread, *stack;   /* thread NULL: the trace is the thread */
};
const struct tdesc *tdesc(enum sr_report_type t);
const struct tdesc *tdesc_by_name(const char *name);

void set_fields(void *obj, const struct field *f, const Val *d, bool fresh);
void dump_fields_into(void *obj, const struct field *f, uint32_t extra);

struct sr_frame *build_frames(enum sr_report_type t, const Val *list);
struct sr_thread *build_thread(enum sr_report_type t, const Val *d);
struct sr_stacktrace *build_stack(const Val *d);
void free_frames(struct sr_frame *f);
void free_threads(struct sr_thread *t);
void dump_frame(struct sr_frame *f);
void dump_frames(struct sr_frame *f);
void dump_thread(struct sr_thread *t);
void dump_stack(struct sr_stacktrace *s);
struct sr_gdb_sharedlib *build_libs(const Val *list);
void dump_libs(struct sr_gdb_sharedlib *l);
struct sr_rpm_package *build_rpms(const Val *list);
void dump_rpms(struct sr_rpm_package *p);
struct sr_rpm_consistency *build_cons(const Val *list);
void dump_cons(struct sr_rpm_consistency *c);
struct sr_operating_system *build_os(const Val *d);
void dump_os(struct sr_operating_system *o);
struct sr_report *build_report(const Val *d);
void dump_report(struct sr_report *r);
extern const struct field os_fields[], lib_fields[], rpm_fields[], cons_fields[];
#endif
