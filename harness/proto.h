/* Tagged values exchanged with the driver, and the scratch arena they live in.
 * Nothing here uses malloc, so the heap accounting of the server sees only
 * what the library (and the explicit copies of inputs) allocate. */
#ifndef PROTO_H
#define PROTO_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

typedef struct Val Val;
struct Val {
    char t;                 /* N null, I int64, U uint64, F double, B bytes, L list, D dict */
    int64_t i;
    double d;
    const char *s;          /* B: NUL terminated copy in the arena */
    size_t n;               /* B: length; L, D: number of items */
    Val **items;            /* L: items, D: values */
    Val **keys;             /* D: keys (B) */
};

void die(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
Val *proto_read(void);                  /* NULL at end of input */
void out_reset(void);
void out_flush(void);
void o_null(void);
void o_int(int64_t v);
void o_u64(uint64_t v);
void o_dbl(double v);
void o_str(const char *s);              /* NULL -> null */
void o_mem(const char *s, size_t n);
void o_list(uint32_t n);
void o_dict(uint32_t n);
size_t o_list_begin(void);              /* list with length patched later */
void o_list_end(size_t mark, uint32_t n);

int64_t v_int(const Val *v);
uint64_t v_u64(const Val *v);
double v_dbl(const Val *v);
const char *v_str(const Val *v);        /* NULL for null */
const Val *v_get(const Val *v, const char *key);
const Val *v_at(const Val *v, size_t i);
#endif
