#include "proto.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

#define ARENA (256u << 20)
static char *arena, *obuf;
static size_t apos, opos;
int proto_out = 1;

void die(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "HARNESS-ERROR: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    _exit(99);
}

static void *amap(void)
{
    void *p = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("mmap");
    return p;
}

static void *aalloc(size_t n)
{
    n = (n + 15) & ~(size_t)15;
    if (apos + n > ARENA) die("arena full");
    void *p = arena + apos;
    apos += n;
    return p;
}

static bool rd(void *p, size_t n)
{
    char *c = p;
    while (n)
    {
        ssize_t r = read(0, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r; n -= r;
    }
    return true;
}

static const char *cur, *end;
static void get(void *p, size_t n)
{
    if ((size_t)(end - cur) < n) die("short request");
    memcpy(p, cur, n);
    cur += n;
}

static Val *decode(void)
{
    Val *v = aalloc(sizeof *v);
    memset(v, 0, sizeof *v);
    get(&v->t, 1);
    uint32_t n;
    switch (v->t)
    {
    case 'N': break;
    case 'I': case 'U': get(&v->i, 8); break;
    case 'F': get(&v->d, 8); break;
    case 'B':
    {
        get(&n, 4);
        char *s = aalloc((size_t)n + 1);
        get(s, n);
        s[n] = 0;
        v->s = s; v->n = n;
        break;
    }
    case 'L':
        get(&n, 4);
        v->n = n;
        v->items = aalloc(sizeof(Val*) * (n + 1));
        for (uint32_t k = 0; k < n; k++) v->items[k] = decode();
        break;
    case 'D':
        get(&n, 4);
        v->n = n;
        v->items = aalloc(sizeof(Val*) * (n + 1));
        v->keys = aalloc(sizeof(Val*) * (n + 1));
        for (uint32_t k = 0; k < n; k++) { v->keys[k] = decode(); v->items[k] = decode(); }
        break;
    default: die("bad tag %d", v->t);
    }
    return v;
}

Val *proto_read(void)
{
    if (!arena) { arena = amap(); obuf = amap(); }
    apos = 0;
    uint32_t len;
    if (!rd(&len, 4)) return NULL;
    if (len > ARENA / 8) die("request too large");
    char *buf = aalloc(len);
    if (!rd(buf, len)) return NULL;
    cur = buf; end = buf + len;
    return decode();
}

void out_reset(void) { opos = 4; }
static void put(const void *p, size_t n)
{
    if (opos + n > ARENA) die("output full");
    memcpy(obuf + opos, p, n);
    opos += n;
}
static void tag(char t) { put(&t, 1); }
void out_flush(void)
{
    uint32_t len = opos - 4;
    memcpy(obuf, &len, 4);
    size_t done = 0;
    while (done < opos)
    {
        ssize_t r = write(proto_out, obuf + done, opos - done);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(98);
        done += r;
    }
}
void o_null(void) { tag('N'); }
void o_int(int64_t v) { tag('I'); put(&v, 8); }
void o_u64(uint64_t v) { tag('U'); put(&v, 8); }
void o_dbl(double v) { tag('F'); put(&v, 8); }
void o_mem(const char *s, size_t n) { uint32_t k = n; tag('B'); put(&k, 4); put(s, n); }
void o_str(const char *s) { if (s) o_mem(s, strlen(s)); else o_null(); }
void o_list(uint32_t n) { tag('L'); put(&n, 4); }
void o_dict(uint32_t n) { tag('D'); put(&n, 4); }
size_t o_list_begin(void) { o_list(0); return opos - 4; }
void o_list_end(size_t mark, uint32_t n) { memcpy(obuf + mark, &n, 4); }

int64_t v_int(const Val *v)
{
    if (!v) die("missing int");
    if (v->t == 'N') return 0;
    if (v->t != 'I' && v->t != 'U') die("not an int: %c", v->t);
    return v->i;
}
uint64_t v_u64(const Val *v) { return (uint64_t)v_int(v); }
double v_dbl(const Val *v)
{
    if (v && v->t == 'F') return v->d;
    return (double)v_int(v);
}
const char *v_str(const Val *v)
{
    if (!v) die("missing string");
    if (v->t == 'N') return NULL;
    if (v->t != 'B') die("not a string: %c", v->t);
    return v->s;
}
const Val *v_get(const Val *v, const char *key)
{
    if (!v || v->t != 'D') return NULL;
    for (size_t k = 0; k < v->n; k++)
        if (strcmp(v->keys[k]->s, key) == 0) return v->items[k];
    return NULL;
}
const Val *v_at(const Val *v, size_t i)
{
    static const Val nul = { .t = 'N' };
    if (!v || v->t != 'L') die("not a list");
    if (i >= v->n) return &nul;
    return v->items[i];
}
