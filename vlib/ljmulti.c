/* Many handles of liblj92 at once (P30): a list of calls, executed in order by one thread or by several threads, each
 * in its own order.  One case per process: the case on stdin, the results on stdout. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/time.h>
#include "lj92.h"

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static __thread int inlib;
static __thread long allocs, fail_at = -1;
static atomic_long live;
static int fail(void) { if (!inlib) return 0; allocs++; return allocs - 1 == fail_at; }
void *__wrap_malloc(size_t n) { if (fail()) return NULL; void *p = __real_malloc(n); if (p && inlib) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fail()) return NULL; void *p = __real_calloc(a, b); if (p && inlib) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (fail()) return NULL; void *p = __real_realloc(q, n); if (!q && p && inlib) live++; return p; }
void __wrap_free(void *p) { if (p && inlib) live--; __real_free(p); }

enum { OPEN = 1, DECODE, CLOSE, ENCODE };
typedef struct { int32_t thread, kind, slot, a, off, wl, sl, lin, fail; } op;
typedef struct { int32_t ret, w, h, bits, comps, len; uint8_t *out; } res;
typedef struct { int32_t len; uint8_t *d; } stream;
typedef struct { int32_t w, h, bd, rl, sl, n, dl; uint16_t *d, *del; } image;
typedef struct { int32_t len; uint16_t *d; } table;

static int32_t nstreams, nimages, ntabs, canvas_n, nops, nthreads;
static stream *streams; static image *images; static table *tabs; static uint16_t *canvas;
static op *ops; static res *results; static lj92 *slots;
static pthread_barrier_t bar;

static void rd(void *p, size_t n) { if (n && fread(p, 1, n, stdin) != n) _exit(70); }
static int32_t ri(void) { int32_t x; rd(&x, 4); return x; }
static void wr(const void *p, size_t n) { if (n) fwrite(p, 1, n, stdout); }

static void one(int i) {
    op *o = &ops[i]; res *r = &results[i];
    allocs = 0; fail_at = o->fail; inlib = 1;
    if (o->kind == OPEN) {
        int w = 0, h = 0, b = 0, c = 0;
        r->ret = lj92_open(&slots[o->slot], streams[o->a].d, streams[o->a].len, &w, &h, &b, &c);
        r->w = w; r->h = h; r->bits = b; r->comps = c;
    } else if (o->kind == DECODE) {
        r->ret = lj92_decode(slots[o->slot], canvas + o->off, o->wl, o->sl, o->lin >= 0 ? tabs[o->lin].d : NULL, o->lin >= 0 ? tabs[o->lin].len : 0);
    } else if (o->kind == CLOSE) {
        lj92_close(slots[o->slot]);
    } else if (o->kind == ENCODE) {
        image *m = &images[o->a]; int len = 0;
        r->ret = lj92_encode(m->d, m->w, m->h, m->bd, m->rl, m->sl, m->del, m->dl, &r->out, &len);
        r->len = r->ret ? 0 : len;
    }
    inlib = 0; fail_at = -1;
}
static void *worker(void *v) {
    int t = (int)(intptr_t)v;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < nops; i++) if (ops[i].thread == t) one(i);
    return NULL;
}
static void onalarm(int s) { (void)s; static const char m[] = "HARNESS-TIMEOUT\n"; if (write(2, m, sizeof m - 1)) {} _exit(77); }
int main(void) {
    signal(SIGVTALRM, onalarm);
    struct itimerval it = {{0, 0}, {40, 0}}; setitimer(ITIMER_VIRTUAL, &it, NULL);
    nstreams = ri(); streams = __real_calloc(nstreams + 1, sizeof *streams);
    for (int i = 0; i < nstreams; i++) { streams[i].len = ri(); streams[i].d = __real_malloc(streams[i].len + !streams[i].len); rd(streams[i].d, streams[i].len); }
    nimages = ri(); images = __real_calloc(nimages + 1, sizeof *images);
    for (int i = 0; i < nimages; i++) {
        image *m = &images[i]; m->w = ri(); m->h = ri(); m->bd = ri(); m->rl = ri(); m->sl = ri(); m->n = ri(); m->dl = ri();
        m->d = __real_malloc(2 * m->n + 1); rd(m->d, 2 * m->n);
        m->del = m->dl ? __real_malloc(2 * m->dl) : NULL; rd(m->del, 2 * m->dl);
    }
    ntabs = ri(); tabs = __real_calloc(ntabs + 1, sizeof *tabs);
    for (int i = 0; i < ntabs; i++) { tabs[i].len = ri(); tabs[i].d = __real_malloc(2 * tabs[i].len + 1); rd(tabs[i].d, 2 * tabs[i].len); }
    canvas_n = ri(); canvas = __real_malloc(2 * (size_t)canvas_n + 1);
    for (int i = 0; i < canvas_n; i++) canvas[i] = 0xA5C3;
    nthreads = ri(); nops = ri(); ops = __real_calloc(nops + 1, sizeof *ops); rd(ops, nops * sizeof *ops);
    results = __real_calloc(nops + 1, sizeof *results); slots = __real_calloc(nops + 1, sizeof *slots);
    if (nthreads == 0) for (int i = 0; i < nops; i++) one(i);
    else {
        pthread_t t[16]; pthread_barrier_init(&bar, NULL, nthreads);
        for (int i = 0; i < nthreads; i++) if (pthread_create(&t[i], NULL, worker, (void *)(intptr_t)i)) _exit(71);
        for (int i = 0; i < nthreads; i++) pthread_join(t[i], NULL);
    }
    for (int i = 0; i < nops; i++) { wr(&results[i], 24); wr(results[i].out, results[i].out ? results[i].len : 0); }
    long kept = 0;
    for (int i = 0; i < nops; i++) if (results[i].out && results[i].ret == 0) kept++;
    int32_t l = (int32_t)(live - kept); wr(&l, 4);
    wr(canvas, 2 * (size_t)canvas_n);
    for (int i = 0; i < nstreams; i++) wr(streams[i].d, streams[i].len);
    for (int i = 0; i < nimages; i++) wr(images[i].d, 2 * images[i].n);
    fflush(stdout);
    return 0;
}
