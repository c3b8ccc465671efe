/* Drives liblj92 for the checks: reads commands from stdin, writes results to stdout.
 * Built with the sanitizers together with /repo/liblj92/lj92.c; allocation functions of the library are wrapped
 * (count of live blocks, injected failures).  With -DFUZZ it is the libFuzzer target instead. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include "lj92.h"

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int inlib;             /* inside a call of the library */
static long live, allocs, fail_at = -1;
static size_t maxalloc = (size_t)1 << 31;
static int fail(size_t n) { if (!inlib) return 0; allocs++; return allocs - 1 == fail_at || n > maxalloc; }
void *__wrap_malloc(size_t n) { if (fail(n)) return NULL; void *p = __real_malloc(n); if (p && inlib) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) return NULL;
    if (fail(a * b)) return NULL; void *p = __real_calloc(a, b); if (p && inlib) live++; return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (fail(n)) return NULL; void *p = __real_realloc(q, n); if (!q && p && inlib) live++; return p; }
void __wrap_free(void *p) { if (p && inlib) live--; __real_free(p); }

#define LIB(x) do { inlib = 1; x; inlib = 0; } while (0)

typedef struct { int ret_open, ret, w, h, bits, comps, changed, repeat_differs, too_big; long live; size_t n; uint16_t *target; } dres;

/* open, decode (twice), close; the target has exactly the size the caller must provide */
static dres decode(const uint8_t *data, int len, int wl, int sl, const uint16_t *lin, int linlen, size_t cap) {
    dres r; memset(&r, 0, sizeof r);
    uint8_t *in = __real_malloc(len ? len : 1); memcpy(in, data, len);
    if (!len) { __real_free(in); in = __real_malloc(1); }
    uint8_t *in2 = in;
    uint16_t *l2 = NULL;
    if (linlen) { l2 = __real_malloc(linlen * 2); memcpy(l2, lin, linlen * 2); }
    lj92 h = (lj92)1; long live0 = live;
    LIB(r.ret_open = lj92_open(&h, in2, len, &r.w, &r.h, &r.bits, &r.comps));
    r.ret = r.ret_open;
    if (r.ret_open == 0) {
        size_t n = (size_t)r.w * r.h * r.comps;
        if (n > cap) r.too_big = 1;
        else {
            size_t region = n + (wl > 0 && n ? (n - 1) / wl * (size_t)sl : 0);
            uint16_t *t = __real_malloc(region * 2 + !region);
            for (size_t i = 0; i < region; i++) t[i] = 0xA5C3;
            LIB(r.ret = lj92_decode(h, t, wl, sl, l2, linlen));
            uint16_t *t2 = __real_malloc(region * 2 + !region);
            for (size_t i = 0; i < region; i++) t2[i] = 0xA5C3;
            int ret2; LIB(ret2 = lj92_decode(h, t2, wl, sl, l2, linlen));
            if (ret2 != r.ret || (r.ret == 0 && memcmp(t, t2, region * 2))) r.repeat_differs = 1;
            __real_free(t2);
            r.n = region; r.target = t;
        }
        LIB(lj92_close(h));
    }
    r.live = live - live0;
    r.changed = memcmp(in, data, len) != 0;
    __real_free(in); __real_free(l2);
    return r;
}

typedef struct { int ret, len; uint8_t *out; long live; } eres;
static eres encode(const uint16_t *img, size_t n, int w, int h, int bd, int rl, int sl, const uint16_t *del, int dl) {
    eres r; memset(&r, 0, sizeof r);
    uint16_t *im = __real_malloc(n * 2 + !n); memcpy(im, img, n * 2);
    uint16_t *d2 = NULL;
    if (dl) { d2 = __real_malloc(dl * 2); memcpy(d2, del, dl * 2); }
    long live0 = live; uint8_t *out = NULL; int len = 0;
    LIB(r.ret = lj92_encode(im, w, h, bd, rl, sl, d2, dl, &out, &len));
    if (r.ret == 0) { r.out = out; r.len = len; r.live = live - live0 - 1; }
    else r.live = live - live0;
    __real_free(im); __real_free(d2);
    return r;
}

#ifdef FUZZ
static void bad(const char *what) { fprintf(stderr, "FUZZ-ORACLE: %s\n", what); abort(); }
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if (n < 8) return 0;
    const uint8_t *p = d; d += 8; n -= 8;
    if (p[0] & 1) {                   /* encode what follows as samples */
        int w = 1 + p[1] % 64, h = 1 + p[2] % 64, bd = 2 + p[3] % 15, mask = (1 << bd) - 1;
        int rl = p[4] % 2 ? w : 1 + p[5] % 70, sl = p[6] % 9, dl = p[0] & 2 ? 1 + (p[7] << (p[0] >> 2 & 7)) : 0;
        if (dl > 4096) dl = p[7] == 255 ? 65536 : 4096;
        size_t total = (size_t)w * h, need = total + (total - 1) / rl * sl;
        uint16_t *img = malloc(need * 2), *del = dl ? malloc(dl * 2) : NULL;
        for (size_t i = 0; i < need; i++) { uint16_t v = n ? d[(2 * i) % n] | d[(2 * i + 1) % n] << 8 : 0; img[i] = p[0] & 0x80 ? v : v & mask; }
        for (int i = 0; i < dl; i++) del[i] = (i * (2 * p[5] + 1)) & mask;
        eres e = encode(img, need, w, h, bd, rl, sl, del, dl);
        if (e.live) bad("encode leaks");
        if (e.ret == 0) {
            dres r = decode(e.out, e.len, 0, 0, NULL, 0, 1 << 22);
            if (r.ret) bad("the decoder refuses the encoder's output");
            if (r.w != w || r.h != h || r.bits != bd || r.comps != 1) bad("geometry");
            for (size_t i = 0; i < total; i++) {
                uint16_t v = img[i + i / rl * sl]; if (dl) v = del[v];
                if (r.target[i] != v) bad("round trip");
            }
            __real_free(r.target); __real_free(e.out);
        } else if (!dl && !(p[0] & 0x80)) bad("the encoder refuses a good image");
        free(img); free(del);
    } else {
        int wl = p[1] | (p[2] & 15) << 8, sl = p[3] % 17, ll = p[4] & 1 ? (p[5] | p[6] << 8) & (p[4] == 255 ? 0xFFFF : 0xFFF) : 0;
        uint16_t *lin = ll ? malloc(ll * 2) : NULL;
        for (int i = 0; i < ll; i++) lin[i] = i * 7;
        dres r = decode(d, (int)n, wl, sl, lin, ll, 1 << 15);
        if (r.live) bad("open/decode/close leaks");
        if (r.changed) bad("the input was changed");
        if (r.repeat_differs) bad("a second decode differs");
        __real_free(r.target); free(lin);
    }
    return 0;
}
#else
static void rd(void *p, size_t n) { if (n && fread(p, 1, n, stdin) != n) _exit(0); }
static void wr(const void *p, size_t n) { if (n) fwrite(p, 1, n, stdout); }
static void onalarm(int s) { (void)s; static const char m[] = "HARNESS-TIMEOUT\n"; if (write(2, m, sizeof m - 1)) {} _exit(77); }
int main(int argc, char **argv) {
    int secs = argc > 1 ? atoi(argv[1]) : 30;
    signal(SIGVTALRM, onalarm);
    for (;;) {
        int32_t a[12];
        rd(a, sizeof a);
        struct itimerval it = {{0, 0}, {secs, 0}}; setitimer(ITIMER_VIRTUAL, &it, NULL);
        fail_at = a[1] ; allocs = 0;
        if (a[0] == 1) {              /* decode: len wl sl linlen cap */
            uint8_t *d = __real_malloc(a[2] + 1); rd(d, a[2]);
            uint16_t *lin = __real_malloc(a[5] * 2 + 2); rd(lin, a[5] * 2);
            dres r = decode(d, a[2], a[3], a[4], lin, a[5], (size_t)a[6]);
            int32_t o[12] = {r.ret_open, r.ret, r.w, r.h, r.bits, r.comps, r.changed, r.repeat_differs, r.too_big, (int32_t)r.live, (int32_t)r.n, (int32_t)allocs};
            wr(o, sizeof o); wr(r.target, r.n * 2);
            __real_free(r.target); __real_free(d); __real_free(lin);
        } else if (a[0] == 3) {       /* a large image of zeros with some other pixels: w h bd decode-too */
            size_t n = (size_t)a[2] * a[3];
            uint16_t *im = __real_calloc(n, 2), m = (1 << a[4]) - 1;
            for (int i = 0; i < 5; i++) im[(n - 1) / 4 * i] = m;
            long live0 = live; uint8_t *out = NULL; int len = 0, ret, bad = 0;
            LIB(ret = lj92_encode(im, a[2], a[3], a[4], a[2], 0, NULL, 0, &out, &len));
            int32_t o[12] = {ret, len, 0, 0, 0, 0, 0, 0, 0, (int32_t)(live - live0 - (ret == 0)), 0, 0};
            if (ret == 0 && a[5]) {
                lj92 h; int w, hh, b, c;
                LIB(ret = lj92_open(&h, out, len, &w, &hh, &b, &c));
                if (ret == 0 && (w != a[2] || hh != a[3])) bad = 1;
                if (ret == 0 && !bad) {
                    uint16_t *t = __real_malloc(n * 2);
                    LIB(ret = lj92_decode(h, t, w, 0, NULL, 0));
                    bad = ret == 0 && memcmp(t, im, n * 2);
                    __real_free(t);
                    LIB(lj92_close(h));
                }
                o[2] = ret; o[3] = bad;
            }
            wr(o, sizeof o);
            __real_free(im); __real_free(out);
        } else {                      /* encode: n w h bd rl sl dl */
            uint16_t *d = __real_malloc((size_t)a[2] * 2 + 2); rd(d, (size_t)a[2] * 2);
            uint16_t *del = __real_malloc(a[8] * 2 + 2); rd(del, a[8] * 2);
            eres r = encode(d, a[2], a[3], a[4], a[5], a[6], a[7], del, a[8]);
            int32_t o[12] = {r.ret, 0, 0, 0, 0, 0, 0, 0, 0, (int32_t)r.live, r.ret == 0 ? r.len : 0, (int32_t)allocs};
            wr(o, sizeof o); if (r.ret == 0) wr(r.out, r.len);
            __real_free(r.out); __real_free(d); __real_free(del);
        }
        fflush(stdout);
    }
}
#endif
