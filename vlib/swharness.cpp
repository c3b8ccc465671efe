// Harness for the control software (P22 to P24). The code under test is compiled with clang's access instrumentation
// (-fsanitize=thread, runtime replaced by the callbacks below), so that every access to a window mapped from /dev/mem is
// seen in program order; open/mmap/close/usleep are replaced by stand-ins, /dev/mem is never opened.
//
// Register windows: before a read the model (the Python parent) is asked for the value; a write is reported before the
// next access. Memory windows (environment SW_MEM: "base:len:fd,...") are shared files; the parent fills and reads them.
//
// Protocol (fds 3 = commands and answers in, 4 = out), one line each:
//   out: O path | M base len | R addr size | W addr size value | U usec | D [answer]     in: value (hex) after R
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/types.h>

#include <string>
#include <vector>

#ifndef TOOL
#include "core_axi_lite.h"
#include "xilinx_dma.h"
#endif

typedef unsigned long uptr;

extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_close(int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_usleep(useconds_t);
}

static const int DEVMEM = 700;
static char obuf[1 << 16];
static size_t on = 0;
static char ibuf[1 << 16];
static size_t ip = 0, in_ = 0;

static void oflush()
{
    size_t k = 0;
    while (k < on) {
        ssize_t r = write(4, obuf + k, on - k);
        if (r <= 0) _exit(77);
        k += r;
    }
    on = 0;
}

static void out(const char* f, ...)
{
    if (on > sizeof(obuf) - 600) oflush();
    va_list a;
    va_start(a, f);
    on += vsnprintf(obuf + on, 500, f, a);
    va_end(a);
}

static bool line(std::string& s)
{
    s.clear();
    oflush();
    while (true) {
        if (ip == in_) {
            ssize_t r = read(3, ibuf, sizeof ibuf);
            if (r <= 0) return false;
            ip = 0;
            in_ = r;
        }
        char c = ibuf[ip++];
        if (c == '\n') return true;
        s += c;
    }
}

struct Win { uptr a, len; uint64_t base; };
static Win wins[8192];
static int nw = 0;
static uptr lo = ~0UL, hi = 0;

static struct { bool on; uptr a; size_t size; uint64_t addr; } pend;

static void flush_write()
{
    if (!pend.on) return;
    pend.on = false;
    uint64_t v = 0;
    memcpy(&v, (void*) pend.a, pend.size);
    out("W %lx %zu %lx\n", (uptr) pend.addr, pend.size, (uptr) v);
}

static Win* win(uptr a)
{
    if (a < lo || a >= hi) return NULL;
    for (int i = nw - 1; i >= 0; i--)
        if (a - wins[i].a < wins[i].len) return &wins[i];
    return NULL;
}

static void rd(const void* p, size_t size)
{
    Win* w = win((uptr) p);
    if (!w) return;
    flush_write();
    out("R %lx %zu\n", (uptr) (w->base + ((uptr) p - w->a)), size);
    std::string s;
    if (!line(s)) _exit(76);
    uint64_t v = strtoull(s.c_str(), NULL, 16);
    memcpy((void*) p, &v, size);
}

static void wr(const void* p, size_t size)
{
    Win* w = win((uptr) p);
    if (!w) return;
    flush_write();
    pend.on = true;
    pend.a = (uptr) p;
    pend.size = size;
    pend.addr = w->base + ((uptr) p - w->a);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
void __tsan_read##n(void* p) { rd(p, n); } \
void __tsan_write##n(void* p) { wr(p, n); } \
void __tsan_unaligned_read##n(void* p) { rd(p, n); } \
void __tsan_unaligned_write##n(void* p) { wr(p, n); } \
void __tsan_volatile_read##n(void* p) { rd(p, n); } \
void __tsan_volatile_write##n(void* p) { wr(p, n); } \
void __tsan_unaligned_volatile_read##n(void* p) { rd(p, n); } \
void __tsan_unaligned_volatile_write##n(void* p) { wr(p, n); } \
void __tsan_read_write##n(void* p) { rd(p, n); wr(p, n); } \
void __tsan_unaligned_read_write##n(void* p) { rd(p, n); wr(p, n); }
RW(1) RW(2) RW(4) RW(8)
static void chunks(const void* p, size_t n, bool write)
{
    const char* c = (const char*) p;
    for (size_t i = 0; i < n; ) {
        size_t k = (n - i >= 4 && ((uptr) (c + i) & 3) == 0) ? 4 : 1;
        if (!win((uptr) (c + i))) { i += k; continue; }
        write ? wr(c + i, k) : rd(c + i, k);
        if (write) flush_write();
        i += k;
    }
}
void __tsan_read16(void* p) { chunks(p, 16, false); }
void __tsan_write16(void* p) { wr(p, 8); wr((char*) p + 8, 8); }
void __tsan_unaligned_read16(void* p) { chunks(p, 16, false); }
void __tsan_unaligned_write16(void* p) { wr(p, 8); wr((char*) p + 8, 8); }
void __tsan_read_range(void* p, size_t n) { chunks(p, n, false); }
void __tsan_write_range(void* p, size_t n) { chunks(p, n, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (win((uptr) s)) chunks(s, n, false);
    memmove(d, s, n);
    if (win((uptr) d)) chunks(d, n, true);
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n)
{
    memset(d, c, n);
    if (win((uptr) d)) chunks(d, n, true);
    return d;
}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { rd((const void*) p, sizeof(T)); return *p; } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { wr((const void*) p, sizeof(T)); *p = v; flush_write(); } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { rd((const void*) p, sizeof(T)); wr((const void*) p, sizeof(T)); T o = *p; *p = v; flush_write(); return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { rd((const void*) p, sizeof(T)); wr((const void*) p, sizeof(T)); T o = *p; *p = o | v; flush_write(); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { rd((const void*) p, sizeof(T)); wr((const void*) p, sizeof(T)); T o = *p; *p = o & v; flush_write(); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

static int open_(const char* path)
{
    out("O %s\n", path);
    return DEVMEM;
}
static bool dev(const char* p) { return strncmp(p, "/dev/", 5) == 0 && strcmp(p, "/dev/null") != 0; }
int __wrap_open(const char* p, int f, ...)
{
    if (dev(p)) return open_(p);
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return __real_open(p, f, m);
}
int __wrap_open64(const char* p, int f, ...)
{
    if (dev(p)) return open_(p);
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return __real_open(p, f, m);
}
int __wrap_close(int fd)
{
    if (fd == DEVMEM) return 0;
    return __real_close(fd);
}
static void* map_(size_t len, int flags, off_t off)
{
    if ((off & 4095) || !len) { errno = EINVAL; return MAP_FAILED; }
    out("M %lx %lx\n", (uptr) off, (uptr) len);
    size_t l = (len + 4095) & ~4095UL;
    char* m = (char*) __real_mmap(NULL, l + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return m;
    const char* e = getenv("SW_MEM");
    while (e && *e) {
        char* q;
        uint64_t b = strtoull(e, &q, 16), n = strtoull(q + 1, &q, 16);
        int fd = strtol(q + 1, &q, 10);
        if ((uint64_t) off >= b && (uint64_t) off + len <= b + n)
            return __real_mmap(m + 4096, l, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, off - b);
        e = *q ? q + 1 : q;
    }
    void* r = __real_mmap(m + 4096, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (r == MAP_FAILED) return r;
    if (nw == 8192) _exit(75);
    wins[nw].a = (uptr) r;
    wins[nw].len = l;
    wins[nw].base = off;
    nw++;
    if ((uptr) r < lo) lo = (uptr) r;
    if ((uptr) r + l > hi) hi = (uptr) r + l;
    return r;
}
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    if (fd == DEVMEM) return map_(len, flags, off);
    return __real_mmap(a, len, prot, flags, fd, off);
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    if (fd == DEVMEM) return map_(len, flags, off);
    return __real_mmap(a, len, prot, flags, fd, off);
}
int __wrap_munmap(void* a, size_t len)
{
    for (int i = 0; i < nw; i++)
        if (wins[i].a == (uptr) a) { flush_write(); wins[i] = wins[--nw]; break; }
    return __real_munmap(a, len);
}
int __wrap_usleep(useconds_t u)
{
    flush_write();
    out("U %lx\n", (uptr) u);
    return 0;
}
int __wrap_nanosleep(const struct timespec* t, struct timespec*)
{
    flush_write();
    out("U %lx\n", (uptr) (t->tv_sec * 1000000UL + t->tv_nsec / 1000));
    return 0;
}
}

#ifdef TOOL
extern "C" int xilinx_main(int argc, char** argv);
int main(int argc, char** argv)
{
    int r = xilinx_main(argc, argv);
    flush_write();
    fflush(stdout);
    out("D %x\n", r);
    oflush();
    exit(0);
}
#else
static std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? "|" : "") + v[i];
    return s;
}

int main()
{
    CoreAXILite* core[64] = {};
    XilinxDMA* dma[64] = {};
    std::string s;
    while (line(s)) {
        char cmd[40];
        unsigned id = 0, a = 0, b = 0;
        sscanf(s.c_str(), "%39s %u %u %u", cmd, &id, &a, &b);
        std::string c = cmd, r;
        if (c == "core") { core[id] = new CoreAXILite(a, b); }
        else if (c == "dropcore") { delete core[id]; core[id] = NULL; }
        else if (c == "get_height") r = std::to_string(core[id]->get_height());
        else if (c == "get_width") r = std::to_string(core[id]->get_width());
        else if (c == "get_allowed_cycles") r = std::to_string(core[id]->get_allowed_cycles());
        else if (c == "get_ssss") r = join(core[id]->get_ssss());
        else if (c == "get_debug") r = join(core[id]->get_debug());
        else if (c == "set_height") core[id]->set_height(a);
        else if (c == "set_width") core[id]->set_width(a);
        else if (c == "set_allowed_cycles") core[id]->set_allowed_cycles(a);
        else if (c == "dma") { dma[id] = new XilinxDMA(a); }
        else if (c == "dropdma") { delete dma[id]; dma[id] = NULL; }
        else if (c == "s2mm_status") r = join(dma[id]->dma_s2mm_status());
        else if (c == "mm2s_status") r = join(dma[id]->dma_mm2s_status());
        else if (c == "mm2s_sync") dma[id]->dma_mm2s_sync();
        else if (c == "s2mm_sync") dma[id]->dma_s2mm_sync();
        else if (c == "reset") dma[id]->reset_dma();
        else if (c == "halt") dma[id]->halt_dma();
        else if (c == "addr") dma[id]->set_dma_src_dist(a, b);
        else if (c == "start") dma[id]->start_dma();
        else if (c == "len") dma[id]->set_dma_transfer_len(a, b);
        else _exit(74);
        flush_write();
        if (on > sizeof(obuf) - 4096) oflush();
        oflush();
        std::string d = "D " + r + "\n";
        size_t k = 0;
        while (k < d.size()) { ssize_t q = write(4, d.data() + k, d.size() - k); if (q <= 0) _exit(77); k += q; }
    }
    return 0;
}
#endif
