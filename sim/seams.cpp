#include "seams.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <random>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void sim_assert_fail(const char *what, const char *file, int line);
}

namespace seam {
bool g_in_sut = false;
Heap g_heap;
RandStream *g_rand = nullptr;
Clock g_clock;
uint64_t g_entropy = 1, g_entropy0 = 1;
Disk g_disk;

double real_now() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// Every block carries a header, so that frees are attributed whatever code runs them and a bad or double free is seen.
// In a simulated run the blocks come from two regions at fixed addresses (system under test, harness), which start empty:
// the address of every block follows from the plan alone, in whatever process and after whatever history it runs.
static const uint64_t MAGIC = 0x51b7f00dc0ffee00ULL;           // low byte: size class in a region, 0: from the C library
struct Hdr { uint64_t magic; uint64_t size; };     // 16 bytes: keeps 16-byte alignment
static_assert(sizeof(Hdr) == 16, "alignment");

struct Region {
    char *base = nullptr; size_t cap = 0, lo = 0, hi = 0;
    bool down = false, fifo = false;               // carve from the top; reuse the block freed longest ago
    Hdr *head[256] = {}, *tail[256] = {};
    static unsigned classOf(size_t n, size_t *sz) {
        if (n <= 1024) { unsigned c = n ? (unsigned)((n + 15) / 16) : 1; *sz = c * 16; return c; }
        unsigned c = 64; size_t p = 1024;
        while (p * 2 < n) { p *= 2; c += 4; }
        for (unsigned k = 1; k <= 4; ++k) { ++c; if (n <= p + p / 4 * k) { *sz = p + p / 4 * k; return c; } }
        return 255;
    }
    Hdr *take(size_t n, unsigned *c) {
        size_t sz; *c = classOf(n, &sz);
        if (Hdr *h = head[*c]) { head[*c] = (Hdr *)(uintptr_t)h->size; if (!head[*c]) tail[*c] = nullptr; return h; }
        if (!cap || n > cap / 8 || hi - lo < sz) return nullptr;
        if (down) { hi -= sz; return (Hdr *)(base + hi); }
        lo += sz; return (Hdr *)(base + lo - sz);
    }
    void give(Hdr *h, unsigned c) {
        h->size = 0;
        if (fifo && tail[c]) { tail[c]->size = (uint64_t)(uintptr_t)h; tail[c] = h; return; }
        h->size = (uint64_t)(uintptr_t)head[c];
        head[c] = h; if (!tail[c]) tail[c] = h;
    }
    void start(uintptr_t at) {
        const size_t N = size_t(4) << 30;
        void *p = mmap((void *)at, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) return;
        if (p != (void *)at) { munmap(p, N); return; }
        base = (char *)p; hi = cap = N;
    }
};
static Region g_region[2];                         // 0: harness, 1: system under test
void heap_regions() { g_region[0].start(0x180000000000ULL); g_region[1].start(0x100000000000ULL); }
void heap_shape(unsigned salt) {                   // where blocks lie and how freed ones are reused
    Region &r = g_region[1];
    if (!r.cap || r.lo || r.hi != r.cap) return;
    r.lo = salt * 11 % 4096 * 16; r.hi -= salt * 7 % 4096 * 16; r.down = salt & 1; r.fifo = salt & 2;
}

static void *alloc_impl(size_t n) {
    bool sut = g_in_sut;
    if (sut) {
        ++g_heap.allocs;
        if (g_heap.fail_after == 0) { g_heap.fail_after = -1; ++g_heap.failures; return nullptr; }
        if (g_heap.fail_after > 0) --g_heap.fail_after;
    }
    size_t need = sizeof(Hdr) + n + (sut ? g_heap.pad : 0);
    if (need < n) return nullptr;
    unsigned c = 0;
    Hdr *h = g_region[sut].take(need, &c);
    if (!h) { c = 0; h = (Hdr *)__real_malloc(need); }
    if (!h) return nullptr;
    h->magic = sut ? MAGIC | c : ~(MAGIC | c);
    h->size = n;
    if (sut) { g_heap.live += (int64_t)n; memset(h + 1, g_heap.fill, n); }
    return h + 1;
}
static void free_impl(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    uint64_t m = h->magic;
    bool sut = (m & ~0xFFULL) == MAGIC;
    if (sut) { g_heap.live -= (int64_t)h->size; memset(p, 0xDD, h->size); }
    else if ((~m & ~0xFFULL) != MAGIC) crash("crash:bad-free", "free of a block that was not allocated or already freed");
    else m = ~m;
    h->magic = 0;
    if (m & 0xFF) g_region[sut].give(h, (unsigned)(m & 0xFF)); else __real_free(h);
}

void (*g_on_crash)(const char *, const char *) = nullptr;
void crash(const char *cls, const char *detail) {
    static volatile int once = 0;
    if (!once) { once = 1; g_in_sut = false; if (g_on_crash) g_on_crash(cls, detail); }
    _exit(3);
}
static char g_assert_msg[512];
static void on_signal(int sig) {
    const char *cls = sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGABRT ? "crash:SIGABRT" : sig == SIGFPE ? "crash:SIGFPE"
             : sig == SIGBUS ? "crash:SIGBUS" : sig == SIGPROF ? "hang:cpu-time" : sig == SIGILL ? "crash:SIGILL" : "crash:signal";
    crash(cls, g_assert_msg[0] ? g_assert_msg : (g_in_sut ? "inside the system under test" : "outside the system under test"));
}
void install_crash_handlers(int cpu_seconds) {
    static char stack[1 << 16];
    stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval it{}; it.it_value.tv_sec = cpu_seconds; setitimer(ITIMER_PROF, &it, nullptr);
}
}   // namespace seam

using namespace seam;

extern "C" void sim_assert_fail(const char *what, const char *file, int line) {
    const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
    snprintf(g_assert_msg, sizeof g_assert_msg, "Eigen range check failed: %s (%s:%d)", what, b, line);
    crash(g_in_sut ? "crash:eigen-range" : "harness:eigen-range", g_assert_msg);
}
// libstdc++ assertion hook
namespace std {
void __glibcxx_assert_fail(const char *file, int line, const char *func, const char *cond) noexcept {
    const char *b = file ? strrchr(file, '/') : ""; b = b ? b + 1 : file;
    (void)line; (void)func;
    snprintf(g_assert_msg, sizeof g_assert_msg, "libstdc++ check failed: %s (%s)", cond ? cond : "?", b ? b : "?");
    crash(g_in_sut ? "crash:stl-check" : "harness:stl-check", g_assert_msg);
}
}

// ---- heap -----------------------------------------------------------------------------------------
extern "C" {
void *__wrap_malloc(size_t n) { void *p = alloc_impl(n); if (!p) errno = ENOMEM; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = alloc_impl(a * b); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (n == 0) { free_impl(p); return nullptr; }
    void *q = alloc_impl(n);
    if (!q) return nullptr;
    size_t o = ((Hdr *)p - 1)->size;
    memcpy(q, p, o < n ? o : n);
    free_impl(p);
    return q;
}
void __wrap_free(void *p) { free_impl(p); }
}
void *operator new(size_t n) { void *p = alloc_impl(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = alloc_impl(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc_impl(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc_impl(n); }
void operator delete(void *p) noexcept { free_impl(p); }
void operator delete[](void *p) noexcept { free_impl(p); }
void operator delete(void *p, size_t) noexcept { free_impl(p); }
void operator delete[](void *p, size_t) noexcept { free_impl(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free_impl(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free_impl(p); }
// over-aligned forms
static void *alloc_al(size_t n, size_t al) {
    size_t off = al < 16 ? 16 : al;
    char *raw = (char *)alloc_impl(n + off + 16);
    if (!raw) return nullptr;
    uintptr_t a = ((uintptr_t)raw + 16 + off - 1) & ~(uintptr_t)(off - 1);
    ((void **)a)[-1] = raw;
    return (void *)a;
}
void *operator new(size_t n, std::align_val_t al) { void *p = alloc_al(n, (size_t)al); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t al) { void *p = alloc_al(n, (size_t)al); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p, std::align_val_t) noexcept { if (p) free_impl(((void **)p)[-1]); }
void operator delete[](void *p, std::align_val_t) noexcept { if (p) free_impl(((void **)p)[-1]); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { if (p) free_impl(((void **)p)[-1]); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { if (p) free_impl(((void **)p)[-1]); }

// ---- random numbers --------------------------------------------------------------------------------
static int rand_impl() {
    static RandStream fallback;
    RandStream *r = g_rand ? g_rand : &fallback;
    ++r->draws;
    if (r->budget && r->draws > r->budget) crash("hang:random-draws", "no end after an excessive number of random draws");
    if (r->mode == 1 && r->script_pos < r->script_len) return r->script[r->script_pos++];
    r->state = r->state * 6364136223846793005ULL + 1442695040888963407ULL;
    int v = (int)((r->state >> 33) & 0x7fffffff);
    if (r->mode == 2) v &= 3;
    return v;
}
extern "C" {
int rand(void) noexcept { return rand_impl(); }
void srand(unsigned s) noexcept { if (g_rand) g_rand->state = s; }
long random(void) noexcept { return rand_impl(); }
void srandom(unsigned s) noexcept { if (g_rand) g_rand->state = s; }
int rand_r(unsigned *) noexcept { return rand_impl(); }
double drand48(void) noexcept { return rand_impl() / 2147483648.0; }

// ---- entropy and process identity: what differs between two starts of the program comes from the run -------------
static uint64_t next_bits() {
    uint64_t &e = g_entropy;
    e += 0x9E3779B97F4A7C15ULL;
    uint64_t z = e; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
namespace std {
void random_device::_M_init(const string &) {}
void random_device::_M_init_pretr1(const string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (unsigned)(next_bits() >> 32); }
random_device::result_type random_device::_M_getval_pretr1() { return (unsigned)(next_bits() >> 32); }
double random_device::_M_getentropy() const noexcept { return 32; }
}
extern "C" {
ssize_t getrandom(void *buf, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((unsigned char *)buf)[i] = (unsigned char)(next_bits() >> 40); return (ssize_t)n; }
int getentropy(void *buf, size_t n) { getrandom(buf, n, 0); return 0; }
pid_t getpid(void) noexcept { return g_in_sut ? (pid_t)(1000 + g_entropy0 % 30000) : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) noexcept { return g_in_sut ? (pid_t)(900 + g_entropy0 % 30000) : (pid_t)syscall(SYS_getppid); }
}

// ---- host clocks -------------------------------------------------------------------------------------
static int64_t clock_read(int64_t &c) { ++g_clock.reads; int64_t v = c; if (g_in_sut) g_clock.pass(g_clock.tick); return v; }
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    bool w = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI, c = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID;
    int64_t v = clock_read(w ? g_clock.wall : c ? g_clock.cpu : g_clock.mono);
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept {
    int64_t v = clock_read(g_clock.wall);
    tv->tv_sec = v / 1000000000LL; tv->tv_usec = (v % 1000000000LL) / 1000;
    return 0;
}
int timespec_get(struct timespec *ts, int base) noexcept {
    int64_t v = clock_read(g_clock.wall);
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return base;
}
time_t time(time_t *t) noexcept { time_t v = clock_read(g_clock.wall) / 1000000000LL; if (t) *t = v; return v; }
clock_t clock(void) noexcept { return (clock_t)(clock_read(g_clock.cpu) / 1000); }

// ---- file reads ----------------------------------------------------------------------------------------
static double disk_u() { g_disk.rng = g_disk.rng * 6364136223846793005ULL + 1442695040888963407ULL; return (g_disk.rng >> 11) * (1.0 / 9007199254740992.0); }
ssize_t read(int fd, void *buf, size_t n) {
    if (g_disk.on && g_in_sut) {
        ++g_disk.reads;
        if (g_disk.eio_after == 0) { g_disk.eio_after = -1; ++g_disk.n_eio; errno = EIO; return -1; }
        if (g_disk.eio_after > 0) --g_disk.eio_after;
        if (disk_u() < g_disk.p_eintr) { ++g_disk.n_eintr; errno = EINTR; return -1; }
        if (n > 1 && disk_u() < g_disk.p_short) { ++g_disk.n_short; n = 1 + (size_t)(disk_u() * 7); }
    }
    return syscall(SYS_read, fd, buf, n);
}
FILE *fopen64(const char *path, const char *mode) {
    static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
    if (g_disk.on && g_in_sut) {
        if (g_disk.open_fail_after == 0) { g_disk.open_fail_after = -1; ++g_disk.n_open; errno = g_disk.open_errno; return nullptr; }
        if (g_disk.open_fail_after > 0) --g_disk.open_fail_after;
    }
    return real(path, mode);
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }
}
