// Seams owned by the simulator: heap, random numbers, host clocks, file reads.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace seam {
// --- marks code of the system under test -------------------------------------------------
extern bool g_in_sut;
struct InSut { InSut() { g_in_sut = true; } ~InSut() { g_in_sut = false; } };

// --- heap ----------------------------------------------------------------------------------
struct Heap {
    unsigned char fill = 0xA5;      // pattern written into fresh SUT blocks
    unsigned pad = 0;               // extra bytes asked for per SUT block (changes placement)
    long fail_after = -1;           // >=0: the n-th next SUT allocation fails (0 = the very next)
    uint64_t failures = 0;          // injected failures so far
    uint64_t allocs = 0;            // SUT allocations so far
    int64_t live = 0;               // live bytes allocated inside the SUT
};
extern Heap g_heap;
void heap_regions();                // from here on blocks lie at addresses that follow from the run alone
void heap_shape(unsigned salt);     // before the first SUT block: where they lie, in which order they are reused

// --- random numbers ------------------------------------------------------------------------
struct RandStream {
    uint64_t state = 1;
    int mode = 0;                   // 0: 31-bit LCG, 1: scripted list then LCG, 2: few distinct values
    const int *script = nullptr; size_t script_len = 0, script_pos = 0;
    uint64_t draws = 0;
    uint64_t budget = 0;            // 0: unlimited; otherwise exceeding it is a hang of the SUT
};
extern RandStream *g_rand;

extern uint64_t g_entropy, g_entropy0;  // state of, and seed for, random_device / getrandom / process identity

// --- host clocks (ns) ------------------------------------------------------------------------
struct Clock { int64_t wall = 1700000000LL * 1000000000LL, mono = 5000000000LL, cpu = 70000000LL, tick = 0; uint64_t reads = 0;
    void pass(int64_t ns) { mono += ns; wall += ns; cpu += ns / 3; } };      // tick: time that passes at every reading
extern Clock g_clock;
double real_now();                  // real monotonic seconds, for budgets of the harness only

// --- file reads --------------------------------------------------------------------------------
struct Disk {
    bool on = false;                // faults only while on
    uint64_t rng = 1;
    double p_short = 0, p_eintr = 0; // per read()
    long eio_after = -1;            // the n-th read() from now fails with EIO
    long open_fail_after = -1;      // the n-th fopen from now fails
    int open_errno = 0;
    uint64_t n_short = 0, n_eintr = 0, n_eio = 0, n_open = 0, reads = 0;
};
extern Disk g_disk;

// --- crash capture -----------------------------------------------------------------------------
// Called by signal handlers / assertion failures: hands class and detail to g_on_crash and ends the process.
extern void (*g_on_crash)(const char *cls, const char *detail);
void install_crash_handlers(int cpu_seconds);
[[noreturn]] void crash(const char *cls, const char *detail);
}
