// Simulator core: see core.h. Compiled without instrumentation; linked statically with --wrap seams.
#include "core.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace sim {
RunConfig g_cfg;
Shared* g_sh = nullptr;
}

// ------------------------------------------------------------------------------------------------
// real functions
// ------------------------------------------------------------------------------------------------
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
clock_t __real_clock(void);
int __real_open(const char*, int, ...);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
off_t __real_lseek(int, off_t, int);
FILE* __real_fopen(const char*, const char*);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
pid_t __real_getpid(void);
sighandler_t __real_signal(int, sighandler_t);
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __real_sched_yield(void);
long __real_syscall(long, ...);
int __real_getrusage(int, struct rusage*);
int __real_stat(const char*, struct stat*);
extern char __data_start, _end;
}

// ------------------------------------------------------------------------------------------------
// global simulator state
// ------------------------------------------------------------------------------------------------
static bool g_in_sim = false;
static uint64_t g_steps = 0;
static uint64_t g_next_event = ~0ull;
static uint64_t g_shared_left = 0;          // shared accesses until preemption (0 = off)
static uint64_t g_vbase = 0, g_vbase_step = 0; // vtime = g_vbase + (g_steps - g_vbase_step) * ns_per_step
static int64_t g_jump_total = 0;
static int g_next_jump = 0, g_next_signal = 0;
static uint64_t g_slice_end = ~0ull;

static const uintptr_t ARENA_A = 0x100000000000ull, ARENA_B = 0x200000000000ull, ARENA_G = 0x280000000000ull,
                       STACKS = 0x300000000000ull, SHARED_BASE = 0x380000000000ull;
static const size_t ARENA_A_SIZE = 8ull << 30, ARENA_B_SIZE = 64ull << 30, ARENA_G_SIZE = 8ull << 30;
static const size_t STACK_SLOT = 16ull << 20, STACK_SIZE = 8ull << 20;
static const int MAXT = 40;

uint64_t sim::mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
bool sim::in_sim() { return g_in_sim; }
uint64_t sim::now_steps() { return g_steps; }
static inline uint64_t vnow() { return g_vbase + (g_steps - g_vbase_step) * g_cfg.ns_per_step; }
uint64_t sim::now_vtime() { return vnow(); }

static void die_internal(const char* msg) {
    ssize_t r = __real_write(2, msg, strlen(msg)); (void)r;
    __real__exit(98);
}

// ------------------------------------------------------------------------------------------------
// tapes, logs
// ------------------------------------------------------------------------------------------------
uint32_t sim::draw(TapeId id, uint32_t n) {
    if (n <= 1) return 0;
    Tape& t = g_sh->tape[id];
    uint32_t v;
    if (t.replay) {
        v = t.pos < t.replay_n ? t.data[t.pos] % n : 0;
        if (t.pos < t.cap) t.data[t.pos] = v;
        t.pos++;
        if (t.pos <= t.cap) t.n = t.pos;
        return v;
    }
    if (t.n >= t.cap) return 0;
    t.state += 0x9e3779b97f4a7c15ull;
    v = (uint32_t)((mix64(t.state) >> 11) % n);
    t.data[t.n++] = v;
    return v;
}
void sim::begin_tapes_generate(uint64_t seed) {
    for (int i = 0; i < NTAPES; i++) {
        Tape& t = g_sh->tape[i];
        t.state = mix64(seed * 3 + i + 0x1234567); t.n = 0; t.pos = 0; t.replay = 0; t.replay_n = 0;
    }
}
void sim::begin_tapes_replay(const std::vector<uint32_t> tt[NTAPES]) {
    for (int i = 0; i < NTAPES; i++) {
        Tape& t = g_sh->tape[i];
        uint32_t n = (uint32_t)tt[i].size(); if (n > t.cap) n = t.cap;
        for (uint32_t k = 0; k < n; k++) t.data[k] = tt[i][k];
        t.n = 0; t.pos = 0; t.replay = 1; t.replay_n = n; t.state = 0;
    }
}
void sim::hash_event(uint64_t v) { g_sh->event_hash = mix64(g_sh->event_hash ^ v); }
void sim::log_i(int32_t v) {
    if (g_sh->nlog < LOGCAP) g_sh->log[g_sh->nlog++] = v; else g_sh->log_overflow = 1;
    hash_event((uint64_t)(uint32_t)v + 0x100000000ull);
}
void sim::tracef(const char* fmt, ...) {
    char buf[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (g_sh->ntrace + n + 64 < TRACECAP) {
        char pre[64];
        int m = g_in_sim ? snprintf(pre, sizeof pre, "[step %llu t=%lluus] ", (unsigned long long)g_steps, (unsigned long long)(vnow() / 1000)) : 0;
        memcpy(g_sh->trace + g_sh->ntrace, pre, m); g_sh->ntrace += m;
        memcpy(g_sh->trace + g_sh->ntrace, buf, n); g_sh->ntrace += n;
    }
}

// ------------------------------------------------------------------------------------------------
// heap
// ------------------------------------------------------------------------------------------------
namespace {
struct Hdr { uint64_t size; uint32_t cls; uint32_t off; };  // off = bytes from block start to payload
const uint64_t CANARY = 0xC0FFEE11DEADBEE5ull;
struct Arena {
    uintptr_t base, cur, end;    // small blocks
    uintptr_t lbase, lcur, lend; // large blocks, at a distance of their own (like mapped blocks of malloc)
    void* freelist[256];
};
// Heap domains: every domain has an arena of its own, so that the addresses a caller gets do not depend on what other
// callers allocate in between (used to compare concurrent with solo executions exactly).
const int NDOM = 8;
const size_t DOM_SIZE = ARENA_B_SIZE / NDOM, GDOM_SIZE = ARENA_G_SIZE / NDOM;
Arena A, BD[NDOM];
const size_t LARGE = 128 * 1024;
thread_local int tl_dom = 0;
uintptr_t g_guard_curd[NDOM]; unsigned g_guard_nd[NDOM];
uint64_t g_alloc_count = 0, g_dom_count[NDOM];
bool g_heap_ready = false;

unsigned size_class(size_t n, size_t& rounded) {   // n = total block bytes
    if (n <= 1024) { rounded = (n + 15) & ~size_t(15); return (unsigned)(rounded / 16); } // 1..64
    unsigned lg = 63 - __builtin_clzll(n - 1);         // 2^lg < n <= 2^(lg+1)
    size_t q = size_t(1) << (lg >= 2 ? lg - 2 : 0);
    rounded = (n + q - 1) / q * q;
    unsigned sub = (unsigned)(rounded / q - 4);        // 1..4
    return 64 + (lg - 9) * 4 + sub;
}
void map_region(uintptr_t base, size_t size, int prot) {
    void* p = mmap((void*)base, size, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base) die_internal("sim: cannot reserve address range\n");
}
void heap_boot() {
    map_region(ARENA_A, ARENA_A_SIZE, PROT_READ | PROT_WRITE);
    map_region(ARENA_B, ARENA_B_SIZE, PROT_READ | PROT_WRITE);
    map_region(ARENA_G, ARENA_G_SIZE, PROT_NONE);
    A.base = A.cur = ARENA_A; A.end = A.lbase = A.lcur = ARENA_A + ARENA_A_SIZE / 4; A.lend = ARENA_A + ARENA_A_SIZE;
    for (int i = 0; i < NDOM; i++) { BD[i].base = BD[i].cur = ARENA_B + i * DOM_SIZE; BD[i].end = BD[i].lbase = BD[i].lcur = BD[i].base + DOM_SIZE / 4; BD[i].lend = BD[i].base + DOM_SIZE; g_guard_curd[i] = ARENA_G + i * GDOM_SIZE; }
    g_heap_ready = true;
}
void corrupt() {
    if (g_in_sim && !g_sh->heap_corrupt) { g_sh->heap_corrupt = 1; tracef("heap canary overwritten\n"); }
}
bool alloc_fault() {
    if (!g_in_sim) return false;
    ++g_alloc_count; ++g_dom_count[tl_dom];
    if (g_cfg.alloc_fail_at && g_alloc_count >= g_cfg.alloc_fail_at && g_alloc_count < g_cfg.alloc_fail_at + g_cfg.alloc_fail_len) {
        g_sh->f_alloc++;
        hash_event(0xA110C);
        errno = ENOMEM;
        return true;
    }
    return false;
}
void fill(void* p, size_t n, uint64_t pat) {
    if (n > 8192) { // large blocks: only the edges
        fill(p, 4096, pat); fill((char*)p + n - 512, 512, pat); return;
    }
    uint64_t* q = (uint64_t*)p; size_t k = n / 8;
    for (size_t i = 0; i < k; i++) q[i] = pat;
    memset((char*)p + k * 8, (int)(pat & 0xff), n & 7);
}
uint64_t junk() { return g_cfg.heap_seed ? mix64(g_cfg.heap_seed + (g_dom_count[tl_dom] & 1023)) : 0; }

void* arena_alloc(size_t n, size_t align, bool zero) {
    if (!g_heap_ready) heap_boot();
    if (alloc_fault()) return nullptr;
    if (n > (16ull << 30)) { errno = ENOMEM; return nullptr; }
    Arena& ar = g_in_sim ? BD[tl_dom] : A; uintptr_t& g_guard_cur = g_guard_curd[tl_dom];
    if (g_in_sim && g_cfg.heap_guard && n <= 262144 && align <= 16 && g_guard_nd[tl_dom] < 12000) {
        size_t body = ((n ? n : 1) + 15) & ~size_t(15);
        size_t pages = (body + sizeof(Hdr) + 4095) / 4096;
        if (g_guard_cur + (pages + 1) * 4096 < ARENA_G + (tl_dom + 1) * GDOM_SIZE &&
            mprotect((void*)g_guard_cur, pages * 4096, PROT_READ | PROT_WRITE) == 0) {
            g_guard_nd[tl_dom]++;
            char* pay = (char*)(g_guard_cur + pages * 4096 - body);
            Hdr* h = (Hdr*)pay - 1;
            h->size = n; h->cls = 0xFFFF; h->off = (uint32_t)((uintptr_t)pay - g_guard_cur);
            g_guard_cur += (pages + 1) * 4096;
            if (zero) memset(pay, 0, n); else fill(pay, n, junk());
            memset(pay + n, 0xA5, body - n);
            return pay;
        }
    }
    size_t extra = align > 16 ? align : 0, rounded;
    unsigned cls = size_class(n + sizeof(Hdr) + 8 + extra, rounded);
    char* blk; bool fresh = false;
    // without reuse, freed blocks stay dead (use after free shows); only large blocks come back once half of the arena is gone
    if (ar.freelist[cls] && (!g_in_sim || g_cfg.heap_reuse || (rounded >= 65536 && (rounded >= LARGE ? ar.lcur - ar.lbase > (ar.lend - ar.lbase) / 2 : ar.cur - ar.base > (ar.end - ar.base) / 2)))) {
        blk = (char*)ar.freelist[cls];
        ar.freelist[cls] = *(void**)(blk + sizeof(Hdr));
    } else {
        size_t sz = rounded; bool large = sz >= LARGE; uintptr_t& cur = large ? ar.lcur : ar.cur;
        if (large) sz = (sz + 4095) & ~size_t(4095);
        if (cur + sz > (large ? ar.lend : ar.end)) { errno = ENOMEM; return nullptr; }
        blk = (char*)cur; cur += sz; fresh = true;
    }
    uintptr_t pay = (uintptr_t)blk + sizeof(Hdr);
    if (align > 16) pay = (pay + align - 1) & ~(uintptr_t)(align - 1);
    Hdr* h = (Hdr*)pay - 1;
    h->size = n; h->cls = cls; h->off = (uint32_t)(pay - (uintptr_t)blk);
    memcpy((char*)pay + n, &CANARY, 8);
    if (zero) { if (!fresh || rounded < (1u << 20)) memset((void*)pay, 0, n); }
    else if (g_in_sim) { if (!(fresh && g_cfg.heap_seed == 0)) fill((void*)pay, n, junk()); }
    return (void*)pay;
}
void arena_free(void* p) {
    if (!p) return;
    uintptr_t u = (uintptr_t)p;
    Hdr* h = (Hdr*)p - 1;
    if (u >= ARENA_G && u < ARENA_G + ARENA_G_SIZE) {
        size_t body = ((h->size ? h->size : 1) + 15) & ~size_t(15);
        for (size_t i = h->size; i < body; i++) if (((unsigned char*)p)[i] != 0xA5) { corrupt(); break; }
        uintptr_t start = u - h->off; size_t len = u + body - start;
        mprotect((void*)start, len, PROT_NONE);
        madvise((void*)start, len, MADV_DONTNEED);
        return;
    }
    bool inB = u >= ARENA_B && u < ARENA_B + ARENA_B_SIZE, inA = u >= ARENA_A && u < ARENA_A + ARENA_A_SIZE;
    if (!inA && !inB) { if (g_in_sim) { corrupt(); } return; }
    if (h->cls == 0 || h->cls >= 256 || h->size > (16ull << 30)) { corrupt(); return; } // double or bad free
    uint64_t c; memcpy(&c, (char*)p + h->size, 8);
    if (c != CANARY) corrupt();
    if (inA && g_in_sim) return;             // never recycle start-up memory inside a run
    Arena& ar = inB ? BD[(u - ARENA_B) / DOM_SIZE] : A;
    unsigned cls = h->cls; size_t n = h->size; char* blk = (char*)p - h->off;
    h->cls = 0;
    if (inB && n) {
        if (n >= (1u << 20)) {
            uintptr_t lo = ((uintptr_t)blk + 4096 + 4095) & ~uintptr_t(4095), hi = ((uintptr_t)p + n) & ~uintptr_t(4095);
            if (hi > lo) madvise((void*)lo, hi - lo, MADV_DONTNEED);
        }
        fill(p, n < 512 ? n : 512, ~junk());
    }
    *(void**)(blk + sizeof(Hdr)) = ar.freelist[cls];
    ((Hdr*)blk)->cls = 0;
    ar.freelist[cls] = blk;
}
} // namespace

extern "C" {
void* malloc(size_t n) { return arena_alloc(n, 16, false); }
void free(void* p) { int e = errno; arena_free(p); errno = e; }
void* calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n, 16, true);
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    size_t old = ((Hdr*)p - 1)->size;
    void* q = arena_alloc(n, 16, false);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    arena_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return arena_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al, false); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = arena_alloc(n, al, false); if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return arena_alloc(n, 4096, false); }
void* pvalloc(size_t n) { return arena_alloc((n + 4095) & ~size_t(4095), 4096, false); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}
void sim::set_heap_domain(int d) { tl_dom = d; }
void sim::set_alloc_fail(uint64_t nth, uint64_t len) { g_cfg.alloc_fail_at = nth ? g_alloc_count + nth : 0; g_cfg.alloc_fail_len = len; }

// ------------------------------------------------------------------------------------------------
// threads and scheduler
// ------------------------------------------------------------------------------------------------
namespace {
enum TState { T_FREE, T_RUN, T_SLEEP, T_WAIT, T_DONE };   // T_RUN = runnable
struct SimThread {
    volatile int baton; int state; uint64_t wake; bool has_deadline; bool timed_out;
    const void* waddr; void* (*fn)(void*); void* arg; void* ret; pthread_t handle; bool joined;
};
SimThread T[MAXT];
int g_nt = 0;
int g_cur = 0;
thread_local int tl_id = -1;

void futex_wait(volatile int* p, int v) { __real_syscall(SYS_futex, (int*)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void futex_wake(volatile int* p) { __real_syscall(SYS_futex, (int*)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void finish_run(int code) __attribute__((noreturn));
void finish_run(int code) {
    g_sh->steps = g_steps; g_sh->vtime_ns = vnow(); g_sh->allocs = g_alloc_count;
    __real__exit(code);
}

void arm() { // compute the next slow-path step
    uint64_t e = g_cfg.max_steps;
    if (g_slice_end < e) e = g_slice_end;
    if (g_next_signal < g_cfg.nsignals && !g_cfg.signals[g_next_signal].after_install && g_cfg.signals[g_next_signal].step < e) e = g_cfg.signals[g_next_signal].step;
    if (g_next_jump < g_cfg.njumps && g_cfg.jumps[g_next_jump].step < e) e = g_cfg.jumps[g_next_jump].step;
    if (g_cfg.crash_at_step && g_cfg.crash_at_step < e) e = g_cfg.crash_at_step;
    // wake-ups of sleeping threads are decision points
    if (g_nt > 1) for (int i = 0; i < g_nt; i++) if ((T[i].state == T_SLEEP || (T[i].state == T_WAIT && T[i].has_deadline))) {
        uint64_t now = vnow();
        uint64_t d = T[i].wake > now ? (T[i].wake - now + g_cfg.ns_per_step - 1) / g_cfg.ns_per_step : 0;
        if (g_steps + d < e) e = g_steps + d;
    }
    g_next_event = e;
}

const uint32_t QSTEP[] = {1, 2, 3, 5, 8, 13, 30, 80, 250, 1000, 4000, 16000, 64000};
const uint32_t QSHARED[] = {1, 1, 1, 2, 2, 3, 4, 6, 9, 15, 30, 80, 300};
void new_slice() {
    g_shared_left = 0;
    if (g_nt <= 1 || g_cfg.sched_mode == 0) { g_slice_end = ~0ull; arm(); return; }
    if (g_steps >= g_cfg.fair_after) { g_slice_end = g_steps + 5000; arm(); return; }
    uint32_t k = draw(S, g_cfg.sched_mode == 2 ? 5 : 3);
    if (k == 0) g_slice_end = g_steps + g_cfg.slice_max;
    else if (k == 1 || g_cfg.sched_mode == 1) g_slice_end = g_steps + QSTEP[draw(S, sizeof QSTEP / sizeof *QSTEP)];
    else { g_slice_end = g_steps + g_cfg.slice_max; g_shared_left = QSHARED[draw(S, sizeof QSHARED / sizeof *QSHARED)]; }
    arm();
}

void wake_due() {
    uint64_t now = vnow();
    for (int i = 0; i < g_nt; i++) {
        if (T[i].state == T_SLEEP && T[i].wake <= now) { T[i].state = T_RUN; }
        else if (T[i].state == T_WAIT && T[i].has_deadline && T[i].wake <= now) { T[i].state = T_RUN; T[i].timed_out = true; }
    }
}

void run_handler(int signum);

// choose the next thread and hand over; returns when the calling thread is scheduled again
void reschedule(const void* pc) {
    for (;;) {
        wake_due();
        int run[MAXT], n = 0;
        for (int i = 0; i < g_nt; i++) if (T[i].state == T_RUN) run[n++] = i;
        if (n == 0) {
            uint64_t best = ~0ull;
            for (int i = 0; i < g_nt; i++)
                if (T[i].state == T_SLEEP || (T[i].state == T_WAIT && T[i].has_deadline)) if (T[i].wake < best) best = T[i].wake;
            if (best == ~0ull) { g_sh->deadlock = 1; tracef("no runnable thread: deadlock\n"); finish_run(97); }
            g_vbase = best; g_vbase_step = g_steps; g_sh->timer_jumps++;
            if (g_cfg.max_vtime_ns && vnow() > g_cfg.max_vtime_ns) { g_sh->stepcap = 2; tracef("virtual time budget exhausted\n"); finish_run(96); }
            continue;
        }
        int next;
        if (n == 1) next = run[0];
        else if (g_steps >= g_cfg.fair_after) { // fair round robin
            next = run[0];
            for (int k = 0; k < n; k++) if (run[k] > g_cur) { next = run[k]; break; }
        } else next = run[draw(S, n)];
        if (next != g_cur) {
            g_sh->switches++;
            g_sh->ctx_hash = mix64(g_sh->ctx_hash ^ ((uint64_t)(uintptr_t)pc << 6) ^ (uint64_t)next);
            if (g_sh->switches < 2000) tracef("switch thread %d -> %d\n", g_cur, next);
            int me = tl_id;
            g_cur = next;
            new_slice();
            T[next].baton = 1; futex_wake(&T[next].baton);
            bool dead = T[me].state == T_DONE;
            while (!T[me].baton) futex_wait(&T[me].baton, 0);
            if (dead) for (;;) pause();
            T[me].baton = 0;
        } else new_slice();
        return;
    }
}

void apply_due() { // faults and signals that are due at this step
    while (g_next_jump < g_cfg.njumps && g_cfg.jumps[g_next_jump].step <= g_steps) {
        g_jump_total += g_cfg.jumps[g_next_jump].delta_ns; g_sh->f_clockjump++;
        tracef("clock jump by %lld ms\n", (long long)(g_cfg.jumps[g_next_jump].delta_ns / 1000000));
        hash_event(0xC10C4 + g_next_jump); g_next_jump++;
    }
    if (g_cfg.crash_at_step && g_steps >= g_cfg.crash_at_step) { g_sh->f_crash++; tracef("crash injected\n"); finish_run(95); }
    while (g_next_signal < g_cfg.nsignals && !g_cfg.signals[g_next_signal].after_install && g_cfg.signals[g_next_signal].step <= g_steps) {
        int s = g_cfg.signals[g_next_signal++].signum;
        run_handler(s);
    }
    if (g_steps >= g_cfg.max_steps) { g_sh->stepcap = 1; tracef("step budget exhausted\n"); finish_run(96); }
    if (g_cfg.max_vtime_ns && vnow() > g_cfg.max_vtime_ns) { g_sh->stepcap = 2; tracef("virtual time budget exhausted\n"); finish_run(96); }
}

__attribute__((noinline)) void slow(const void* pc) {
    apply_due();
    if (g_nt > 1) {
        if (g_steps >= g_slice_end) { g_sh->preempt_quantum++; reschedule(pc); return; }
        uint64_t now = vnow(); bool due = false;
        for (int i = 0; i < g_nt; i++) if ((T[i].state == T_SLEEP || (T[i].state == T_WAIT && T[i].has_deadline)) && T[i].wake <= now) due = true;
        if (due) { reschedule(pc); return; }
    }
    arm();
}

inline void step(const void* pc) { if (__builtin_expect(++g_steps >= g_next_event, 0)) slow(pc); }
__attribute__((noinline)) void shared_preempt(const void* pc) {
    g_sh->preempt_shared++;
    apply_due();
    reschedule(pc);
}
inline void access(const void* a, const void* pc) {
    step(pc);
    if (__builtin_expect(g_shared_left != 0, 0)) {
        uintptr_t u = (uintptr_t)a;
        bool sh = u >= (uintptr_t)&__data_start && u < (uintptr_t)&_end;
        if (!sh && u >= STACKS && u < STACKS + MAXT * STACK_SLOT) sh = (int)((u - STACKS) / STACK_SLOT) != g_cur;
        if (sh && --g_shared_left == 0) shared_preempt(pc);
    }
}

void block_on(const void* addr, uint64_t deadline /*0 = none*/) {
    SimThread& t = T[g_cur];
    t.state = T_WAIT; t.waddr = addr; t.has_deadline = deadline != 0; t.wake = deadline; t.timed_out = false;
    reschedule(__builtin_return_address(0));
}
void wake_all(const void* addr) { for (int i = 0; i < g_nt; i++) if (T[i].state == T_WAIT && T[i].waddr == addr) { T[i].state = T_RUN; T[i].timed_out = false; } }
int wake_some(const void* addr, int count) {
    int w[MAXT], n = 0, woken = 0;
    for (int i = 0; i < g_nt; i++) if (T[i].state == T_WAIT && T[i].waddr == addr) w[n++] = i;
    while (n && count--) {
        int k = (int)draw(S, n);
        T[w[k]].state = T_RUN; T[w[k]].timed_out = false; woken++;
        w[k] = w[--n];
    }
    return woken;
}
void vsleep(uint64_t ns) {
    if (g_nt <= 1) {
        step(__builtin_return_address(0));
        g_vbase = vnow() + ns; g_vbase_step = g_steps;
        if (g_cfg.max_vtime_ns && vnow() > g_cfg.max_vtime_ns) { g_sh->stepcap = 2; tracef("virtual time budget exhausted\n"); finish_run(96); }
        arm();
        return;
    }
    SimThread& t = T[g_cur];
    t.state = T_SLEEP; t.wake = vnow() + ns;
    reschedule(__builtin_return_address(0));
}
void* trampoline(void* p) {
    int id = (int)(intptr_t)p;
    tl_id = id;
    while (!T[id].baton) futex_wait(&T[id].baton, 0);
    T[id].baton = 0;
    T[id].ret = T[id].fn(T[id].arg);
    tracef("thread %d finished\n", id);
    T[id].state = T_DONE;
    wake_all(&T[id]);
    reschedule(nullptr);
    for (;;) pause();
}
int spawn(void* (*fn)(void*), void* arg) {
    if (g_nt >= MAXT) die_internal("sim: too many threads\n");
    int id = g_nt;
    SimThread& t = T[id];
    memset((void*)&t, 0, sizeof t);
    t.fn = fn; t.arg = arg; t.state = T_RUN;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STACKS + id * STACK_SLOT), STACK_SIZE);
    if (g_cfg.heap_seed) { // garbage below the stack top
        uintptr_t top = STACKS + id * STACK_SLOT + STACK_SIZE;
        fill((void*)(top - 65536), 8192, mix64(g_cfg.heap_seed ^ 0x57AC));
        for (int k = 0; k < 7; k++) fill((void*)(top - 57344 + k * 8192), 8192, mix64(g_cfg.heap_seed ^ (0x57AC + k)));
    }
    if (__real_pthread_create(&t.handle, &at, trampoline, (void*)(intptr_t)id)) die_internal("sim: pthread_create failed\n");
    g_nt++;
    return id;
}
int find_thread(pthread_t h) { for (int i = 0; i < g_nt; i++) if (pthread_equal(T[i].handle, h)) return i; return -1; }

// signals
struct SigEnt { sighandler_t h; };
SigEnt g_sig[65];
void run_handler(int signum) {
    sighandler_t h = g_sig[signum].h;
    if (!g_sh->first_signal_step) { g_sh->first_signal_step = g_steps; g_sh->first_signal_vtime = vnow(); }
    hash_event(0x516 + signum * 1000);
    if (h == SIG_IGN) return;
    if (h == SIG_DFL) {
        g_sh->signals_delivered[1]++; tracef("signal %d: default action\n", signum);
        g_sh->steps = g_steps; g_sh->vtime_ns = vnow();
        __real_signal(signum, SIG_DFL); kill(__real_getpid(), signum); for (;;) pause();
    }
    g_sh->signals_delivered[0]++;
    tracef("signal %d delivered to thread %d\n", signum, g_cur);
    h(signum);
}
} // namespace

void sim::maybe_point() { if (g_in_sim) step(__builtin_return_address(0)); }

extern "C" {
int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!g_in_sim) return __real_pthread_create(th, at, fn, arg);
    int id = spawn(fn, arg);
    *th = T[id].handle;
    g_sh->threads_created++;
    tracef("thread %d creates thread %d\n", g_cur, id);
    reschedule(__builtin_return_address(0));
    return 0;
}
int __wrap_pthread_join(pthread_t th, void** ret) {
    if (!g_in_sim) return __real_pthread_join(th, ret);
    int id = find_thread(th);
    if (id < 0) return ESRCH;
    while (T[id].state != T_DONE) block_on(&T[id], 0);
    if (ret) *ret = T[id].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t th) { if (!g_in_sim) return __real_pthread_detach(th); return 0; }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g_in_sim) return __real_pthread_mutex_lock(m);
    step(__builtin_return_address(0));
    if (m->__data.__lock && m->__data.__owner == tl_id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
    if (m->__data.__lock && m->__data.__owner == tl_id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    while (m->__data.__lock) block_on(m, 0);
    m->__data.__lock = 1; m->__data.__owner = tl_id + 1; m->__data.__count = 1;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g_in_sim) return __real_pthread_mutex_trylock(m);
    step(__builtin_return_address(0));
    if (m->__data.__lock) {
        if (m->__data.__owner == tl_id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        return EBUSY;
    }
    m->__data.__lock = 1; m->__data.__owner = tl_id + 1; m->__data.__count = 1;
    return 0;
}
static int mutex_unlock_nostep(pthread_mutex_t* m) {
    if (m->__data.__count > 1) { m->__data.__count--; return 0; }
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
    wake_all(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g_in_sim) return __real_pthread_mutex_unlock(m);
    mutex_unlock_nostep(m);
    step(__builtin_return_address(0));
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    mutex_unlock_nostep(m);
    block_on(c, deadline);
    bool to = T[tl_id].timed_out;
    while (m->__data.__lock) block_on(m, 0);
    m->__data.__lock = 1; m->__data.__owner = tl_id + 1; m->__data.__count = 1;
    return to ? ETIMEDOUT : 0;
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
static uint64_t wall_ns() { return g_cfg.clock_start_ns + vnow() + (uint64_t)g_jump_total; }
static uint64_t abs_deadline(clockid_t clk, const struct timespec* t) {
    uint64_t a = ts_ns(t), now = clk == CLOCK_REALTIME ? wall_ns() : vnow() + 1000000000ull;
    uint64_t v = vnow();
    return a > now ? v + (a - now) : (v ? v : 1);
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return g_in_sim ? cond_wait(c, m, 0) : EINVAL; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, abs_deadline(CLOCK_REALTIME, t)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return cond_wait(c, m, abs_deadline(k, t)); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (g_in_sim) { wake_some(c, 1); step(__builtin_return_address(0)); } return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (g_in_sim) { wake_all(c); step(__builtin_return_address(0)); } return 0; }
// reader/writer locks: lock word in __readers: 0 free, >0 readers, -1 writer
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* r) { int* w = (int*)r; step(0); while (*w < 0) block_on(r, 0); ++*w; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* r) { int* w = (int*)r; step(0); while (*w != 0) block_on(r, 0); *w = -1; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* r) { int* w = (int*)r; if (*w < 0) *w = 0; else --*w; wake_all(r); step(0); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!g_in_sim) return __real_pthread_once(o, fn);
    int* w = (int*)o;
    while (*w == 7) block_on(o, 0);
    if (*w == 0) { *w = 7; fn(); *w = 2; wake_all(o); }
    return 0;
}
// C++ static-local guards (byte 0 = done, byte 1 = in progress)
int __wrap___cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) return 0;
    while (b[1]) { if (!g_in_sim || g_nt <= 1) break; block_on(g, 0); if (b[0]) return 0; }
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; b[0] = 1; if (g_in_sim) wake_all(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; if (g_in_sim) wake_all(g); }

int __wrap_sched_yield(void) { if (!g_in_sim) return __real_sched_yield(); step(0); if (g_nt > 1) reschedule(__builtin_return_address(0)); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    if (!g_in_sim) return __real_nanosleep(a, b);
    vsleep(ts_ns(a)); if (b) b->tv_sec = b->tv_nsec = 0; return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
    if (!g_in_sim) return __real_clock_nanosleep(c, fl, a, b);
    if (fl & TIMER_ABSTIME) { uint64_t d = abs_deadline(c, a), v = vnow(); vsleep(d > v ? d - v : 0); }
    else vsleep(ts_ns(a));
    return 0;
}
int __wrap_usleep(unsigned us) { vsleep((uint64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { vsleep((uint64_t)s * 1000000000ull); return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
    if (!g_in_sim) return __real_gettimeofday(tv, tz);
    step(0);
    uint64_t w = wall_ns(); tv->tv_sec = (time_t)(w / 1000000000ull); tv->tv_usec = (suseconds_t)(w / 1000 % 1000000); return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (!g_in_sim) return __real_clock_gettime(c, ts);
    step(0);
    uint64_t w = c == CLOCK_REALTIME ? wall_ns() : vnow() + 1000000000ull;
    ts->tv_sec = (time_t)(w / 1000000000ull); ts->tv_nsec = (long)(w % 1000000000ull); return 0;
}
time_t __wrap_time(time_t* t) {
    if (!g_in_sim) return __real_time(t);
    time_t r = (time_t)(wall_ns() / 1000000000ull); if (t) *t = r; return r;
}
clock_t __wrap_clock(void) { if (!g_in_sim) return __real_clock(); return (clock_t)(vnow() / 1000); }
int __wrap_getrusage(int who, struct rusage* r) {
    if (!g_in_sim) return __real_getrusage(who, r);
    memset(r, 0, sizeof *r);
    uint64_t v = vnow(); r->ru_utime.tv_sec = (time_t)(v / 1000000000ull); r->ru_utime.tv_usec = (suseconds_t)(v / 1000 % 1000000);
    r->ru_maxrss = (long)(g_cfg.rss_mb_base * 1024);
    return 0;
}
// entropy of the simulated machine: a seeded stream, different in different environments
static uint64_t g_entropy;
static void fill_entropy(void* p, size_t n) {
    for (size_t i = 0; i < n; i++) { uint64_t z = (g_cfg.heap_seed + 1) * 0x9E3779B97F4A7C15ull + ++g_entropy * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 30)) * 0x94D049BB133111EBull; ((unsigned char*)p)[i] = (unsigned char)((z ^ (z >> 29)) >> 24); }
}
ssize_t __real_getrandom(void*, size_t, unsigned); int __real_getentropy(void*, size_t); pid_t __real_getpid(void); unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
ssize_t __wrap_getrandom(void* p, size_t n, unsigned fl) { if (!g_in_sim) return __real_getrandom(p, n, fl); fill_entropy(p, n); return (ssize_t)n; }
int __wrap_getentropy(void* p, size_t n) { if (!g_in_sim) return __real_getentropy(p, n); fill_entropy(p, n); return 0; }
pid_t __wrap_getpid(void) { if (!g_in_sim) return __real_getpid(); return (pid_t)(50000000 + g_cfg.heap_seed % 30000); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* d) { if (!g_in_sim) return __real__ZNSt13random_device9_M_getvalEv(d); unsigned r; fill_entropy(&r, sizeof r); return r; }
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (g_in_sim && n == SYS_getrandom) { fill_entropy((void*)a, (size_t)b); return b; }
    if (g_in_sim && n == SYS_getpid) return __wrap_getpid();
    if (g_in_sim && n == SYS_futex) {
        int op = (int)b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(int*)a != (int)c) { errno = EAGAIN; return -1; }
            uint64_t dl = 0;
            if (d) {
                const struct timespec* ts = (const struct timespec*)d;
                dl = op == FUTEX_WAIT ? vnow() + ts_ns(ts) : abs_deadline((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                if (!dl) dl = 1;
            }
            block_on((void*)a, dl);
            if (T[tl_id].timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k = wake_some((void*)a, (int)c); step(0); return k; }
    }
    return __real_syscall(n, a, b, c, d, e, f);
}
static void handler_installed() { // delivery times given relative to the first installation of a handler
    for (int i = g_next_signal; i < g_cfg.nsignals; i++) if (g_cfg.signals[i].after_install) { g_cfg.signals[i].after_install = false; g_cfg.signals[i].step += g_steps; }
    arm();
}
sighandler_t __wrap_signal(int s, sighandler_t h) {
    if (!g_in_sim) return __real_signal(s, h);
    if (s < 1 || s > 64) { errno = EINVAL; return SIG_ERR; }
    step(0);
    sighandler_t old = g_sig[s].h; g_sig[s].h = h;
    handler_installed();
    return old;
}
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) {
    if (!g_in_sim) return __real_sigaction(s, a, o);
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = g_sig[s].h; }
    if (a) { g_sig[s].h = a->sa_handler; handler_installed(); }
    return 0;
}
void __wrap_exit(int code) {
    if (g_in_sim) {
        g_sh->exit_called = 1; g_sh->exit_code = code;
        hash_event(0xE417 + (unsigned)code);
        g_sh->steps = g_steps; g_sh->vtime_ns = vnow(); g_sh->allocs = g_alloc_count;
    }
    __real_exit(code);
}
void __wrap__exit(int code) {
    if (g_in_sim) {
        g_sh->exit_called = 2; g_sh->exit_code = code; g_sh->steps = g_steps; g_sh->vtime_ns = vnow(); g_sh->allocs = g_alloc_count;
    }
    __real__exit(code);
}
}

// ------------------------------------------------------------------------------------------------
// files
// ------------------------------------------------------------------------------------------------
namespace {
int g_memfd[NFILES + 1];           // + captured stdout
size_t g_memfd_size[NFILES + 1];
signed char g_fdmap[1024];         // fd -> FileId or -1
uint64_t g_reads = 0, g_writes = 0;
bool g_in_failed = false, g_wr_failed = false;
bool g_stdin_pipe = true;
const char* NAMES[NFILES] = {"/simfs/input", "/simfs/proof", "/simfs/out", "/simfs/aux"};
int file_by_path(const char* p) { for (int i = 0; i < NFILES; i++) if (!strcmp(p, NAMES[i])) return i; return -1; }
}
std::string sim::file_path(FileId id) { return NAMES[id]; }

extern "C" {
static int sim_open(int id, int flags) {
    if (id == FIN && g_cfg.open_errno) { g_sh->f_open_err++; hash_event(0x09E4); errno = g_cfg.open_errno; return -1; }
    if (id == FPROOF && g_cfg.proof_open_errno && (flags & O_ACCMODE) != O_RDONLY) { g_sh->f_open_err++; errno = g_cfg.proof_open_errno; return -1; }
    if (id == FPROOF && g_cfg.proof_open_errno) { errno = ENOENT; return -1; }      // never created, so it cannot be read either
    char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", g_memfd[id]);
    int fd = __real_open(path, (flags & O_ACCMODE) | (flags & (O_TRUNC | O_APPEND)) | O_CLOEXEC);
    if (fd >= 0 && fd < 1024) g_fdmap[fd] = (signed char)id;
    hash_event(0x09E5 + id);
    return fd;
}
int __wrap_open(const char* p, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (g_in_sim) {
        int id = file_by_path(p);
        if (id >= 0) return sim_open(id, flags);
        if (!strncmp(p, "/simfs/", 7)) { errno = ENOENT; return -1; }
        if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) { int fd = __real_open("/dev/zero", O_RDONLY); if (fd >= 0 && fd < 1024) g_fdmap[fd] = -2; return fd; }
    }
    int fd = __real_open(p, flags, mode);
    if (fd >= 0 && fd < 1024) g_fdmap[fd] = -1;
    return fd;
}
int __wrap_open64(const char* p, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return __wrap_open(p, flags, mode);
}
ssize_t __wrap_read(int fd, void* buf, size_t n) {
    if (g_in_sim && fd >= 0 && fd < 1024 && g_fdmap[fd] == -2) { fill_entropy(buf, n); return (ssize_t)n; }
    if (!g_in_sim || fd < 0 || fd >= 1024 || g_fdmap[fd] < 0) return __real_read(fd, buf, n);
    step(0);
    if (g_fdmap[fd] != FIN) return __real_read(fd, buf, n);
    g_reads++;
    if (g_cfg.read_fail_at && (g_reads == g_cfg.read_fail_at || (g_in_failed && g_cfg.read_fail_sticky))) {
        g_in_failed = true; g_sh->f_read_err++; hash_event(0x4EAD);
        tracef("read #%llu on input fails with errno %d\n", (unsigned long long)g_reads, g_cfg.read_errno);
        errno = g_cfg.read_errno; return -1;
    }
    size_t lim = n;
    if (g_cfg.read_chunk) {
        lim = g_cfg.read_chunk_random ? 1 + draw(F, g_cfg.read_chunk) : g_cfg.read_chunk;
        if (lim < n) g_sh->f_read_short++; else lim = n;
    }
    return __real_read(fd, buf, lim);
}
static ssize_t proof_write(int fd, const void* buf, size_t n) {
    g_writes++;
    if (g_cfg.crash_at_write && g_writes == g_cfg.crash_at_write) {
        size_t k = n ? draw(F, (uint32_t)(n + 1)) : 0;
        if (k) { ssize_t r = __real_write(fd, buf, k); (void)r; }
        g_sh->f_crash++; tracef("crash inside write #%llu of the proof after %zu of %zu bytes\n", (unsigned long long)g_writes, k, n);
        finish_run(95);
    }
    if (g_cfg.write_fail_at && (g_writes == g_cfg.write_fail_at || (g_wr_failed && g_cfg.write_fail_sticky))) {
        g_wr_failed = true; g_sh->f_write_err++; hash_event(0x3417E);
        if (g_sh->f_write_err < 5) tracef("write #%llu on the proof fails with errno %d\n", (unsigned long long)g_writes, g_cfg.write_errno);
        errno = g_cfg.write_errno; return -1;
    }
    if (g_cfg.write_short && n > 1) { size_t k = 1 + draw(F, (uint32_t)n); if (k < n) { g_sh->f_write_short++; n = k; } }
    return __real_write(fd, buf, n);
}
ssize_t __wrap_write(int fd, const void* buf, size_t n) {
    if (!g_in_sim || fd < 0 || fd >= 1024 || g_fdmap[fd] != FPROOF) return __real_write(fd, buf, n);
    return proof_write(fd, buf, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
    if (!g_in_sim || fd < 0 || fd >= 1024 || g_fdmap[fd] != FPROOF) return __real_writev(fd, v, c);
    char tmp[65536]; size_t n = 0;
    for (int i = 0; i < c; i++) { size_t k = v[i].iov_len; if (n + k > sizeof tmp) k = sizeof tmp - n; memcpy(tmp + n, v[i].iov_base, k); n += k; }
    return proof_write(fd, tmp, n);
}
off_t __wrap_lseek(int fd, off_t o, int w) {
    if (g_in_sim && fd == 0 && g_stdin_pipe) { errno = ESPIPE; return -1; }
    return __real_lseek(fd, o, w);
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
FILE* __wrap_fopen(const char* p, const char* m) {
    if (!g_in_sim) return __real_fopen(p, m);
    if (!strcmp(p, "/proc/self/statm")) {
        static char buf[128];
        bool jumped = g_cfg.rss_step && g_steps >= g_cfg.rss_step;
        if (jumped) g_sh->f_rss++;
        uint64_t mb = jumped ? g_cfg.rss_mb_after : g_cfg.rss_mb_base;
        int n = snprintf(buf, sizeof buf, "%llu %llu 0 0 0 0 0\n", (unsigned long long)mb * 512, (unsigned long long)mb * 256);
        g_sh->solver_polls++;
        return fmemopen(buf, (size_t)n, "r");
    }
    int id = file_by_path(p);
    if (id >= 0) {
        int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'a' ? O_WRONLY | O_APPEND : O_WRONLY | O_TRUNC;
        if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
        int fd = sim_open(id, fl);
        if (fd < 0) return nullptr;
        FILE* f = fdopen(fd, m);
        return f;
    }
    if (!strncmp(p, "/simfs/", 7)) { errno = ENOENT; return nullptr; }
    if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) { static char rnd[4096]; fill_entropy(rnd, sizeof rnd); return fmemopen(rnd, sizeof rnd, "r"); }
    // the simulated program may only touch simulated files
    if (m[0] != 'r') { errno = EACCES; return nullptr; }
    return __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
int __wrap_stat(const char* p, struct stat* st) {
    if (g_in_sim) { int id = file_by_path(p); if (id >= 0) return fstat(g_memfd[id], st); }
    return __real_stat(p, st);
}
int __wrap_stat64(const char* p, struct stat* st) { return __wrap_stat(p, st); }
}

void sim::set_file(FileId id, const std::string& c) {
    int fd = g_memfd[id];
    if (ftruncate(fd, 0)) die_internal("ftruncate\n");
    size_t off = 0;
    while (off < c.size()) { ssize_t r = pwrite(fd, c.data() + off, c.size() - off, (off_t)off); if (r <= 0) die_internal("pwrite\n"); off += (size_t)r; }
}
static std::string slurp(int fd) {
    struct stat st; std::string s;
    if (fstat(fd, &st)) return s;
    s.resize((size_t)st.st_size);
    size_t off = 0;
    while (off < s.size()) { ssize_t r = pread(fd, &s[off], s.size() - off, (off_t)off); if (r <= 0) break; off += (size_t)r; }
    s.resize(off);
    return s;
}

// ------------------------------------------------------------------------------------------------
// instrumentation callbacks
// ------------------------------------------------------------------------------------------------
static const uint32_t COVBITS = 1u << 16;
static uint8_t g_cov[COVBITS / 8];
extern "C" {
void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    if (__builtin_expect(!g_in_sim, 0)) return;
    uint32_t h = (uint32_t)(((uint64_t)pc * 0x9e3779b97f4a7c15ull) >> 48);
    uint8_t bit = (uint8_t)(1u << (h & 7));
    if (!(g_cov[h >> 3] & bit)) { g_cov[h >> 3] |= bit; g_sh->cov_count++; g_sh->cov_hash += mix64(pc); }
    step((void*)pc);
}
#define PC __builtin_return_address(0)
#define ACC(name) void name(void* a) { if (g_in_sim) access(a, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
ACC(__tsan_read1) ACC(__tsan_read2) ACC(__tsan_read4) ACC(__tsan_read8) ACC(__tsan_read16)
ACC(__tsan_write1) ACC(__tsan_write2) ACC(__tsan_write4) ACC(__tsan_write8) ACC(__tsan_write16)
ACC(__tsan_unaligned_read2) ACC(__tsan_unaligned_read4) ACC(__tsan_unaligned_read8) ACC(__tsan_unaligned_read16)
ACC(__tsan_unaligned_write2) ACC(__tsan_unaligned_write4) ACC(__tsan_unaligned_write8) ACC(__tsan_unaligned_write16)
ACC(__tsan_volatile_read1) ACC(__tsan_volatile_read2) ACC(__tsan_volatile_read4) ACC(__tsan_volatile_read8)
ACC(__tsan_volatile_write1) ACC(__tsan_volatile_write2) ACC(__tsan_volatile_write4) ACC(__tsan_volatile_write8)
void __tsan_read_range(void* a, unsigned long) { if (g_in_sim) access(a, PC); }
void __tsan_write_range(void* a, unsigned long) { if (g_in_sim) access(a, PC); }
void __tsan_vptr_update(void** a, void* v) { (void)v; if (g_in_sim) access(a, PC); }
void __tsan_vptr_read(void** a) { if (g_in_sim) access(a, PC); }
#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type* a, int) { if (g_in_sim) access((const void*)a, PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); *a = v; } \
  type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = v; return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = (type)(o + v); return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = (type)(o - v); return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = (type)(o & v); return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = (type)(o | v); return o; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = (type)(o ^ v); return o; } \
  type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; *a = (type)~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int, int) { if (g_in_sim) access((const void*)a, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int, int) { if (g_in_sim) access((const void*)a, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int, int) { if (g_in_sim) access((const void*)a, PC); type o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------------------------
// runs
// ------------------------------------------------------------------------------------------------
void sim::core_init() {
    map_region(STACKS, MAXT * STACK_SLOT, PROT_READ | PROT_WRITE);
    static const uint32_t CAPS[NTAPES] = {1u << 20, 1u << 16, 1u << 18};
    size_t bytes = sizeof(Shared) + 4096 + LOGCAP * 4ull + TRACECAP;
    for (int i = 0; i < NTAPES; i++) bytes += CAPS[i] * 4ull;
    bytes = (bytes + 65535) & ~size_t(4095);
    void* p = mmap((void*)SHARED_BASE, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)SHARED_BASE) die_internal("sim: shared map\n");
    g_sh = (Shared*)p;
    char* q = (char*)p + ((sizeof(Shared) + 4095) & ~size_t(4095));
    g_sh->log = (int32_t*)q; q += LOGCAP * 4ull;
    g_sh->trace = q; q += TRACECAP;
    for (int i = 0; i < NTAPES; i++) { g_sh->tape[i].data = (uint32_t*)q; g_sh->tape[i].cap = CAPS[i]; q += CAPS[i] * 4ull; }
    for (int i = 0; i <= NFILES; i++) {
        int fd = memfd_create("sim", MFD_CLOEXEC);
        g_memfd[i] = fcntl(fd, F_DUPFD_CLOEXEC, 200); close(fd);   // keep low descriptors free and identical everywhere
    }
    memset(g_fdmap, -1, sizeof g_fdmap);
}

static BodyFn g_body; static void* g_body_arg;
static void* main_thread(void*) {
    g_body(g_body_arg);
    g_sh->finished = 1;
    finish_run(0);
}

RunResult sim::run(BodyFn body, void* arg, double host_timeout_s) {
    // reset the shared area except the tapes
    {
        Tape keep[NTAPES]; int32_t* lg = g_sh->log; char* tr = g_sh->trace;
        memcpy(keep, g_sh->tape, sizeof keep);
        memset((void*)g_sh, 0, sizeof *g_sh);
        memcpy(g_sh->tape, keep, sizeof keep); g_sh->log = lg; g_sh->trace = tr;
    }
    if (ftruncate(g_memfd[FPROOF], 0) || ftruncate(g_memfd[FOUT], 0) || ftruncate(g_memfd[NFILES], 0)) die_internal("ftruncate\n");
    fflush(stdout); fflush(stderr);
    g_body = body; g_body_arg = arg;
    pid_t pid = fork();
    if (pid < 0) die_internal("sim: fork failed\n");
    if (pid == 0) {
        struct itimerval it; memset(&it, 0, sizeof it);
        it.it_value.tv_sec = (time_t)host_timeout_s; it.it_value.tv_usec = (suseconds_t)((host_timeout_s - (double)(time_t)host_timeout_s) * 1e6);
        __real_signal(SIGALRM, SIG_DFL);
        setitimer(ITIMER_REAL, &it, nullptr);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        lseek(g_memfd[NFILES], 0, SEEK_SET);
        char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", g_memfd[FIN]);
        int in = __real_open(path, O_RDONLY); dup2(in, 0); close(in); g_fdmap[0] = FIN;
        if (g_cfg.stdout_fail) { int fd = __real_open("/dev/full", O_WRONLY); dup2(fd, 1); close(fd); g_sh->f_stdout_err = 1; }
        else dup2(g_memfd[NFILES], 1);
        int nul = __real_open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
        for (int i = 0; i < 65; i++) g_sig[i].h = SIG_DFL;
        for (int i = 0; i < NDOM; i++) { BD[i].cur = BD[i].base + (g_cfg.heap_seed ? (mix64(g_cfg.heap_seed ^ (99 + i * 7919)) % 4096) * 16 : 0); BD[i].lcur = BD[i].lbase + (g_cfg.heap_seed ? (mix64(g_cfg.heap_seed ^ (1234567 + i * 7919)) % 65536) * 4096 : 0); g_guard_curd[i] = ARENA_G + i * GDOM_SIZE; g_dom_count[i] = 0; g_guard_nd[i] = 0; }
        g_alloc_count = 0;
        g_steps = 0; g_vbase = 0; g_vbase_step = 0; g_jump_total = 0; g_next_jump = g_next_signal = 0; g_reads = g_writes = 0;
        g_nt = 0; g_cur = 0; g_in_failed = g_wr_failed = false;
        uint64_t save_fail = g_cfg.alloc_fail_at; g_cfg.alloc_fail_at = 0;
        g_in_sim = true;
        spawn(main_thread, nullptr);
        g_alloc_count = 0; g_cfg.alloc_fail_at = save_fail;
        g_cur = 0; g_slice_end = ~0ull; arm();
        T[0].baton = 1; futex_wake(&T[0].baton);
        for (;;) pause();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.exited = WIFEXITED(st); r.code = r.exited ? WEXITSTATUS(st) : 0; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    r.host_timeout = r.sig == SIGALRM;
    r.out = slurp(g_memfd[NFILES]); r.proof = slurp(g_memfd[FPROOF]); r.file_out = slurp(g_memfd[FOUT]);
    return r;
}
