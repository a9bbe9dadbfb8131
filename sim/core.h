// Deterministic simulator core for candy: seams (threads, clocks, signals, files, heap), seeded
// decision tapes, one forked process per simulated run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- decision tapes
enum TapeId { W = 0, F = 1, S = 2, NTAPES = 3 };   // workload, faults, schedule
struct Tape {
    uint64_t state;          // PRNG state (generate mode)
    uint32_t n;              // number of recorded draws
    uint32_t cap;            // capacity
    uint32_t replay_n;       // replay: number of available draws
    uint32_t replay;         // 1 = replay mode (draws past the end are 0)
    uint32_t pos;
    uint32_t* data;
};
uint32_t draw(TapeId t, uint32_t n);                 // uniform in [0,n); 0 is "simplest"
inline bool chance(TapeId t, uint32_t num, uint32_t den) { // true with num/den; 0 => false
    return draw(t, den) >= den - num;
}
inline int range(TapeId t, int lo, int hi) { return hi <= lo ? lo : lo + (int)draw(t, (uint32_t)(hi - lo + 1)); }
uint64_t mix64(uint64_t x);

// ---------------------------------------------------------------- per-run configuration (set by the scenario before fork)
struct SignalPlan { uint64_t step; int signum; bool after_install; };    // deliver at the first preemption point with steps >= step
struct ClockJump { uint64_t step; int64_t delta_ns; };
enum FileId { FIN = 0, FPROOF = 1, FOUT = 2, FAUX = 3, NFILES = 4 };
struct RunConfig {
    // virtual clock
    uint64_t ns_per_step = 100;
    uint64_t clock_start_ns = 1500000000ull * 1000000000ull;
    ClockJump jumps[4]; int njumps = 0;
    // signals
    SignalPlan signals[4]; int nsignals = 0;
    // budgets
    uint64_t max_steps = 200ull * 1000 * 1000;
    uint64_t max_vtime_ns = 0;                        // 0 = unlimited
    uint64_t fair_after = 20ull * 1000 * 1000;        // scheduler becomes fair round-robin after this many steps
    // heap
    uint64_t heap_seed = 0;                           // junk pattern / base offset
    bool heap_reuse = true;
    uint64_t alloc_fail_at = 0;                       // k-th allocation fails (0 = never)
    uint64_t alloc_fail_len = 0;                      // number of consecutive failing allocations
    bool heap_guard = false;                          // electric-fence mode: guard page after each block
    // memory statistics reported to the program
    uint64_t rss_mb_base = 20; uint64_t rss_step = 0; uint64_t rss_mb_after = 0; // jump at a step
    // input file
    uint32_t read_chunk = 0;                          // max bytes per read (0 = unlimited); else drawn from F tape 1..chunk
    bool read_chunk_random = false;
    uint64_t read_fail_at = 0; int read_errno = 0;    // k-th read on the input fails once (or for ever)
    bool read_fail_sticky = false;
    uint64_t read_eintr_at = 0;
    int open_errno = 0;                               // opening the input fails
    // proof file
    uint64_t write_fail_at = 0; int write_errno = 0; bool write_fail_sticky = true;
    bool write_short = false;                         // short writes, lengths from F tape
    uint64_t crash_at_write = 0;                      // k-th write on the proof: torn write, then crash
    uint64_t crash_at_step = 0;                       // kill the process at a step
    int proof_open_errno = 0;
    bool stdout_fail = false;                         // writes to stdout fail (disk full)
    // scheduler
    uint64_t slice_max = 400000;                      // longest slice of a thread
    int sched_mode = 0;                               // 0 = none (single thread), 1 = random quanta, 2 = shared-access biased
};
extern RunConfig g_cfg;

// ---------------------------------------------------------------- shared result area (survives the child)
struct Shared {
    uint64_t steps;
    uint64_t vtime_ns;
    uint64_t switches;
    uint64_t ctx_hash;            // hash of the schedule (thread, pc) at switches
    uint64_t event_hash;          // hash over all observable simulator events
    uint64_t cov_hash;            // hash over the coverage set
    uint32_t cov_count;
    uint32_t threads_created;
    uint32_t signals_delivered[3]; // [0]=handled by program, [1]=default action, [2]=not delivered
    uint32_t f_read_short, f_read_err, f_read_eintr, f_open_err;
    uint32_t f_write_short, f_write_err, f_crash, f_stdout_err;
    uint32_t f_alloc, f_clockjump, f_rss, f_term;
    uint32_t preempt_shared, preempt_quantum, timer_jumps;
    uint64_t first_signal_step;   // step at which the first signal was delivered
    uint64_t first_signal_vtime;
    uint64_t allocs;
    uint32_t heap_corrupt;        // canary violation seen at free / end
    uint32_t deadlock;            // no runnable thread
    uint32_t stepcap;             // run exceeded its step / time budget
    uint32_t finished;            // scenario body ran to completion
    uint32_t exit_called;         // program called exit()/_exit or returned from main
    int32_t  exit_code;
    uint32_t solver_polls;
    uint32_t nlog;                // event log
    uint32_t log_overflow;
    uint32_t ntrace;              // textual trace bytes
    int32_t* log;                 // capacity LOGCAP
    char* trace;                  // capacity TRACECAP
    Tape tape[NTAPES];
};
static const uint32_t LOGCAP = 4u << 20;
static const uint32_t TRACECAP = 1u << 20;
extern Shared* g_sh;

void log_i(int32_t v);                 // append to event log (child)
void tracef(const char* fmt, ...);     // append to human-readable trace (bounded)
bool in_sim();
uint64_t now_steps();
uint64_t now_vtime();
void hash_event(uint64_t v);
void maybe_point();                    // explicit preemption point (harness code)
void set_heap_domain(int d);           // allocations of the calling thread come from domain d (0..7)
void set_alloc_fail(uint64_t nth_from_now, uint64_t len);

// ---------------------------------------------------------------- runs
struct RunResult {
    bool exited; int code; int sig;    // how the child ended
    bool host_timeout;
    std::string out;                   // captured stdout
    std::string proof;                 // contents of the proof file
    std::string file_out;
};
typedef void (*BodyFn)(void* arg);
void core_init();
void begin_tapes_generate(uint64_t seed);
void begin_tapes_replay(const std::vector<uint32_t> t[NTAPES]);
void set_file(FileId id, const std::string& content);
RunResult run(BodyFn body, void* arg, double host_timeout_s);

std::string file_path(FileId id);      // virtual path for a simulated file
}

// the program under test (Main.cc, its main renamed in the object file)
extern "C" int candy_main(int, char**);
