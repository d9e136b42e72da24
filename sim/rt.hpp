// kep3sim runtime: deterministic scheduler, simulated heap, race detector,
// simulated clock and fault injection for one process.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr int MAXT = 32;

// ---- PRNG (splitmix64) ---------------------------------------------------
struct Rng {
    u64 s = 0;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n)
    {
        return n ? next() % n : 0;
    }
    double u01()
    {
        return static_cast<double>(next() >> 11) * 0x1p-53;
    }
    bool chance(double p)
    {
        return u01() < p;
    }
    double range(double a, double b)
    {
        return a + (b - a) * u01();
    }
};
u64 mix(u64 a, u64 b);

// ---- scheduling trace ------------------------------------------------------
// "when thread `tid` reaches its own step number `step`, hand the processor to
// `target`; if stall != 0 thread `tid` is not scheduled again for that many
// global steps (unless nothing else can run)".
struct SchedEntry {
    u32 tid;
    u32 target;
    u64 step;
    u64 stall;
    u32 inc; // process incarnation
};
constexpr u32 MAXTRACE = 1u << 15;

enum Kind : int { K_READ = 0, K_WRITE, K_GWRITE, K_SYNC, K_ALLOC, K_OP, K_ATOMIC, K_N };

// Statistics and outcome of one run; lives in memory shared with the parent so
// it survives a crash of the child.
struct Report {
    u32 done; // 1: run completed, 2: violation recorded
    char cls[64];
    char msg[4096];
    u64 pcs[4];
    u64 hash;        // hash over every scheduling step, sync event and result
    u64 inter_hash;  // hash over the schedule only (interleaving measure)
    u64 steps;       // instrumented steps (accesses, sync, alloc, op boundaries)
    u64 switches;    // context switches performed
    u64 kinds[K_N];
    u64 allocs;
    u64 alloc_bytes;
    u64 fault_alloc_fired;
    u64 fault_stall;
    u64 fault_preempt;
    u64 fault_spurious;
    u64 fault_clock;
    u64 lock_acq;
    u64 lock_contended;
    u64 guard_inits;
    u64 guard_waits;
    u64 heap_reused;
    u64 sim_time_us;
    u64 threads;
    u64 user[64]; // harness counters
    u32 ntrace;
    SchedEntry trace[MAXTRACE];
    char log[1 << 16];
    u32 nlog;
};

struct Config {
    u64 seed = 1;
    bool replay = false; // use `script` rather than random choices
    const SchedEntry *script = nullptr;
    u32 nscript = 0;
    bool random_forced = true; // forced switches random (off in replay)
    u64 max_steps = 40'000'000;
    // preemption probabilities per kind, as thresholds on 32 bit draws
    u32 thr[K_N] = {};
    u32 stall_thr = 0; // given a preemption, probability of a stall
    u64 stall_max = 4000;
    u64 garbage_seed = 7;
    bool ambient = false; // calls find arbitrary errno and floating point flags
    bool detect_races = true;
    u32 inc = 0;
};

Report *report();
void set_report(Report *);
void heap_arena_on(); // from now on all allocations come from the simulated heap
void begin(const Config &);                      // configure the next run_main()
void run_main(void (*fn)(void *), void *arg);    // run fn as simulated thread 0 to completion

bool active();
int spawn(void (*fn)(void *), void *arg);
void join(int tid);
int self();
void op_begin(); // entering code under test
void op_end();
u32 op_depth();
void paint_stack(u64 seed);
// fault: fail the n-th operator new made by this thread inside ops from now on (1-based); 0 disarms
void arm_alloc(u64 n);
bool alloc_fired();
u64 alloc_count(); // allocations counted by this thread since arm_alloc()
void set_alloc_sticky(bool); // once fired, every later allocation of the thread fails too
// live heap accounting of allocations made inside ops
u64 live_blocks();
u64 live_bytes();
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_bytes(const void *p, std::size_t n);
void sync_point();                       // a scheduling point of the harness' own (simulated system call)
[[noreturn]] void finish_incarnation();  // the simulated process dies here, by design
void op_skip_begin();                    // harness code running inside an operation (callbacks): not checked, no faults
void op_skip_end();
// clock
u64 now_us();
void clock_set_us(u64);
void clock_log_reset();                  // clock readings made by this thread since then (at most 16)
u32 clock_log(std::int64_t out[16]);
u64 steps_now();
void call_returned(); // a call of a long history came back: the step budget starts anew
void clock_jump_us(std::int64_t);
void set_clock_script(const std::int64_t *deltas, u32 n); // each read of the clock consumes one delta
// is this address inside the simulated heap and currently allocated?
bool heap_live(const void *p, std::size_t n);
} // namespace sim
