// kep3sim runtime.  Compiled WITHOUT -fsanitize=thread; supplies the __tsan_*
// entry points that instrumented kep3 code calls, and interposes the thread,
// lock, allocation and clock functions of libc, so that one seed decides every
// interleaving, allocation outcome and clock reading.  Uses no STL container.
#include "rt.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
size_t malloc_usable_size(void *);
extern char __executable_start;
extern char _end;
}

namespace sim
{

u64 mix(u64 a, u64 b)
{
    Rng r(a ^ (b * 0xda942042e4dd58b5ull));
    r.next();
    return r.next();
}

namespace
{

enum TState { T_UNUSED = 0, T_RUN, T_BLOCK, T_SLEEP, T_DONE };

struct Dtor {
    void (*f)(void *);
    void *obj;
};

struct Ctx {
    int tid;
    TState st;
    int in_rt;
    u32 op_depth;
    u32 futex;
    u64 steps;
    u64 stall_until;
    u64 wake_us;
    const void *wait_addr;
    bool timed_out;
    bool cond_signalled;
    u32 vc[MAXT];
    uintptr_t stk_lo, stk_len;
    pthread_t pt;
    void *(*start)(void *);
    void *arg;
    void *ret;
    bool detached, joined;
    u32 script_pos;
    // alloc fault
    u64 fault_at, fault_n;
    bool fault_fired, fault_sticky;
    Ctx *arm; // whose allocation faults these are: threads made inside a call take part in its faults
    u32 fpenv; // floating point control bits on entry to the current operation
    Dtor dtors[64];
    int ndtors;
    // clock readings of the current operation
    std::int64_t clk[16];
    u32 nclk;
};

struct Sync {
    uintptr_t addr;
    int owner; // tid or -1
    u32 count; // recursion / readers
    u32 aux;   // guard / once state: 1 in progress, 2 done
    u32 vc[MAXT];
};

struct Rec {
    u32 clk;
    u8 tid, mask, fl, used; // fl: 1 write, 2 atomic
    u64 pc;
};
struct Cell {
    Rec r[4];
};

constexpr uintptr_t ARENA = 0x10000000000ull;
constexpr size_t ARENA_SZ = 1ull << 30;
constexpr uintptr_t STATE = 0x11000000000ull; // 1 byte / 8
constexpr uintptr_t RACE = 0x12000000000ull;  // 64 bytes / 8
constexpr uintptr_t STACKS = 0x13000000000ull;
constexpr uintptr_t SYNCMAP = 0x14000000000ull; // 1 byte / 64: a sync object lives here
constexpr size_t STACK_SLOT = 16u << 20;
constexpr size_t STACK_SZ = 8u << 20;

struct Hdr {
    u64 magic;
    u64 size;
    u64 idx;
    u32 flags; // 1: allocated inside an op; 2: freed
    u32 cap;   // bytes available / 64 (reuse class)
    u64 pc;
    u64 next; // free list (reuse mode)
};
static_assert(sizeof(Hdr) <= 64);
constexpr u64 MAGIC = 0x5eedb10c5eedb10cull;

bool g_arena = false;
bool g_mapped = false;
bool g_active = false;
u64 g_bump = 0;
u64 g_nalloc = 0;
u64 g_live_blocks = 0, g_live_bytes = 0;
Config g_cfg;
Rng g_sched(1);
Report *g_rep = nullptr;
Report g_dummy;
Ctx g_ctx[MAXT];
int g_nt = 0;
int g_runnable = 0;
int g_cur = 0;
u64 g_steps = 0;
u64 g_step_limit = 0; // g_steps at which the run counts as stuck
u64 g_now_us = 1'700'000'000'000'000ull; // monotonic time
std::int64_t g_wall_off = 0;               // wall clock minus monotonic clock, moved by clock faults
const std::int64_t *g_clk = nullptr;
u32 g_nclk = 0, g_iclk = 0;
bool g_ambient = false; // errno and floating point flags hold leftovers when a call starts
int g_stall = 0; // what clock readings do: 0 run on, 1 jump forward, 2 get set, 3 both
u64 g_reads = 0, g_rnd = 0;
u64 g_garbage = 7;
// Freed blocks are handed out again (last in first out) in some runs, so that
// state wrongly keyed by an address meets a new object there; in the other
// runs addresses are never reused, which makes every use after free visible.
int g_reuse = 0; // 0 never, 1 always, 2 every other block
constexpr u32 NCLASS = 65 + 8 * 32;
constexpr u64 PLENTY = 256u << 20; // from here on addresses are reused in every plan
// blocks of up to 4 KiB: a class for every 64 bytes; then eight for every power of two
u32 size_class(u64 &cap)
{
    if (cap <= 64) {
        return static_cast<u32>(cap);
    }
    const int e = 63 - __builtin_clzll(cap);
    const u64 step = 1ull << (e - 3);
    cap = (cap + step - 1) & ~(step - 1);
    const int e2 = 63 - __builtin_clzll(cap);
    return 65 + static_cast<u32>(e2 - 6) * 8 + static_cast<u32>((cap >> (e2 - 3)) & 7);
}
u64 g_freelist[NCLASS];

constexpr u32 NSYNC = 1u << 14;
Sync *g_sync = nullptr;
constexpr u32 NCELL = 1u << 17;
struct HCell {
    uintptr_t g;
    Cell c;
};
HCell *g_cells = nullptr;
u32 g_ncells = 0;

__thread Ctx *tl_ctx = nullptr;

struct Real {
    int (*m_lock)(pthread_mutex_t *);
    int (*m_trylock)(pthread_mutex_t *);
    int (*m_unlock)(pthread_mutex_t *);
    int (*rd)(pthread_rwlock_t *);
    int (*wr)(pthread_rwlock_t *);
    int (*tryrd)(pthread_rwlock_t *);
    int (*trywr)(pthread_rwlock_t *);
    int (*un)(pthread_rwlock_t *);
    int (*cw)(pthread_cond_t *, pthread_mutex_t *);
    int (*ctw)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    int (*ccw)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    int (*cs)(pthread_cond_t *);
    int (*cb)(pthread_cond_t *);
    int (*once)(pthread_once_t *, void (*)());
    int (*create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    int (*join)(pthread_t, void **);
    int (*detach)(pthread_t);
    int (*thr_atexit)(void (*)(void *), void *, void *);
} R;

template <typename F>
void res(F &f, const char *n)
{
    f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

void resolve()
{
    if (R.m_lock) {
        return;
    }
    res(R.m_trylock, "pthread_mutex_trylock");
    res(R.m_unlock, "pthread_mutex_unlock");
    res(R.rd, "pthread_rwlock_rdlock");
    res(R.wr, "pthread_rwlock_wrlock");
    res(R.tryrd, "pthread_rwlock_tryrdlock");
    res(R.trywr, "pthread_rwlock_trywrlock");
    res(R.un, "pthread_rwlock_unlock");
    res(R.cw, "pthread_cond_wait");
    res(R.ctw, "pthread_cond_timedwait");
    res(R.ccw, "pthread_cond_clockwait");
    res(R.cs, "pthread_cond_signal");
    res(R.cb, "pthread_cond_broadcast");
    res(R.once, "pthread_once");
    res(R.create, "pthread_create");
    res(R.join, "pthread_join");
    res(R.detach, "pthread_detach");
    res(R.thr_atexit, "__cxa_thread_atexit_impl");
    res(R.m_lock, "pthread_mutex_lock");
}
__attribute__((constructor(101))) void ctor()
{
    resolve();
}

inline bool sim_on()
{
    return g_active && tl_ctx && !tl_ctx->in_rt;
}

struct InRt {
    Ctx *c;
    InRt() : c(tl_ctx)
    {
        c->in_rt++;
    }
    ~InRt()
    {
        c->in_rt--;
    }
};

long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
template <typename... A>
long sys(long n, A... a)
{
    const long v[6] = {(long)(a)...};
    const long r = raw_syscall(n, v[0], v[1], v[2], v[3], v[4], v[5]);
    if (r < 0 && r > -4096) {
        errno = static_cast<int>(-r);
        return -1;
    }
    return r;
}

void fwait(u32 *a, u32 v)
{
    sys(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void fwake(u32 *a)
{
    sys(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

inline void hmix(u64 v)
{
    g_rep->hash = (g_rep->hash ^ v) * 0x100000001b3ull;
    g_rep->hash ^= g_rep->hash >> 29;
}

void handoff(Ctx *me, int target)
{
    g_rep->switches++;
    g_rep->inter_hash = (g_rep->inter_hash ^ (u64(me->tid) << 56) ^ (u64(target) << 48) ^ me->steps) * 0x100000001b3ull;
    g_rep->inter_hash ^= g_rep->inter_hash >> 31;
    hmix(0x1000 + static_cast<u64>(target));
    Ctx *t = &g_ctx[target];
    g_cur = target;
    __atomic_store_n(&t->futex, 1u, __ATOMIC_SEQ_CST);
    fwake(&t->futex);
}
void wait_turn(Ctx *me)
{
    while (__atomic_load_n(&me->futex, __ATOMIC_SEQ_CST) == 0u) {
        fwait(&me->futex, 0u);
    }
    __atomic_store_n(&me->futex, 0u, __ATOMIC_SEQ_CST);
}
void switch_to(Ctx *me, int target)
{
    if (target == me->tid) {
        return;
    }
    handoff(me, target);
    wait_turn(me);
}

void record(Ctx *me, int target, u64 stall)
{
    if (g_rep->ntrace < MAXTRACE) {
        g_rep->trace[g_rep->ntrace++] = SchedEntry{static_cast<u32>(me->tid), static_cast<u32>(target), me->steps, stall, g_cfg.inc};
    }
}

const SchedEntry *script_at(Ctx *me)
{
    while (me->script_pos < g_cfg.nscript) {
        const SchedEntry &e = g_cfg.script[me->script_pos];
        if (e.inc == g_cfg.inc && e.tid == static_cast<u32>(me->tid) && e.step >= me->steps) {
            if (e.step == me->steps) {
                me->script_pos++;
                return &e;
            }
            return nullptr;
        }
        me->script_pos++;
    }
    return nullptr;
}

// eight instrumented steps take a microsecond of simulated time
u64 mono_us()
{
    return g_now_us + g_steps / 8;
}

void wake_sleepers()
{
    // jump the clock to the earliest sleeper
    int best = -1;
    for (int i = 0; i < g_nt; ++i) {
        if (g_ctx[i].st == T_SLEEP && (best < 0 || g_ctx[i].wake_us < g_ctx[best].wake_us)) {
            best = i;
        }
    }
    if (best >= 0) {
        if (g_ctx[best].wake_us > mono_us()) {
            g_now_us += g_ctx[best].wake_us - mono_us();
        }
        g_ctx[best].st = T_RUN;
        g_ctx[best].timed_out = true;
        g_runnable++;
    }
}

// choose among runnable threads other than `excl` (excl < 0: any)
int choose(int excl)
{
    int cand[MAXT], n = 0;
    for (int pass = 0; pass < 2 && n == 0; ++pass) {
        for (int i = 0; i < g_nt; ++i) {
            if (g_ctx[i].st == T_RUN && i != excl && (pass == 1 || g_ctx[i].stall_until <= g_steps)) {
                cand[n++] = i;
            }
        }
    }
    if (n == 0) {
        return -1;
    }
    if (g_cfg.replay) {
        return cand[0];
    }
    return cand[g_sched.below(static_cast<u64>(n))];
}

// the current thread cannot continue: hand over
void forced_switch(Ctx *me)
{
    me->steps++;
    g_steps++;
    if (g_runnable == 0) {
        wake_sleepers();
    }
    if (g_runnable == 0) {
        char buf[256];
        int o = 0;
        for (int i = 0; i < g_nt && o < 200; ++i) {
            if (g_ctx[i].st == T_BLOCK) {
                o += snprintf(buf + o, sizeof buf - static_cast<size_t>(o), " t%d", i);
            }
        }
        violate("deadlock", "no thread can run; blocked:%s", buf);
    }
    int target = -1;
    if (g_cfg.replay) {
        const SchedEntry *e = script_at(me);
        if (e && static_cast<int>(e->target) < g_nt && g_ctx[e->target].st == T_RUN) {
            target = static_cast<int>(e->target);
        }
    }
    if (target < 0) {
        target = choose(me->st == T_RUN ? -1 : me->tid);
    }
    record(me, target, 0);
    switch_to(me, target);
}

void yield_until(Ctx *me, u32 thr)
{
    // voluntary yield (sched_yield and friends)
    (void)thr;
    if (g_runnable < 2) {
        me->steps++;
        g_steps++;
        g_now_us++;
        return;
    }
    me->steps++;
    g_steps++;
    int target = -1;
    if (g_cfg.replay) {
        const SchedEntry *e = script_at(me);
        if (e && static_cast<int>(e->target) < g_nt && g_ctx[e->target].st == T_RUN) {
            target = static_cast<int>(e->target);
        }
    }
    if (target < 0) {
        target = choose(me->tid);
    }
    if (target >= 0) {
        record(me, target, 0);
        switch_to(me, target);
    }
}

void step(Ctx *me, int kind)
{
    me->steps++;
    g_steps++;
    g_rep->kinds[kind]++;
    hmix((static_cast<u64>(me->tid) << 4) | static_cast<u64>(kind));
    if (g_steps > g_step_limit) {
        violate("no-progress", "step budget of %llu exhausted", static_cast<unsigned long long>(g_cfg.max_steps));
    }
    if (g_runnable < 2) {
        return;
    }
    if (g_cfg.replay) {
        const SchedEntry *e = script_at(me);
        if (e && static_cast<int>(e->target) < g_nt && g_ctx[e->target].st == T_RUN) {
            if (e->stall) {
                me->stall_until = g_steps + e->stall;
                g_rep->fault_stall++;
            }
            record(me, static_cast<int>(e->target), e->stall);
            g_rep->fault_preempt++;
            switch_to(me, static_cast<int>(e->target));
        }
        return;
    }
    if (g_rep->ntrace + 4096 >= MAXTRACE) {
        return; // no voluntary preemption beyond what the trace can record
    }
    if (static_cast<u32>(g_sched.next()) >= g_cfg.thr[kind]) {
        return;
    }
    const int target = choose(me->tid);
    if (target < 0) {
        return;
    }
    u64 stall = 0;
    if (static_cast<u32>(g_sched.next()) < g_cfg.stall_thr) {
        stall = 1 + g_sched.below(g_cfg.stall_max);
        me->stall_until = g_steps + stall;
        g_rep->fault_stall++;
    }
    g_rep->fault_preempt++;
    record(me, target, stall);
    switch_to(me, target);
}

// ---- happens-before ---------------------------------------------------------
constexpr uintptr_t TOMB = 1;
Sync *sync_find(uintptr_t a, bool create)
{
    u32 i = static_cast<u32>((a * 0x9e3779b97f4a7c15ull) >> 40) & (NSYNC - 1);
    Sync *tomb = nullptr;
    for (u32 n = 0; n < NSYNC; ++n, i = (i + 1) & (NSYNC - 1)) {
        Sync *s = &g_sync[i];
        if (s->addr == a) {
            return s;
        }
        if (s->addr == TOMB && !tomb) {
            tomb = s;
        }
        if (s->addr == 0) {
            if (!create) {
                return nullptr;
            }
            s = tomb ? tomb : s;
            s->addr = a;
            s->owner = -1;
            if (a - ARENA < ARENA_SZ) {
                reinterpret_cast<u8 *>(SYNCMAP)[(a - ARENA) >> 6] = 1;
            }
            return s;
        }
    }
    if (!create) {
        return nullptr;
    }
    violate("sim-error", "sync table full");
}
Sync *sync_at(const void *p)
{
    return sync_find(reinterpret_cast<uintptr_t>(p), true);
}
// the block is gone, and with it what lived in it
void sync_forget(uintptr_t user, size_t n)
{
    u8 *m = reinterpret_cast<u8 *>(SYNCMAP);
    for (uintptr_t q = user; q < user + n; q += 64) {
        if (!m[(q - ARENA) >> 6]) {
            continue;
        }
        m[(q - ARENA) >> 6] = 0;
        for (uintptr_t a = q; a < q + 64; ++a) {
            Sync *s = sync_find(a, false);
            if (s && s->owner < 0) {
                memset(static_cast<void *>(s), 0, sizeof *s);
                s->addr = TOMB;
            }
        }
    }
}
void acquire(Ctx *me, Sync *s)
{
    for (int i = 0; i < MAXT; ++i) {
        if (s->vc[i] > me->vc[i]) {
            me->vc[i] = s->vc[i];
        }
    }
}
void release(Ctx *me, Sync *s)
{
    for (int i = 0; i < MAXT; ++i) {
        if (me->vc[i] > s->vc[i]) {
            s->vc[i] = me->vc[i];
        }
    }
    me->vc[me->tid]++;
}
void release_store(Ctx *me, Sync *s)
{
    for (int i = 0; i < MAXT; ++i) {
        s->vc[i] = me->vc[i];
    }
    me->vc[me->tid]++;
}

Cell *cell_at(uintptr_t g)
{
    const uintptr_t a = g << 3;
    if (a - ARENA < ARENA_SZ) {
        return reinterpret_cast<Cell *>(RACE + (a - ARENA) * 8);
    }
    u32 i = static_cast<u32>((g * 0x9e3779b97f4a7c15ull) >> 38) & (NCELL - 1);
    for (u32 n = 0; n < 64; ++n, i = (i + 1) & (NCELL - 1)) {
        if (g_cells[i].g == g) {
            return &g_cells[i].c;
        }
        if (g_cells[i].g == 0) {
            if (g_ncells > NCELL * 3 / 4) {
                return nullptr;
            }
            g_ncells++;
            g_cells[i].g = g;
            return &g_cells[i].c;
        }
    }
    return nullptr;
}

bool is_global(uintptr_t p)
{
    return p >= reinterpret_cast<uintptr_t>(&__executable_start) && p < reinterpret_cast<uintptr_t>(&_end);
}

void describe(char *buf, size_t n, uintptr_t p)
{
    if (p - ARENA < ARENA_SZ) {
        // walk back to the header
        uintptr_t q = p & ~uintptr_t(63);
        for (u32 k = 0; k < (1u << 20) && q >= ARENA; ++k, q -= 64) {
            const Hdr *h = reinterpret_cast<const Hdr *>(q);
            if (h->magic == MAGIC) {
                snprintf(buf, n, "heap block #%llu (%llu bytes)%s offset %lld", static_cast<unsigned long long>(h->idx),
                         static_cast<unsigned long long>(h->size), (h->flags & 2) ? " [freed]" : "",
                         static_cast<long long>(p) - static_cast<long long>(q + 64));
                return;
            }
        }
        snprintf(buf, n, "heap arena");
    } else if (is_global(p)) {
        snprintf(buf, n, "global @0x%llx", static_cast<unsigned long long>(p));
    } else if (p - STACKS < MAXT * STACK_SLOT) {
        snprintf(buf, n, "stack/TLS of thread %llu", static_cast<unsigned long long>((p - STACKS) / STACK_SLOT));
    } else {
        snprintf(buf, n, "other memory");
    }
}

void race_check(Ctx *me, uintptr_t p, size_t sz, u8 fl, u64 pc)
{
    while (sz) {
        const uintptr_t g = p >> 3;
        const unsigned off = p & 7;
        const unsigned k = sz < 8 - off ? static_cast<unsigned>(sz) : 8 - off;
        const u8 mask = static_cast<u8>(((1u << k) - 1) << off);
        Cell *c = cell_at(g);
        if (c) {
            int slot = -1;
            for (int i = 0; i < 4; ++i) {
                Rec &r = c->r[i];
                if (!r.used) {
                    if (slot < 0) {
                        slot = i;
                    }
                    continue;
                }
                if (r.tid == me->tid) {
                    if (r.fl == fl && r.mask == mask) {
                        slot = i;
                    }
                    continue;
                }
                if ((r.mask & mask) && ((r.fl | fl) & 1) && !((r.fl & fl) & 2) && r.clk > me->vc[r.tid]) {
                    char b[160];
                    describe(b, sizeof b, p);
                    g_rep->pcs[0] = r.pc;
                    g_rep->pcs[1] = pc;
                    violate("data-race",
                            "unsynchronised %s%s by thread %d and %s%s by thread %d on %s [pc 0x%llx / pc 0x%llx]",
                            (r.fl & 2) ? "atomic " : "", (r.fl & 1) ? "write" : "read", r.tid,
                            (fl & 2) ? "atomic " : "", (fl & 1) ? "write" : "read", me->tid, b,
                            static_cast<unsigned long long>(r.pc), static_cast<unsigned long long>(pc));
                }
            }
            if (slot < 0) {
                slot = static_cast<int>(me->vc[me->tid] & 3);
            }
            c->r[slot] = Rec{me->vc[me->tid], static_cast<u8>(me->tid), mask, fl, 1, pc};
        }
        p += k;
        sz -= k;
    }
}

void heap_check(uintptr_t p, size_t sz, bool w, u64 pc)
{
    if (p - ARENA >= ARENA_SZ) {
        return;
    }
    const u8 *st = reinterpret_cast<const u8 *>(STATE);
    uintptr_t q = p;
    size_t n = sz;
    while (n) {
        const unsigned off = q & 7;
        const unsigned k = n < 8 - off ? static_cast<unsigned>(n) : 8 - off;
        const u8 s = st[(q - ARENA) >> 3];
        if (s > 8 || off + k > s) {
            char b[160];
            describe(b, sizeof b, q);
            g_rep->pcs[0] = pc;
            violate(s == 0xFD ? "heap-use-after-free" : "heap-out-of-bounds", "%s of %zu bytes at %s [pc 0x%llx]",
                    w ? "write" : "read", sz, b, static_cast<unsigned long long>(pc));
        }
        q += k;
        n -= k;
    }
}

inline void access(const void *a, size_t sz, bool w, u8 fl, u64 pc)
{
    if (!g_active) {
        return;
    }
    Ctx *me = tl_ctx;
    if (!me || me->in_rt || !me->op_depth) {
        return;
    }
    const auto p = reinterpret_cast<uintptr_t>(a);
    if (p - me->stk_lo < me->stk_len) {
        return;
    }
    me->in_rt++;
    step(me, w ? (is_global(p) ? K_GWRITE : K_WRITE) : K_READ);
    heap_check(p, sz, w, pc);
    if (g_cfg.detect_races && g_nt > 1) {
        race_check(me, p, sz, fl, pc);
    }
    me->in_rt--;
}

// ---- heap ---------------------------------------------------------------------
void fill_garbage(void *p, size_t n)
{
    Rng r(g_garbage * 0x9e3779b97f4a7c15ull + g_nalloc);
    u64 *q = static_cast<u64 *>(p);
    size_t i = 0;
    // full randomness for the first 4 KiB, then repeat one word
    for (; i + 8 <= n && i < 4096; i += 8) {
        *q++ = r.next();
    }
    const u64 w = r.next();
    for (; i + 8 <= n; i += 8) {
        *q++ = w;
    }
    memcpy(q, &w, n - i);
}

void *arena_alloc(size_t n, size_t align, u64 pc)
{
    if (align < 64) {
        align = 64;
    }
    if (n > ARENA_SZ) {
        return nullptr;
    }
    u64 cap = (n + 16 + 63) >> 6;
    const u32 cls = size_class(cap);
    u64 user;
    Hdr *h;
    if (align == 64 && g_freelist[cls]
        && (g_bump > PLENTY || g_reuse == 1 || (g_reuse == 2 && (g_nalloc * 0x9e3779b97f4a7c15ull) >> 63))) {
        user = g_freelist[cls];
        h = reinterpret_cast<Hdr *>(ARENA + user - 64);
        g_freelist[cls] = h->next;
        if (g_rep) {
            g_rep->heap_reused++;
        }
        if (g_active && g_nt > 1) {
            memset(reinterpret_cast<void *>(RACE + user * 8), 0, (cap << 6) * 8);
        }
    } else {
        user = (g_bump + 64 + align - 1) & ~(static_cast<u64>(align) - 1);
        const u64 end = user + (cap << 6);
        if (end > ARENA_SZ) {
            return nullptr;
        }
        g_bump = end;
        h = reinterpret_cast<Hdr *>(ARENA + user - 64);
    }
    g_nalloc++;
    h->magic = MAGIC;
    h->cap = static_cast<u32>(cap);
    h->size = n;
    h->idx = g_nalloc;
    h->flags = (tl_ctx && tl_ctx->op_depth) ? 1u : 0u;
    h->pc = pc;
    if (h->flags & 1) {
        g_live_blocks++;
        g_live_bytes += n;
    }
    if (g_rep) {
        g_rep->allocs++;
        g_rep->alloc_bytes += n;
    }
    u8 *st = reinterpret_cast<u8 *>(STATE) + (user >> 3);
    memset(st, 8, n >> 3);
    if (n & 7) {
        st[n >> 3] = static_cast<u8>(n & 7);
    }
    void *p = reinterpret_cast<void *>(ARENA + user);
    fill_garbage(p, n);
    return p;
}

inline bool in_arena(const void *p)
{
    return reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SZ;
}

void arena_free(void *p)
{
    Hdr *h = reinterpret_cast<Hdr *>(reinterpret_cast<uintptr_t>(p) - 64);
    if ((reinterpret_cast<uintptr_t>(p) & 63) || h->magic != MAGIC) {
        violate("bad-free", "free of a pointer that is not an allocated block");
    }
    if (h->flags & 2) {
        violate("double-free", "block #%llu (%llu bytes) freed twice", static_cast<unsigned long long>(h->idx),
                static_cast<unsigned long long>(h->size));
    }
    h->flags |= 2;
    if (h->flags & 1) {
        g_live_blocks--;
        g_live_bytes -= h->size;
    }
    const u64 user = reinterpret_cast<uintptr_t>(p) - ARENA;
    memset(reinterpret_cast<u8 *>(STATE) + (user >> 3), 0xFD, (h->size + 7) >> 3);
    fill_garbage(p, h->size < 256 ? h->size : 256);
    sync_forget(ARENA + user, h->size);
    u64 cap = h->cap;
    const u32 cls = size_class(cap);
    h->next = g_freelist[cls];
    g_freelist[cls] = user;
}

bool fault_now()
{
    Ctx *me = tl_ctx;
    Ctx *f = me && me->arm ? me->arm : me;
    if (!g_active || !me || me->in_rt || !me->op_depth || !f->fault_at) {
        return false;
    }
    f->fault_n++;
    if (f->fault_n == f->fault_at || (f->fault_sticky && f->fault_fired)) {
        f->fault_fired = true;
        g_rep->fault_alloc_fired++;
        hmix(0xfa11);
        return true;
    }
    return false;
}

// libc takes locks of its own that the scheduler cannot see (time zone data,
// stdio): an allocation it makes is not a point where a thread may be preempted
u64 g_libc_lo = 0, g_libc_hi = 0;
int find_libc(struct dl_phdr_info *i, size_t, void *)
{
    if (i->dlpi_name && strstr(i->dlpi_name, "libc.so.6")) {
        for (int k = 0; k < i->dlpi_phnum; ++k) {
            const auto &ph = i->dlpi_phdr[k];
            if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X)) {
                g_libc_lo = i->dlpi_addr + ph.p_vaddr;
                g_libc_hi = g_libc_lo + ph.p_memsz;
            }
        }
        return 1;
    }
    return 0;
}
bool from_libc(u64 pc)
{
    return pc - g_libc_lo < g_libc_hi - g_libc_lo;
}

void *do_alloc(size_t n, size_t align, u64 pc)
{
    if (!g_arena) {
        return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
    }
    if (sim_on() && tl_ctx->op_depth) {
        InRt g;
        if (!from_libc(pc)) {
            step(tl_ctx, K_ALLOC);
        }
        return arena_alloc(n, align, pc);
    }
    return arena_alloc(n, align, pc);
}
void do_free(void *p, u64 pc)
{
    if (!p) {
        return;
    }
    if (!in_arena(p)) {
        __libc_free(p);
        return;
    }
    if (sim_on() && tl_ctx->op_depth) {
        InRt g;
        if (!from_libc(pc)) {
            step(tl_ctx, K_ALLOC);
        }
        arena_free(p);
        return;
    }
    arena_free(p);
}

void *new_impl(size_t n, size_t align, u64 pc, bool nothrow)
{
    if (fault_now()) {
        if (nothrow) {
            return nullptr;
        }
        throw std::bad_alloc();
    }
    void *p = do_alloc(n ? n : 1, align, pc);
    if (!p && !nothrow) {
        throw std::bad_alloc();
    }
    return p;
}

// ---- blocking helpers -----------------------------------------------------------
void block_on(Ctx *me, const void *addr)
{
    me->st = T_BLOCK;
    me->wait_addr = addr;
    g_runnable--;
    forced_switch(me);
}
void wake_all(const void *addr)
{
    for (int i = 0; i < g_nt; ++i) {
        if (g_ctx[i].st == T_BLOCK && g_ctx[i].wait_addr == addr) {
            g_ctx[i].st = T_RUN;
            g_ctx[i].wait_addr = nullptr;
            g_runnable++;
        }
    }
}

void *thread_main(void *a)
{
    Ctx *me = static_cast<Ctx *>(a);
    tl_ctx = me;
    me->in_rt = 1;
    wait_turn(me);
    me->in_rt = 0;
    me->ret = me->start(me->arg);
    // thread_local destructors run as simulated code
    while (me->ndtors > 0) {
        const Dtor d = me->dtors[--me->ndtors];
        d.f(d.obj);
    }
    me->in_rt = 1;
    me->st = T_DONE;
    g_runnable--;
    Sync *s = sync_at(&me->st);
    release(me, s);
    wake_all(&me->st);
    hmix(0xdead00 + static_cast<u64>(me->tid));
    if (me->tid == 0) {
        // the scenario is over: no one else may still be running
        g_active = false;
        for (int i = 1; i < g_nt; ++i) {
            if (g_ctx[i].st != T_DONE) {
                violate("thread-leak", "thread %d still running when the scenario ended", i);
            }
        }
        return nullptr;
    }
    // hand over without waiting for another turn
    me->steps++;
    g_steps++;
    if (g_runnable == 0) {
        wake_sleepers();
    }
    if (g_runnable == 0) {
        violate("deadlock", "thread %d finished and no thread can run", me->tid);
    }
    int target = -1;
    if (g_cfg.replay) {
        const SchedEntry *e = script_at(me);
        if (e && static_cast<int>(e->target) < g_nt && g_ctx[e->target].st == T_RUN) {
            target = static_cast<int>(e->target);
        }
    }
    if (target < 0) {
        target = choose(me->tid);
    }
    record(me, target, 0);
    tl_ctx = nullptr;
    handoff(me, target);
    return nullptr;
}

// the slot of the next thread: a fresh one, or that of a thread that was joined
int next_tid()
{
    if (g_nt < MAXT) {
        return g_nt;
    }
    for (int i = 1; i < MAXT; ++i) {
        if (g_ctx[i].st == T_DONE && g_ctx[i].joined) {
            return i;
        }
    }
    return -1;
}
int new_thread(void *(*fn)(void *), void *arg, Ctx *parent)
{
    const int tid = next_tid();
    if (tid < 0) {
        return -1;
    }
    Ctx *c = &g_ctx[tid];
    Ctx *old = nullptr;
    if (tid < g_nt) {
        R.join(c->pt, nullptr);
        static Ctx prev;
        memcpy(static_cast<void *>(&prev), c, sizeof *c);
        old = &prev;
    }
    memset(static_cast<void *>(c), 0, sizeof *c);
    c->tid = tid;
    c->st = T_RUN;
    c->start = fn;
    c->arg = arg;
    c->stk_lo = STACKS + static_cast<uintptr_t>(tid) * STACK_SLOT;
    c->stk_len = STACK_SZ;
    if (parent) {
        for (int i = 0; i < MAXT; ++i) {
            c->vc[i] = parent->vc[i];
        }
        parent->vc[parent->tid]++;
    }
    c->vc[tid] = 1;
    if (old) { // stack and clock go on where the last owner stopped
        for (int i = 0; i < MAXT; ++i) {
            c->vc[i] = c->vc[i] < old->vc[i] ? old->vc[i] : c->vc[i];
        }
        c->vc[tid] = old->vc[tid] + 1;
        c->steps = old->steps;
        c->script_pos = old->script_pos;
    } else {
        g_nt++;
    }
    g_runnable++;
    g_rep->threads++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void *>(c->stk_lo), STACK_SZ);
    if (parent) {
        pthread_attr_setdetachstate(&at, PTHREAD_CREATE_JOINABLE);
    }
    // the memory the C library needs for a thread is not the caller's
    const u32 depth = parent ? parent->op_depth : 0u;
    c->op_depth = depth;
    c->arm = depth ? (parent->arm ? parent->arm : parent) : nullptr;
    if (parent) {
        parent->op_depth = 0;
    }
    const int rc = R.create(&c->pt, &at, thread_main, c);
    if (parent) {
        parent->op_depth = depth;
    }
    pthread_attr_destroy(&at);
    if (rc != 0) {
        violate("sim-error", "pthread_create failed: %d", rc);
    }
    return tid;
}

void join_tid(Ctx *me, int tid)
{
    Ctx *t = &g_ctx[tid];
    step(me, K_SYNC);
    while (t->st != T_DONE) {
        block_on(me, &t->st);
    }
    acquire(me, sync_at(&t->st));
    t->joined = true;
}

int tid_of(pthread_t p)
{
    for (int i = 0; i < g_nt; ++i) {
        if (pthread_equal(g_ctx[i].pt, p)) {
            return i;
        }
    }
    return -1;
}

struct SpawnArg {
    void (*fn)(void *);
    void *arg;
};
SpawnArg g_spawn[MAXT];
void *spawn_tramp(void *a)
{
    auto *s = static_cast<SpawnArg *>(a);
    s->fn(s->arg);
    return nullptr;
}

} // namespace

// ---- public API ---------------------------------------------------------------
Report *report()
{
    return g_rep ? g_rep : &g_dummy;
}
void set_report(Report *r)
{
    g_rep = r;
}

static void map_regions()
{
    if (g_mapped) {
        return;
    }
    auto mp = [](uintptr_t a, size_t n) {
        void *p = mmap(reinterpret_cast<void *>(a), n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(a)) {
            fprintf(stderr, "kep3sim: cannot map %zx bytes at %zx: %s\n", n, static_cast<size_t>(a), strerror(errno));
            _exit(97);
        }
    };
    mp(ARENA, ARENA_SZ);
    mp(STATE, ARENA_SZ / 8);
    mp(RACE, ARENA_SZ * 8);
    mp(SYNCMAP, ARENA_SZ / 64);
    mp(STACKS, MAXT * STACK_SLOT);
    g_sync = static_cast<Sync *>(
        mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_cells = static_cast<HCell *>(mmap(nullptr, NCELL * sizeof(HCell), PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_mapped = true;
}

void heap_arena_on()
{
    map_regions();
    dl_iterate_phdr(find_libc, nullptr);
    g_arena = true;
}

static void (*g_main_fn)(void *);
static void *g_main_arg;
static void *main_tramp(void *)
{
    g_main_fn(g_main_arg);
    return nullptr;
}

void begin(const Config &c)
{
    g_cfg = c;
    g_step_limit = c.max_steps;
    g_garbage = c.garbage_seed;
    g_reuse = static_cast<int>(c.garbage_seed % 5) > 2 ? static_cast<int>(c.garbage_seed % 5) - 2 : 0;
    g_stall = static_cast<int>(c.garbage_seed / 5 % 4);
    g_ambient = c.ambient;
    g_sched = Rng(mix(c.seed, 0x5c4ed));
    srand(static_cast<unsigned>(c.garbage_seed));
}
bool active()
{
    return g_active;
}

// Runs fn as simulated thread 0 to completion.
void run_main(void (*fn)(void *), void *arg)
{
    map_regions();
    g_main_fn = fn;
    g_main_arg = arg;
    g_nt = 0;
    g_runnable = 0;
    new_thread(main_tramp, nullptr, nullptr);
    g_active = true;
    g_cur = 0;
    __atomic_store_n(&g_ctx[0].futex, 1u, __ATOMIC_SEQ_CST);
    fwake(&g_ctx[0].futex);
    R.join(g_ctx[0].pt, nullptr);
    g_active = false;
    g_rep->steps += g_steps;
    g_rep->sim_time_us = mono_us();
}

int spawn(void (*fn)(void *), void *arg)
{
    Ctx *me = tl_ctx;
    InRt g;
    const int n = next_tid();
    if (n < 0) {
        violate("sim-error", "too many threads");
    }
    g_spawn[n] = SpawnArg{fn, arg};
    const int t = new_thread(spawn_tramp, &g_spawn[n], me);
    step(me, K_SYNC);
    return t;
}
void join(int tid)
{
    Ctx *me = tl_ctx;
    InRt g;
    join_tid(me, tid);
}
int self()
{
    return tl_ctx ? tl_ctx->tid : -1;
}
// rounding, flush-to-zero, exception masks and precision: everything but the sticky status flags
static u32 fp_env()
{
    u32 mx = 0;
    unsigned short cw = 0;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    return (mx & 0xffc0u) | (static_cast<u32>(cw & 0x0f3fu) << 16);
}
static void set_sticky(u32 flags)
{
    u32 mx = 0;
    asm volatile("stmxcsr %0" : "=m"(mx));
    mx = (mx & ~0x3fu) | flags;
    asm volatile("ldmxcsr %0" ::"m"(mx));
}
void op_begin()
{
    Ctx *me = tl_ctx;
    if (!me) {
        return;
    }
    if (g_active && !me->in_rt) {
        InRt g;
        step(me, K_OP);
    }
    if (me->op_depth++ == 0) {
        me->fpenv = fp_env();
        // what the caller did before: errno and the sticky floating point flags hold anything (zero in reference runs)
        int e = 0;
        u32 mx = 0;
        if (g_ambient) {
            const u64 r = mix(g_garbage, me->steps * 131 + static_cast<u64>(me->tid));
            static const int errs[] = {0, ERANGE, EDOM, ENOMEM, EINTR, EINVAL, ENOENT, EAGAIN};
            e = errs[r % 8];
            mx = r & 8 ? static_cast<u32>(r >> 8) & 0x3fu : 0;
        }
        asm volatile("fnclex");
        set_sticky(mx);
        errno = e;
    }
}
void op_end()
{
    Ctx *me = tl_ctx;
    if (!me) {
        return;
    }
    if (--me->op_depth == 0 && fp_env() != me->fpenv) {
        violate("fp-environment", "a call changed the caller's floating point environment (%08x to %08x)", me->fpenv, fp_env());
    }
    if (g_active && !me->in_rt) {
        InRt g;
        step(me, K_OP);
        call_returned();
    }
}
u32 op_depth()
{
    return tl_ctx ? tl_ctx->op_depth : 0;
}
__attribute__((noinline)) void paint_stack(u64 seed)
{
    volatile u64 buf[6144];
    Rng r(seed * 77 + 5);
    for (auto &b : buf) {
        b = r.next();
    }
    asm volatile("" ::"r"(buf) : "memory");
}
void arm_alloc(u64 n)
{
    Ctx *me = tl_ctx;
    if (!me) {
        return;
    }
    me->fault_at = n;
    me->fault_n = 0;
    me->fault_fired = false;
}
bool alloc_fired()
{
    return tl_ctx && tl_ctx->fault_fired;
}
u64 alloc_count()
{
    return tl_ctx ? tl_ctx->fault_n : 0;
}
void set_alloc_sticky(bool s)
{
    if (tl_ctx) {
        tl_ctx->fault_sticky = s;
    }
}
u64 live_blocks()
{
    return g_live_blocks;
}
u64 live_bytes()
{
    return g_live_bytes;
}
void violate(const char *cls, const char *fmt, ...)
{
    Report *r = report();
    if (tl_ctx) {
        tl_ctx->in_rt++;
    }
    if (r->done != 2) {
        snprintf(r->cls, sizeof r->cls, "%s", cls);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(r->msg, sizeof r->msg, fmt, ap);
        va_end(ap);
        r->steps += g_steps;
        r->sim_time_us = mono_us();
        r->done = 2;
    }
    _exit(42);
}
void note(const char *fmt, ...)
{
    Report *r = report();
    if (tl_ctx) {
        tl_ctx->in_rt++;
    }
    va_list ap;
    va_start(ap, fmt);
    const size_t room = sizeof r->log - r->nlog;
    if (room > 512) {
        const int n = vsnprintf(r->log + r->nlog, 512, fmt, ap);
        r->nlog += static_cast<u32>(n < 511 ? n : 511);
    }
    va_end(ap);
    if (tl_ctx) {
        tl_ctx->in_rt--;
    }
}
void hash_bytes(const void *p, std::size_t n)
{
    const u8 *b = static_cast<const u8 *>(p);
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ b[i]) * 0x100000001b3ull;
    }
    hmix(h);
}
void sync_point()
{
    if (sim_on()) {
        InRt g;
        step(tl_ctx, K_SYNC);
    }
}
void finish_incarnation()
{
    Report *r = report();
    if (tl_ctx) {
        tl_ctx->in_rt++;
    }
    hmix(0xc4a54);
    r->steps += g_steps;
    r->sim_time_us = mono_us();
    r->done = 1;
    _exit(0);
}
void op_skip_begin()
{
    if (tl_ctx) {
        tl_ctx->in_rt++;
    }
}
void op_skip_end()
{
    if (tl_ctx) {
        tl_ctx->in_rt--;
    }
}
void clock_log_reset()
{
    if (tl_ctx) {
        tl_ctx->nclk = 0;
    }
}
u32 clock_log(std::int64_t *out)
{
    const u32 n = tl_ctx ? (tl_ctx->nclk < 16 ? tl_ctx->nclk : 16) : 0;
    for (u32 i = 0; i < n; ++i) {
        out[i] = tl_ctx->clk[i];
    }
    return n;
}
u64 now_us()
{
    return mono_us();
}
void clock_set_us(u64 t)
{
    g_wall_off = static_cast<std::int64_t>(t) - static_cast<std::int64_t>(mono_us());
}
u64 steps_now()
{
    return g_steps;
}
void call_returned()
{
    g_step_limit = std::max(g_step_limit, g_steps + g_cfg.max_steps);
}
void clock_jump_us(std::int64_t d)
{
    const auto now = static_cast<std::int64_t>(mono_us()) + g_wall_off;
    if (now + d > 9000000000000000 || now + d < -9000000000000000) { // 292 years either way fit into nanoseconds
        d = -d;
    }
    g_wall_off += d;
    g_rep->fault_clock++;
}
void set_clock_script(const std::int64_t *d, u32 n)
{
    g_clk = d;
    g_nclk = n;
    g_iclk = 0;
}
bool heap_live(const void *p, std::size_t n)
{
    const auto a = reinterpret_cast<uintptr_t>(p);
    if (a - ARENA >= ARENA_SZ) {
        return true;
    }
    const u8 *st = reinterpret_cast<const u8 *>(STATE);
    for (uintptr_t q = a; q < a + n; ++q) {
        const u8 s = st[(q - ARENA) >> 3];
        if (s > 8 || (q & 7) >= s) {
            return false;
        }
    }
    return true;
}

} // namespace sim

using namespace sim;

// ---- __tsan_* -------------------------------------------------------------------
#define PC reinterpret_cast<u64>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void *a)                                                                                       \
    {                                                                                                                  \
        access(a, N, false, 0, PC);                                                                                    \
    }                                                                                                                  \
    void __tsan_write##N(void *a)                                                                                      \
    {                                                                                                                  \
        access(a, N, true, 1, PC);                                                                                     \
    }                                                                                                                  \
    void __tsan_unaligned_read##N(void *a)                                                                             \
    {                                                                                                                  \
        access(a, N, false, 0, PC);                                                                                    \
    }                                                                                                                  \
    void __tsan_unaligned_write##N(void *a)                                                                            \
    {                                                                                                                  \
        access(a, N, true, 1, PC);                                                                                     \
    }                                                                                                                  \
    void __tsan_volatile_read##N(void *a)                                                                              \
    {                                                                                                                  \
        access(a, N, false, 0, PC);                                                                                    \
    }                                                                                                                  \
    void __tsan_volatile_write##N(void *a)                                                                             \
    {                                                                                                                  \
        access(a, N, true, 1, PC);                                                                                     \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n)
{
    if (n) {
        access(a, n, false, 0, PC);
    }
}
void __tsan_write_range(void *a, size_t n)
{
    if (n) {
        access(a, n, true, 1, PC);
    }
}
void __tsan_vptr_update(void **v, void *n)
{
    if (*v != n) {
        access(v, 8, true, 1, PC);
    }
}
void __tsan_vptr_read(void **v)
{
    access(v, 8, false, 0, PC);
}

static Ctx *atomic_pre(const volatile void *a, size_t sz, bool w, u64 pc)
{
    if (!g_active) {
        return nullptr;
    }
    Ctx *me = tl_ctx;
    if (!me || me->in_rt || !me->op_depth) {
        return nullptr;
    }
    const auto p = reinterpret_cast<uintptr_t>(a);
    me->in_rt++;
    step(me, K_ATOMIC);
    heap_check(p, sz, w, pc);
    if (g_cfg.detect_races && g_nt > 1) {
        race_check(me, p, sz, static_cast<u8>(2 | (w ? 1 : 0)), pc);
    }
    return me;
}
static void atomic_post(Ctx *me, const volatile void *a, int mo, bool r, bool w)
{
    if (!me) {
        return;
    }
    Sync *s = nullptr;
    if (r && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) {
        s = sync_at(const_cast<const void *>(a));
        acquire(me, s);
    }
    if (w && (mo == 3 || mo == 4 || mo == 5)) {
        s = sync_at(const_cast<const void *>(a));
        if (r) {
            release(me, s);
        } else {
            release_store(me, s);
        }
    }
    me->in_rt--;
}
#define AT(N, T)                                                                                                       \
    T __tsan_atomic##N##_load(const volatile T *a, int mo)                                                             \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), false, PC);                                                                  \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
        atomic_post(m, a, mo, true, false);                                                                            \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo)                                                          \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
        atomic_post(m, a, mo, false, true);                                                                            \
    }                                                                                                                  \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo)                                                          \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                             \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo)                                                         \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                              \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo)                                                         \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                              \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo)                                                         \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                              \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo)                                                          \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                               \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo)                                                         \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                              \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo)                                                        \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        T o = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                             \
        atomic_post(m, a, mo, true, true);                                                                             \
        return o;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int)                              \
    {                                                                                                                  \
        Ctx *m = atomic_pre(a, sizeof(T), true, PC);                                                                   \
        int ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
        atomic_post(m, a, mo, true, ok != 0);                                                                          \
        return ok;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo)                            \
    {                                                                                                                  \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo);                                           \
    }                                                                                                                  \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo)                                \
    {                                                                                                                  \
        __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo);                                                 \
        return c;                                                                                                      \
    }
AT(8, u8) AT(16, std::uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int)
{
    __sync_synchronize();
}
void __tsan_atomic_signal_fence(int) {}

// ---- wrapped memory functions (only calls from linked objects come here) ----------
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (n) {
        access(s, n, false, 0, PC);
        access(d, n, true, 1, PC);
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (n) {
        access(s, n, false, 0, PC);
        access(d, n, true, 1, PC);
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (n) {
        access(d, n, true, 1, PC);
    }
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
    if (n) {
        access(a, n, false, 0, PC);
        access(b, n, false, 0, PC);
    }
    return __real_memcmp(a, b, n);
}

// ---- allocation ---------------------------------------------------------------------
void *malloc(size_t n)
{
    void *p = do_alloc(n, 16, PC);
    if (!p) {
        errno = ENOMEM;
    }
    return p;
}
void free(void *p)
{
    do_free(p, PC);
}
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    if (!g_arena) {
        return __libc_calloc(a, b);
    }
    void *p = do_alloc(n, 16, PC);
    if (p) {
        __real_memset(p, 0, n);
    }
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!p) {
        return do_alloc(n, 16, PC);
    }
    if (!in_arena(p)) {
        if (!g_arena) {
            return __libc_realloc(p, n);
        }
        const size_t old = malloc_usable_size(p);
        void *q = do_alloc(n, 16, PC);
        if (q) {
            __real_memcpy(q, p, old < n ? old : n);
            __libc_free(p);
        }
        return q;
    }
    const Hdr *h = reinterpret_cast<const Hdr *>(reinterpret_cast<uintptr_t>(p) - 64);
    const size_t old = h->size;
    if (n == 0) {
        do_free(p, PC);
        return nullptr;
    }
    void *q = do_alloc(n, 16, PC);
    if (q) {
        __real_memcpy(q, p, old < n ? old : n);
        do_free(p, PC);
    }
    return q;
}
void *memalign(size_t a, size_t n)
{
    return do_alloc(n, a, PC);
}
void *aligned_alloc(size_t a, size_t n)
{
    return do_alloc(n, a, PC);
}
int posix_memalign(void **o, size_t a, size_t n)
{
    void *p = do_alloc(n, a, PC);
    if (!p) {
        return ENOMEM;
    }
    *o = p;
    return 0;
}

// ---- locks ---------------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!sim_on()) {
        resolve();
        if (g_arena && tl_ctx) {
            return 0;
        }
        return R.m_lock(m);
    }
    Ctx *me = tl_ctx;
    InRt g;
    step(me, K_SYNC);
    g_rep->lock_acq++;
    const int kind = m->__data.__kind & 3;
    for (bool first = true;; first = false) {
        Sync *s = sync_at(m);
        if (s->owner < 0) {
            s->owner = me->tid;
            s->count = 1;
            acquire(me, s);
            return 0;
        }
        if (s->owner == me->tid) {
            if (kind == PTHREAD_MUTEX_RECURSIVE) {
                s->count++;
                return 0;
            }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) {
                return EDEADLK;
            }
        }
        if (first) {
            g_rep->lock_contended++;
        }
        block_on(me, m);
    }
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!sim_on()) {
        return (g_arena && tl_ctx) ? 0 : R.m_trylock(m);
    }
    Ctx *me = tl_ctx;
    InRt g;
    step(me, K_SYNC);
    Sync *s = sync_at(m);
    if (s->owner < 0) {
        s->owner = me->tid;
        s->count = 1;
        acquire(me, s);
        return 0;
    }
    if (s->owner == me->tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        s->count++;
        return 0;
    }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!sim_on()) {
        resolve();
        return (g_arena && tl_ctx) ? 0 : R.m_unlock(m);
    }
    Ctx *me = tl_ctx;
    InRt g;
    Sync *s = sync_at(m);
    if (s->owner != me->tid) {
        violate("bad-unlock", "thread %d unlocks a mutex it does not hold", me->tid);
    }
    if (--s->count == 0) {
        s->owner = -1;
        release(me, s);
        wake_all(m);
    }
    step(me, K_SYNC);
    return 0;
}
static int rwl(pthread_rwlock_t *l, bool w, bool tryit)
{
    Ctx *me = tl_ctx;
    InRt g;
    step(me, K_SYNC);
    g_rep->lock_acq++;
    for (bool first = true;; first = false) {
        Sync *s = sync_at(l);
        if (s->owner < 0 && (!w || s->count == 0)) {
            if (w) {
                s->owner = me->tid;
            } else {
                s->count++;
            }
            acquire(me, s);
            return 0;
        }
        if (tryit) {
            return EBUSY;
        }
        if (first) {
            g_rep->lock_contended++;
        }
        block_on(me, l);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    return sim_on() ? rwl(l, false, false) : ((g_arena && tl_ctx) ? 0 : R.rd(l));
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    return sim_on() ? rwl(l, true, false) : ((g_arena && tl_ctx) ? 0 : R.wr(l));
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
    return sim_on() ? rwl(l, false, true) : ((g_arena && tl_ctx) ? 0 : R.tryrd(l));
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
    return sim_on() ? rwl(l, true, true) : ((g_arena && tl_ctx) ? 0 : R.trywr(l));
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!sim_on()) {
        return (g_arena && tl_ctx) ? 0 : R.un(l);
    }
    Ctx *me = tl_ctx;
    InRt g;
    Sync *s = sync_at(l);
    if (s->owner == me->tid) {
        s->owner = -1;
    } else if (s->count > 0) {
        s->count--;
    } else {
        violate("bad-unlock", "thread %d unlocks a rwlock it does not hold", me->tid);
    }
    release(me, s);
    wake_all(l);
    step(me, K_SYNC);
    return 0;
}
static void sim_unlock(Ctx *me, pthread_mutex_t *m)
{
    Sync *s = sync_at(m);
    s->owner = -1;
    s->count = 0;
    release(me, s);
    wake_all(m);
}
static void sim_relock(Ctx *me, pthread_mutex_t *m)
{
    for (;;) {
        Sync *s = sync_at(m);
        if (s->owner < 0) {
            s->owner = me->tid;
            s->count = 1;
            acquire(me, s);
            return;
        }
        block_on(me, m);
    }
}
// a function of the plan and the position, so that a replay decides alike
static bool spurious_wake(const Ctx *me)
{
    if (mix(g_cfg.seed, 0x59) % 4 != 0) {
        return false;
    }
    return mix(g_cfg.seed, (static_cast<u64>(me->tid) << 48) ^ me->steps) % 8 == 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    Ctx *me = tl_ctx;
    InRt g;
    step(me, K_SYNC);
    sim_unlock(me, m);
    me->timed_out = false;
    me->cond_signalled = false;
    const bool spurious = spurious_wake(me);
    if (spurious) {
        g_rep->fault_spurious++;
    } else if (ts) {
        me->st = T_SLEEP;
        me->wait_addr = c;
        me->wake_us = static_cast<u64>(ts->tv_sec) * 1000000u + static_cast<u64>(ts->tv_nsec) / 1000u;
        g_runnable--;
        forced_switch(me);
    } else {
        block_on(me, c);
    }
    acquire(me, sync_at(c));
    sim_relock(me, m);
    return (ts && me->timed_out) ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return sim_on() ? cond_wait(c, m, nullptr) : R.cw(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    return sim_on() ? cond_wait(c, m, t) : R.ctw(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
    return sim_on() ? cond_wait(c, m, t) : R.ccw(c, m, k, t);
}
static int cond_sig(pthread_cond_t *c, bool all)
{
    Ctx *me = tl_ctx;
    InRt g;
    release(me, sync_at(c));
    for (int i = 0; i < g_nt; ++i) {
        Ctx *t = &g_ctx[i];
        if ((t->st == T_BLOCK || t->st == T_SLEEP) && t->wait_addr == c) {
            t->st = T_RUN;
            t->wait_addr = nullptr;
            t->timed_out = false;
            g_runnable++;
            if (!all) {
                break;
            }
        }
    }
    step(me, K_SYNC);
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c)
{
    return sim_on() ? cond_sig(c, false) : R.cs(c);
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    return sim_on() ? cond_sig(c, true) : R.cb(c);
}
int pthread_once(pthread_once_t *o, void (*f)())
{
    if (!sim_on()) {
        resolve();
        return R.once(o, f);
    }
    Ctx *me = tl_ctx;
    {
        InRt g;
        step(me, K_SYNC);
        for (;;) {
            Sync *s = sync_at(o);
            if (*o == 2) { // glibc: initialisation done
                acquire(me, s);
                return 0;
            }
            if (s->aux != 1) {
                s->aux = 1;
                s->owner = me->tid;
                break;
            }
            if (s->owner == me->tid) {
                violate("deadlock", "recursive pthread_once");
            }
            g_rep->guard_waits++;
            block_on(me, o);
        }
        g_rep->guard_inits++;
    }
    struct Done {
        Ctx *me;
        pthread_once_t *o;
        bool ok = false;
        ~Done()
        {
            InRt g;
            Sync *s = sync_at(o);
            s->aux = ok ? 2u : 0u;
            s->owner = -1;
            if (ok) {
                *o = 2;
            }
            release(me, s);
            wake_all(o);
            step(me, K_SYNC);
        }
    } d{me, o};
    f();
    d.ok = true;
    return 0;
}

// ---- function-local statics ------------------------------------------------------------
int __cxa_guard_acquire(u64 *gd)
{
    char *b = reinterpret_cast<char *>(gd);
    if (!sim_on()) {
        return b[0] ? 0 : 1;
    }
    Ctx *me = tl_ctx;
    InRt g;
    step(me, K_SYNC);
    for (;;) {
        Sync *s = sync_at(gd);
        if (b[0]) {
            acquire(me, s);
            return 0;
        }
        if (s->aux != 1) {
            s->aux = 1;
            s->owner = me->tid;
            acquire(me, s);
            g_rep->guard_inits++;
            return 1;
        }
        if (s->owner == me->tid) {
            violate("deadlock", "recursive initialisation of a local static");
        }
        g_rep->guard_waits++;
        block_on(me, gd);
    }
}
void __cxa_guard_release(u64 *gd)
{
    char *b = reinterpret_cast<char *>(gd);
    if (!sim_on()) {
        b[0] = 1;
        return;
    }
    Ctx *me = tl_ctx;
    InRt g;
    Sync *s = sync_at(gd);
    b[0] = 1;
    s->aux = 2;
    s->owner = -1;
    release(me, s);
    wake_all(gd);
    step(me, K_SYNC);
}
void __cxa_guard_abort(u64 *gd)
{
    if (!sim_on()) {
        return;
    }
    Ctx *me = tl_ctx;
    InRt g;
    Sync *s = sync_at(gd);
    s->aux = 0;
    s->owner = -1;
    release(me, s);
    wake_all(gd);
    step(me, K_SYNC);
}
static int add_dtor(void (*f)(void *), void *o)
{
    Ctx *me = tl_ctx;
    if (me->ndtors < 64) {
        me->dtors[me->ndtors++] = Dtor{f, o};
        return 0;
    }
    violate("sim-error", "too many thread_local destructors");
}
int __cxa_thread_atexit_impl(void (*f)(void *), void *o, void *d)
{
    if (tl_ctx) {
        return add_dtor(f, o);
    }
    resolve();
    return R.thr_atexit ? R.thr_atexit(f, o, d) : 0;
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *d)
{
    return __cxa_thread_atexit_impl(f, o, d);
}

// ---- randomness --------------------------------------------------------------------------
ssize_t getrandom(void *p, size_t n, unsigned fl)
{
    if (!sim_on()) {
        return static_cast<ssize_t>(sys(SYS_getrandom, p, n, fl));
    }
    auto *b = static_cast<unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) {
        b[i] = static_cast<unsigned char>(mix(g_garbage, 0x4a4d + g_rnd++));
    }
    return static_cast<ssize_t>(n);
}
int getentropy(void *p, size_t n)
{
    return getrandom(p, n, 0) == static_cast<ssize_t>(n) ? 0 : -1;
}

// ---- threads -----------------------------------------------------------------------------
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!sim_on()) {
        resolve();
        return R.create(t, a, fn, arg);
    }
    Ctx *me = tl_ctx;
    InRt g;
    const int tid = new_thread(fn, arg, me);
    if (tid < 0) {
        return EAGAIN;
    }
    *t = g_ctx[tid].pt;
    step(me, K_SYNC);
    return 0;
}
int pthread_join(pthread_t t, void **ret)
{
    if (!sim_on()) {
        resolve();
        return R.join(t, ret);
    }
    Ctx *me = tl_ctx;
    InRt g;
    const int tid = tid_of(t);
    if (tid < 0) {
        return ESRCH;
    }
    join_tid(me, tid);
    if (ret) {
        *ret = g_ctx[tid].ret;
    }
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (!sim_on()) {
        resolve();
        return R.detach(t);
    }
    const int tid = tid_of(t);
    if (tid >= 0) {
        g_ctx[tid].detached = true;
    }
    return 0;
}
int sched_yield()
{
    if (!sim_on()) {
        return static_cast<int>(sys(SYS_sched_yield));
    }
    Ctx *me = tl_ctx;
    InRt g;
    if (g_steps > g_step_limit) {
        violate("no-progress", "step budget exhausted in a spin loop");
    }
    yield_until(me, 0);
    return 0;
}
// std::atomic::wait, std::future, semaphores, latches and barriers end up here
static long sim_futex(u32 *a, int op, u32 val, const struct timespec *ts)
{
    Ctx *me = tl_ctx;
    InRt g;
    const int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        step(me, K_SYNC);
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        if (spurious_wake(me)) {
            g_rep->fault_spurious++;
            errno = EINTR;
            return -1;
        }
        me->timed_out = false;
        if (ts) {
            const u64 us = static_cast<u64>(ts->tv_sec) * 1000000u + static_cast<u64>(ts->tv_nsec) / 1000u;
            me->st = T_SLEEP;
            me->wait_addr = a;
            me->wake_us = cmd == FUTEX_WAIT ? mono_us() + us : us;
            g_runnable--;
            forced_switch(me);
        } else {
            block_on(me, a);
        }
        acquire(me, sync_at(a));
        if (ts && me->timed_out) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        release(me, sync_at(a));
        long n = 0;
        for (int i = 0; i < g_nt && n < static_cast<long>(val); ++i) {
            Ctx *t = &g_ctx[i];
            if ((t->st == T_BLOCK || t->st == T_SLEEP) && t->wait_addr == a) {
                t->st = T_RUN;
                t->wait_addr = nullptr;
                t->timed_out = false;
                g_runnable++;
                ++n;
            }
        }
        step(me, K_SYNC);
        return n;
    }
    violate("sim-error", "futex operation %d is not simulated", cmd);
}
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long v[6];
    for (long &x : v) {
        x = va_arg(ap, long);
    }
    va_end(ap);
    if (n == SYS_futex && sim_on()) {
        return sim_futex(reinterpret_cast<u32 *>(v[0]), static_cast<int>(v[1]), static_cast<u32>(v[2]), reinterpret_cast<const struct timespec *>(v[3]));
    }
    return sys(n, v[0], v[1], v[2], v[3], v[4], v[5]);
}
static void sim_sleep(u64 us)
{
    Ctx *me = tl_ctx;
    InRt g;
    me->st = T_SLEEP;
    me->wait_addr = nullptr;
    me->wake_us = mono_us() + us;
    g_runnable--;
    forced_switch(me);
}
int nanosleep(const struct timespec *a, struct timespec *)
{
    if (!sim_on()) {
        return static_cast<int>(sys(SYS_nanosleep, a, nullptr));
    }
    sim_sleep(static_cast<u64>(a->tv_sec) * 1000000u + static_cast<u64>(a->tv_nsec) / 1000u);
    return 0;
}
int clock_nanosleep(clockid_t, int fl, const struct timespec *a, struct timespec *)
{
    u64 us = static_cast<u64>(a->tv_sec) * 1000000u + static_cast<u64>(a->tv_nsec) / 1000u;
    if (sim_on()) {
        if (fl) {
            us = us > mono_us() ? us - mono_us() : 0;
        }
        sim_sleep(us);
    }
    return 0;
}
int usleep(unsigned us)
{
    if (sim_on()) {
        sim_sleep(us);
    }
    return 0;
}

// ---- clock -------------------------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (!g_arena) {
        return static_cast<int>(sys(SYS_clock_gettime, c, t));
    }
    if (sim_on()) {
        InRt g;
        step(tl_ctx, K_SYNC);
        if (g_clk && g_iclk < g_nclk) {
            g_wall_off += g_clk[g_iclk++];
            g_rep->fault_clock++;
        }
        if (!g_clk && g_stall) { // the host may stand still, or its clock be set, between any two readings
            Rng r(mix(g_garbage, 0xc10c + (static_cast<u64>(tl_ctx - g_ctx) << 32) + g_reads++));
            const u64 w = r.below(4);
            if (w) {
                const auto d = r.below(1ull << r.below(w == 1 ? 12 : w == 2 ? 24 : 40));
                if (g_stall != 2) {
                    g_now_us += d;
                }
                if (g_stall != 1) {
                    g_wall_off += r.chance(0.5) ? -static_cast<std::int64_t>(d) : static_cast<std::int64_t>(d);
                }
                g_rep->fault_clock++;
            }
        }
        tl_ctx->clk[tl_ctx->nclk++ % 16] = static_cast<std::int64_t>(mono_us()) + g_wall_off;
    }
    const bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
    const std::int64_t us = static_cast<std::int64_t>(mono_us()) + (wall ? g_wall_off : 0);
    std::int64_t s = us / 1000000, r = us % 1000000;
    if (r < 0) {
        r += 1000000;
        s -= 1;
    }
    t->tv_sec = s;
    t->tv_nsec = r * 1000 + 137; // sub-microsecond digits are there to be dropped
    return 0;
}
int gettimeofday(struct timeval *__restrict t, void *__restrict)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec;
    t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (o) {
        *o = ts.tv_sec;
    }
    return ts.tv_sec;
}
int timespec_get(struct timespec *ts, int base)
{
    return clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}
clock_t clock() // processor time: as unsteady as any
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<clock_t>(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
} // extern "C"

unsigned int std::random_device::_M_getval()
{
    unsigned int v = 0;
    getrandom(&v, sizeof(v), 0);
    return v;
}
void *operator new(size_t n)
{
    return new_impl(n, 16, PC, false);
}
void *operator new[](size_t n)
{
    return new_impl(n, 16, PC, false);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
    return new_impl(n, 16, PC, true);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept
{
    return new_impl(n, 16, PC, true);
}
void *operator new(size_t n, std::align_val_t a)
{
    return new_impl(n, static_cast<size_t>(a), PC, false);
}
void *operator new[](size_t n, std::align_val_t a)
{
    return new_impl(n, static_cast<size_t>(a), PC, false);
}
void operator delete(void *p) noexcept
{
    do_free(p, PC);
}
void operator delete[](void *p) noexcept
{
    do_free(p, PC);
}
void operator delete(void *p, size_t) noexcept
{
    do_free(p, PC);
}
void operator delete[](void *p, size_t) noexcept
{
    do_free(p, PC);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    do_free(p, PC);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
    do_free(p, PC);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept
{
    do_free(p, PC);
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept
{
    do_free(p, PC);
}
