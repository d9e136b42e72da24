// kep3sim driver: generates, runs, replays scenarios.  One forked child per
// process incarnation; one pristine forked child per reference result.
#include "h.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <execinfo.h>
#include <sys/personality.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace h
{
u8 *g_shared = nullptr;
const char *uc_names[] = {"ops",        "results_compared", "rejected_calls", "bad_alloc_seen", "overlapping_ops",
                          "throwing_calls", "saves",        "loads_ok",       "loads_failed",   "torn_files",
                          "crashes",    "eio",              "enospc",         "short_io",       "syncs",
                          "queries",    "setters",          "model_compares", "leak_compares",  "refs",
                          "clock_reads", "clock_backward_steps", "udp_throws", "cache_misses", "cache_hits",
                          "two_object_archives", "burst_calls", "repeated_ops"};

static std::vector<Prop> &props()
{
    static std::vector<Prop> p;
    return p;
}
void add_prop(const Prop &p)
{
    props().push_back(p);
}
const Prop *find_prop(const std::string &s)
{
    for (auto &p : props()) {
        if (s == p.id) {
            return &p;
        }
    }
    return nullptr;
}
long Plan::param(const char *n, long d) const
{
    for (auto &kv : params) {
        if (kv.first == n) {
            return std::atol(kv.second.c_str());
        }
    }
    return d;
}
void Plan::set(const char *n, long v)
{
    for (auto &kv : params) {
        if (kv.first == n) {
            kv.second = std::to_string(v);
            return;
        }
    }
    params.emplace_back(n, std::to_string(v));
}
void Blob::raw(const void *p, std::size_t n)
{
    const u8 *q = static_cast<const u8 *>(p);
    b.insert(b.end(), q, q + n);
}
void Blob::tag(const char *s_)
{
    raw(s_, std::strlen(s_) + 1);
    if (txt.size() < 400) {
        txt += s_;
        txt += ' ';
    }
}
void Blob::d(double v)
{
    u64 x;
    std::memcpy(&x, &v, 8);
    if (v != v) {
        x = 0x7ff8000000000000ull;
    }
    raw(&x, 8);
    if (txt.size() < 400) {
        char t[40];
        std::snprintf(t, sizeof t, "%.17g ", v);
        txt += t;
    }
}
void Blob::u(u64 v)
{
    raw(&v, 8);
    if (txt.size() < 400) {
        txt += "#" + std::to_string(v) + " ";
    }
}
void Blob::s(const std::string &v)
{
    u64 n = v.size();
    raw(&n, 8);
    raw(v.data(), v.size());
    if (txt.size() < 400) {
        txt += '"';
        for (char c : v.substr(0, 120)) {
            txt += (c >= 32 && c < 127 && c != '"' && c != '\\') ? c : '?';
        }
        txt += "\" ";
    }
}
std::string hexd(double v)
{
    char t[48];
    std::snprintf(t, sizeof t, "%a", v);
    return t;
}
} // namespace h

using namespace h;

static std::string plan_text(const Plan &p, const sim::SchedEntry *tr, u32 ntr)
{
    std::ostringstream o;
    o << "kep3sim-plan 1\nprop " << p.prop << "\nseed " << p.seed << "\ngarbage " << p.garbage << "\n";
    o << "thr";
    for (u32 t : p.thr) {
        o << ' ' << t;
    }
    o << ' ' << p.stall_thr << ' ' << p.stall_max << "\n";
    for (auto &kv : p.params) {
        o << "param " << kv.first << ' ' << kv.second << "\n";
    }
    for (auto &op : p.ops) {
        o << "op " << op.thr << ' ' << kind_name(op.kind) << " fail=" << op.fail;
        if (op.rep != 1) {
            o << " rep=" << op.rep;
        }
        o << " I " << op.I.size();
        for (long v : op.I) {
            o << ' ' << v;
        }
        o << " D " << op.D.size();
        for (double v : op.D) {
            o << ' ' << hexd(v);
        }
        o << "\n";
    }
    if (tr) {
        o << "schedule\n";
        for (u32 i = 0; i < ntr; ++i) {
            o << "sched " << tr[i].inc << ' ' << tr[i].tid << ' ' << tr[i].target << ' ' << tr[i].step << ' ' << tr[i].stall << "\n";
        }
    }
    return o.str();
}

static bool parse_plan(const std::string &file, Plan &p)
{
    std::ifstream in(file);
    if (!in) {
        return false;
    }
    std::string line;
    std::getline(in, line);
    if (line.rfind("kep3sim-plan", 0) != 0) {
        return false;
    }
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string w;
        if (!(s >> w) || w[0] == '#') {
            continue;
        }
        if (w == "prop") {
            s >> p.prop;
        } else if (w == "seed") {
            s >> p.seed;
        } else if (w == "garbage") {
            s >> p.garbage;
        } else if (w == "thr") {
            for (u32 &t : p.thr) {
                s >> t;
            }
            s >> p.stall_thr >> p.stall_max;
        } else if (w == "param") {
            std::string a, b;
            s >> a >> b;
            p.params.emplace_back(a, b);
        } else if (w == "op") {
            Op op;
            std::string kn, f, x;
            std::size_t n;
            s >> op.thr >> kn >> f >> x;
            if (x.rfind("rep=", 0) == 0) {
                op.rep = static_cast<u32>(std::atol(x.c_str() + 4));
                s >> x;
            }
            s >> n;
            op.kind = kind_of(kn);
            if (op.kind < 0) {
                return false;
            }
            op.fail = static_cast<u32>(std::atol(f.c_str() + 5));
            for (std::size_t i = 0; i < n; ++i) {
                long v;
                s >> v;
                op.I.push_back(v);
            }
            s >> x >> n;
            for (std::size_t i = 0; i < n; ++i) {
                std::string v;
                s >> v;
                op.D.push_back(std::strtod(v.c_str(), nullptr));
            }
            p.ops.push_back(op);
        } else if (w == "schedule") {
            p.has_sched = true;
        } else if (w == "sched") {
            sim::SchedEntry e{};
            s >> e.inc >> e.tid >> e.target >> e.step >> e.stall;
            p.sched.push_back(e);
        }
    }
    return find_prop(p.prop) != nullptr;
}

struct Outcome {
    bool violated = false;
    std::string cls, msg;
};

static sim::Report *g_report;
static u8 *g_refarea;
constexpr std::size_t REF_SZ = 8u << 20;

static void term_handler()
{
    if (std::getenv("KEP3SIM_BT")) {
        void *bt[64];
        const int n = backtrace(bt, 64);
        backtrace_symbols_fd(bt, n, 2);
    }
    try {
        auto e = std::current_exception();
        if (e) {
            std::rethrow_exception(e);
        }
    } catch (const std::exception &e) {
        sim::violate("terminate", "std::terminate: uncaught %s", e.what());
    } catch (...) {
    }
    sim::violate("terminate", "std::terminate called");
}

struct ChildArg {
    const Plan *p;
    const Prop *pr;
    const std::vector<Blob> *refs;
    std::size_t i;
    int inc;
};
static void child_exec(void *a)
{
    auto *c = static_cast<ChildArg *>(a);
    c->pr->exec(*c->p, *c->refs, c->inc);
}
static void child_ref(void *a)
{
    auto *c = static_cast<ChildArg *>(a);
    Blob b;
    sim::paint_stack(99);
    c->pr->ref(*c->p, c->i, b);
    u64 n = b.b.size();
    if (n + 4096 > REF_SZ) {
        sim::violate("sim-error", "reference result too large");
    }
    std::memcpy(g_refarea, &n, 8);
    g_refarea[8] = b.is_exc;
    g_refarea[9] = b.is_bad_alloc;
    std::memcpy(g_refarea + 12, &b.nalloc, 4);
    std::memcpy(g_refarea + 16, b.b.data(), n);
    std::string t = b.txt.substr(0, 2000);
    std::memcpy(g_refarea + 16 + n, t.c_str(), t.size() + 1);
}

static void child_setup(unsigned secs)
{
    std::set_terminate(term_handler);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    sim::set_report(g_report);
    sim::heap_arena_on();
    // processor time, so that a machine that stalls is not mistaken for a library that hangs
    rl = {secs, secs + 10};
    setrlimit(RLIMIT_CPU, &rl);
    alarm(secs * 12);
}

static Outcome wait_child(pid_t pid, const char *what)
{
    Outcome o;
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (g_report->done == 2) {
        o.violated = true;
        o.cls = g_report->cls;
        o.msg = g_report->msg;
    } else if (WIFSIGNALED(st)) {
        o.violated = true;
        const int sg = WTERMSIG(st);
        o.cls = sg == SIGALRM || sg == SIGXCPU ? "hang" : std::string("crash:") + strsignal(sg);
        o.msg = std::string(what) + " process was killed by signal: " + strsignal(sg);
    } else if (g_report->done != 1) {
        o.violated = true;
        o.cls = "crash:exit";
        o.msg = std::string(what) + " process ended early with status " + std::to_string(WEXITSTATUS(st));
    }
    return o;
}

static std::map<std::string, Blob> g_refcache;
static u64 g_nref = 0;

static std::string ref_key(const Plan &p, std::size_t i)
{
    std::string k;
    auto add = [&](const Op &o) {
        k += std::to_string(o.kind) + ":";
        k.append(reinterpret_cast<const char *>(o.I.data()), o.I.size() * sizeof(long));
        k += '|';
        k.append(reinterpret_cast<const char *>(o.D.data()), o.D.size() * 8);
        k += ';';
    };
    for (auto &o : p.ops) {
        if (o.thr < 0) {
            add(o);
        }
    }
    add(p.ops[i]);
    return k;
}

// The process the library finds itself in: time zone and C++ locale are the application's choice.
namespace
{
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override
    {
        return ',';
    }
    char do_thousands_sep() const override
    {
        return '.';
    }
    std::string do_grouping() const override
    {
        return "\3";
    }
    std::string do_truename() const override
    {
        return "wahr";
    }
};
} // namespace
static std::locale *g_locale; // made, and its caches filled, before any fork
static void surroundings(u64 garbage, bool zone)
{
    static char zones[][32] = {"TZ=UTC", "TZ=AAA-5:30", "TZ=BBB9", "TZ=CCC-14", "TZ=DDD3EEE,M3.5.0,M10.5.0/3", "TZ=FFF-1GGG,M3.5.0,M10.5.0"};
    // (elsewhere epochs end up in texts that are compared, and the fmt installed here prints them in local time)
    putenv(zones[zone ? garbage / 7 % 6 : 0]);
    tzset();
    if (garbage / 11 % 3 == 0) {
        std::locale::global(*g_locale);
    }
}

static Outcome run_plan(const Plan &p)
{
    const Prop *pr = find_prop(p.prop);
    Outcome o;
    std::vector<Blob> refs(p.ops.size());
    if (pr->needs_ref) {
        for (std::size_t i = 0; i < p.ops.size(); ++i) {
            if (!pr->needs_ref(p, i)) {
                continue;
            }
            const std::string key = ref_key(p, i);
            auto it = g_refcache.find(key);
            if (it != g_refcache.end()) {
                refs[i] = it->second;
                continue;
            }
            g_nref++;
            std::memset(static_cast<void *>(g_report), 0, offsetof(sim::Report, trace));
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                child_setup(25);
                sim::Config c;
                c.seed = 1;
                c.garbage_seed = 0x5eed;
                sim::begin(c);
                ChildArg a{&p, pr, nullptr, i, 0};
                sim::run_main(child_ref, &a);
                g_report->done = 1;
                _exit(0);
            }
            o = wait_child(pid, "reference");
            if (o.violated) {
                o.msg = "in the single-threaded reference execution of op " + std::to_string(i) + ": " + o.msg;
                g_report->ntrace = 0;
                return o;
            }
            u64 n;
            std::memcpy(&n, g_refarea, 8);
            refs[i].b.assign(g_refarea + 16, g_refarea + 16 + n);
            refs[i].is_exc = g_refarea[8];
            refs[i].is_bad_alloc = g_refarea[9];
            std::memcpy(&refs[i].nalloc, g_refarea + 12, 4);
            refs[i].txt = reinterpret_cast<const char *>(g_refarea + 16 + n);
            if (g_refcache.size() > 2000) {
                g_refcache.clear();
            }
            g_refcache[key] = refs[i];
        }
    }
    std::memset(static_cast<void *>(g_report), 0, offsetof(sim::Report, trace));
    g_report->hash = 0xcbf29ce484222325ull;
    g_report->inter_hash = 0xcbf29ce484222325ull;
    g_report->nlog = 0;
    std::memset(g_shared, 0, 4096);
    const int ninc = pr->incarnations ? pr->incarnations(p) : 1;
    for (int inc = 0; inc < ninc; ++inc) {
        g_report->done = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(25);
            sim::Config c;
            c.seed = inc ? sim::mix(p.seed, static_cast<u64>(inc)) : p.seed;
            c.inc = static_cast<u32>(inc);
            c.garbage_seed = p.garbage + static_cast<u64>(inc) * 1000;
            c.ambient = true;
            surroundings(c.garbage_seed, p.prop == "C08");
            std::memcpy(c.thr, p.thr, sizeof c.thr);
            c.stall_thr = p.stall_thr;
            c.stall_max = p.stall_max;
            if (p.has_sched) {
                c.replay = true;
                c.script = p.sched.data();
                c.nscript = static_cast<u32>(p.sched.size());
            }
            sim::begin(c);
            ChildArg a{&p, pr, &refs, 0, inc};
            sim::run_main(child_exec, &a);
            g_report->done = 1;
            _exit(0);
        }
        o = wait_child(pid, "simulated");
        if (o.violated) {
            break;
        }
    }
    return o;
}

static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c > 126) {
            char t[8];
            std::snprintf(t, sizeof t, "\\u%04x", c);
            o += t;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

static u64 shash(const std::string &s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 0x100000001b3ull;
    }
    return h;
}

static Plan make_plan(const Prop *pr, u64 vseed, u64 i)
{
    Plan p;
    p.prop = pr->id;
    p.seed = sim::mix(sim::mix(vseed, shash(pr->id)), i);
    Rng r(p.seed);
    p.garbage = r.next() & 0xffffffu;
    auto pick = [&](std::initializer_list<double> l) {
        const double v = *(l.begin() + r.below(l.size()));
        return static_cast<u32>(v >= 1. ? 4294967295.0 : v * 4294967296.0);
    };
    p.thr[sim::K_READ] = pick({0., 1. / 4096, 1. / 512, 1. / 128, 1. / 32});
    p.thr[sim::K_WRITE] = pick({0., 1. / 2048, 1. / 256, 1. / 64, 1. / 16});
    p.thr[sim::K_GWRITE] = pick({0., 1. / 16, 1. / 4, 1. / 2});
    p.thr[sim::K_SYNC] = pick({0., 1. / 8, 1. / 3, 3. / 4});
    p.thr[sim::K_ALLOC] = pick({0., 1. / 256, 1. / 32, 1. / 8});
    p.thr[sim::K_OP] = pick({1. / 8, 1. / 3, 3. / 4});
    p.thr[sim::K_ATOMIC] = pick({1. / 64, 1. / 8, 1. / 2});
    p.stall_thr = pick({0., 0., 1. / 16, 1. / 4});
    p.stall_max = 1ull << (6 + r.below(10));
    pr->gen(p, r);
    return p;
}

static void put_outcome(FILE *f, const Outcome &o)
{
    std::fprintf(f,
                 "\"violated\":%s,\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"pcs\":[%llu,%llu],\"steps\":%llu,"
                 "\"ntrace\":%u,\"log\":\"%s\"",
                 o.violated ? "true" : "false", jesc(o.cls).c_str(), jesc(o.msg).c_str(),
                 static_cast<unsigned long long>(g_report->hash), static_cast<unsigned long long>(g_report->pcs[0]),
                 static_cast<unsigned long long>(g_report->pcs[1]), static_cast<unsigned long long>(g_report->steps),
                 g_report->ntrace, jesc(std::string(g_report->log, g_report->nlog)).c_str());
}

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

int main(int argc, char **argv)
{
    {
        // same addresses, same kernels, one BLAS thread: every run starts from the same state
        const char *e = std::getenv("OPENBLAS_NUM_THREADS");
        const int per = personality(0xffffffff);
        if (!e || std::strcmp(e, "1") != 0 || !(per & ADDR_NO_RANDOMIZE)) {
            if (std::getenv("KEP3SIM_REEXEC")) {
                std::fprintf(stderr, "kep3sim: cannot fix the process environment\n");
                return 97;
            }
            setenv("OPENBLAS_NUM_THREADS", "1", 1);
            setenv("TZ", "UTC", 1);
            setenv("LC_ALL", "C", 1);
            setenv("KEP3SIM_REEXEC", "1", 1);
            personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE);
            execv("/proc/self/exe", argv);
            return 97;
        }
    }
    auto shm = [](std::size_t n) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            std::exit(97);
        }
        return p;
    };
    g_report = static_cast<sim::Report *>(shm(sizeof(sim::Report)));
    g_refarea = static_cast<u8 *>(shm(REF_SZ));
    g_shared = static_cast<u8 *>(shm(SHARED_SZ));
    {
        // the standard library fills its locale caches on first use: do that before any fork
        std::stringstream ss;
        ss << std::setprecision(16) << 1.5 << ' ' << 12 << ' ' << 12ul << ' ' << true << ' ' << "x" << ' ' << std::hex << 255 << ' '
           << static_cast<const void *>(&ss) << std::endl;
        g_locale = new std::locale(std::locale::classic(), new Punct);
        {
            std::stringstream l;
            l.imbue(*g_locale);
            l << 1.5 << ' ' << 12 << ' ' << true;
            double x = 0;
            l >> x;
        }
        double d = 0;
        int i = 0;
        unsigned long u = 0;
        bool b = false;
        std::string w;
        ss >> d >> i >> u >> b >> w >> std::hex >> i;
        tzset();
        const time_t t0 = 0;
        struct tm tmb;
        localtime_r(&t0, &tmb);
        std::wstringstream ws;
        ws << 1.5 << L' ' << 12;
        ws >> d >> i;
    }
    if (argc < 2) {
        std::fprintf(stderr, "usage: kep3sim run|hash|plan|replay|research ...\n");
        return 2;
    }
    const std::string cmd = argv[1];
    auto arg = [&](int i) { return i < argc ? std::strtoull(argv[i], nullptr, 10) : 0ull; };
    if (cmd == "props") {
        for (auto &p : props()) {
            std::printf("%s\n", p.id);
        }
        return 0;
    }
    if (cmd == "plan") {
        const Prop *pr = find_prop(argv[2]);
        std::fputs(plan_text(make_plan(pr, arg(3), arg(4)), nullptr, 0).c_str(), stdout);
        return 0;
    }
    if (cmd == "replay") { // replay FILE [RECORD_TO]
        Plan p;
        if (!parse_plan(argv[2], p)) {
            std::fprintf(stderr, "cannot parse %s\n", argv[2]);
            return 3;
        }
        const Outcome o = run_plan(p);
        std::printf("{");
        put_outcome(stdout, o);
        std::printf("}\n");
        if (argc > 3) {
            std::ofstream f(argv[3]);
            f << plan_text(p, g_report->trace, g_report->ntrace);
        }
        return 0;
    }
    if (cmd == "research") { // research FILE NSEEDS CLASS OUT : look for a schedule showing the same class
        Plan p;
        if (!parse_plan(argv[2], p)) {
            return 3;
        }
        const u64 n = arg(3);
        for (u64 k = 0; k < n; ++k) {
            Plan q = p;
            if (k > 0) {
                q.seed = sim::mix(p.seed, k);
                q.has_sched = false;
                q.sched.clear();
            }
            const Outcome o = run_plan(q);
            if (o.violated && o.cls == argv[4]) {
                std::ofstream f(argv[5]);
                f << plan_text(q, g_report->trace, g_report->ntrace);
                std::printf("{");
                put_outcome(stdout, o);
                std::printf("}\n");
                return 0;
            }
        }
        std::printf("{\"violated\":false}\n");
        return 0;
    }
    if (cmd == "hash") { // hash PROP SEED FIRST STRIDE COUNT
        const Prop *pr = find_prop(argv[2]);
        for (u64 k = 0; k < arg(6); ++k) {
            const u64 i = arg(4) + k * arg(5);
            const Plan p = make_plan(pr, arg(3), i);
            const Outcome o = run_plan(p);
            std::printf("%llu %016llx %016llx %llu %s\n", static_cast<unsigned long long>(i),
                        static_cast<unsigned long long>(g_report->hash),
                        static_cast<unsigned long long>(g_report->inter_hash),
                        static_cast<unsigned long long>(g_report->steps), o.violated ? o.cls.c_str() : "ok");
        }
        return 0;
    }
    if (cmd == "run") { // run PROP SEED FIRST STRIDE COUNT SECS OUTDIR MAXVIOL
        const Prop *pr = find_prop(argv[2]);
        if (!pr) {
            return 3;
        }
        const u64 vseed = arg(3), first = arg(4), stride = arg(5), cnt = arg(6);
        const double secs = std::atof(argv[7]);
        const std::string out = argv[8];
        const u64 maxv = arg(9);
        {
            const long nc = sysconf(_SC_NPROCESSORS_ONLN);
            cpu_set_t cs;
            cpu_set_t avail;
            if (nc > 0 && sched_getaffinity(0, sizeof avail, &avail) == 0) {
                std::vector<int> ok;
                for (int c = 0; c < CPU_SETSIZE; ++c) {
                    if (CPU_ISSET(c, &avail)) {
                        ok.push_back(c);
                    }
                }
                CPU_ZERO(&cs);
                CPU_SET(ok[first % ok.size()], &cs);
                sched_setaffinity(0, sizeof cs, &cs);
            }
        }
        const double t0 = now();
        u64 runs = 0, viol = 0, nontriv = 0, steps = 0, sw = 0, simus = 0, allocs = 0;
        u64 faults[5] = {}, sync[4] = {}, kinds[sim::K_N] = {}, uc[64] = {}, maxthreads = 0, maxsteps = 0, reused = 0;
        std::set<u64> inter;
        std::map<std::string, u64> opk;
        std::vector<std::string> samples;
        for (u64 k = 0; k < cnt && now() - t0 < secs; ++k) {
            const u64 i = first + k * stride;
            const Plan p = make_plan(pr, vseed, i);
            const Outcome o = run_plan(p);
            runs++;
            for (auto &op : p.ops) {
                opk[kind_name(op.kind)]++;
            }
            steps += g_report->steps;
            maxsteps = std::max<u64>(maxsteps, g_report->steps);
            reused += g_report->heap_reused;
            sw += g_report->switches;
            allocs += g_report->allocs;
            simus += g_report->sim_time_us > 1'700'000'000'000'000ull ? g_report->sim_time_us - 1'700'000'000'000'000ull : 0;
            faults[0] += g_report->fault_preempt;
            faults[1] += g_report->fault_stall;
            faults[2] += g_report->fault_alloc_fired;
            faults[3] += g_report->fault_spurious;
            faults[4] += g_report->fault_clock;
            sync[0] += g_report->lock_acq;
            sync[1] += g_report->lock_contended;
            sync[2] += g_report->guard_inits;
            sync[3] += g_report->guard_waits;
            maxthreads = std::max<u64>(maxthreads, g_report->threads);
            for (int q = 0; q < sim::K_N; ++q) {
                kinds[q] += g_report->kinds[q];
            }
            for (int q = 0; q < 64; ++q) {
                uc[q] += g_report->user[q];
            }
            const bool nt = g_report->fault_preempt + g_report->fault_alloc_fired + g_report->user[UC_REJECTED]
                                + g_report->user[UC_CRASH] + g_report->user[UC_EIO] + g_report->user[UC_ENOSPC]
                                + g_report->user[UC_TORN] + g_report->user[UC_CLOCKBACK] + g_report->user[UC_UDPTHROW]
                                + g_report->user[UC_THROW]
                            > 0;
            if (nt && inter.insert(sim::mix(g_report->inter_hash, g_report->hash)).second) {
                nontriv++;
            }
            if (samples.size() < 2 && nt) {
                std::string s = plan_text(p, g_report->trace, std::min<u32>(g_report->ntrace, 6));
                samples.push_back("{\"run\":" + std::to_string(i) + ",\"steps\":" + std::to_string(g_report->steps)
                                  + ",\"switches\":" + std::to_string(g_report->switches) + ",\"plan\":\""
                                  + jesc(s.substr(0, 1800)) + "\",\"log\":\""
                                  + jesc(std::string(g_report->log, std::min<u32>(g_report->nlog, 600))) + "\"}");
            }
            if (o.violated) {
                viol++;
                const std::string f = out + "/v_" + std::to_string(first) + "_" + std::to_string(viol) + ".plan";
                std::ofstream fs(f);
                fs << plan_text(p, g_report->trace, g_report->ntrace);
                fs.close();
                std::printf("{\"violation\":{\"run\":%llu,\"file\":\"%s\",", static_cast<unsigned long long>(i),
                            jesc(f).c_str());
                put_outcome(stdout, o);
                std::printf("}}\n");
                fflush(stdout);
                if (viol >= maxv || o.cls == "hang") {
                    break;
                }
            }
        }
        std::printf("{\"stats\":{\"runs\":%llu,\"violations\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,"
                    "\"allocs\":%llu,\"sim_us\":%llu,\"refs\":%llu,\"secs\":%.3f,\"max_threads\":%llu,\"max_run_steps\":%llu,\"heap_reused\":%llu",
                    (unsigned long long)runs, (unsigned long long)viol, (unsigned long long)nontriv,
                    (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)allocs,
                    (unsigned long long)simus, (unsigned long long)g_nref, now() - t0, (unsigned long long)maxthreads,
                    (unsigned long long)maxsteps, (unsigned long long)reused);
        std::printf(",\"faults\":{\"preemption\":%llu,\"stalled_thread\":%llu,\"failed_allocation\":%llu,"
                    "\"spurious_wakeup\":%llu,\"clock_jump\":%llu}",
                    (unsigned long long)faults[0], (unsigned long long)faults[1], (unsigned long long)faults[2],
                    (unsigned long long)faults[3], (unsigned long long)faults[4]);
        std::printf(",\"sync\":{\"lock_acquisitions\":%llu,\"lock_contended\":%llu,\"static_inits\":%llu,"
                    "\"static_init_waits\":%llu}",
                    (unsigned long long)sync[0], (unsigned long long)sync[1], (unsigned long long)sync[2],
                    (unsigned long long)sync[3]);
        static const char *kn[] = {"read", "write", "global_write", "sync", "alloc", "op_boundary", "atomic"};
        std::printf(",\"step_kinds\":{");
        for (int q = 0; q < sim::K_N; ++q) {
            std::printf("%s\"%s\":%llu", q ? "," : "", kn[q], (unsigned long long)kinds[q]);
        }
        std::printf("},\"counters\":{");
        for (int q = 0; q < UC_N; ++q) {
            std::printf("%s\"%s\":%llu", q ? "," : "", uc_names[q], (unsigned long long)uc[q]);
        }
        std::printf("},\"ops\":{");
        bool fst = true;
        for (auto &kv : opk) {
            std::printf("%s\"%s\":%llu", fst ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second);
            fst = false;
        }
        std::printf("},\"samples\":[");
        for (std::size_t q = 0; q < samples.size(); ++q) {
            std::printf("%s%s", q ? "," : "", samples[q].c_str());
        }
        std::printf("]}}\n");
        const std::string f = out + "/inter_" + std::to_string(first);
        FILE *fo = std::fopen(f.c_str(), "wb");
        if (fo) {
            for (u64 v : inter) {
                std::fwrite(&v, 8, 1, fo);
            }
            std::fclose(fo);
        }
        return 0;
    }
    std::fprintf(stderr, "unknown command %s\n", cmd.c_str());
    return 2;
}
