// Epochs: histories against an integer model, clock readings, storage.
// Instrumented.
#include "epoch_ops.hpp"
#include "objs_base.hpp"
#include "scen.hpp"
#include <ctime>

#include <fmt/core.h>
#include <array>
#include <chrono>
#include <map>
#include <sstream>

#include <kep3/epoch.hpp>

namespace h
{
namespace
{
using i64 = std::int64_t;
constexpr i64 Y2K = 946684800000000;      // microseconds, 2000-01-01 after 1970-01-01
constexpr i64 DAY = 86400000000;
constexpr i64 MJD0 = 51544;   // days from 1858-11-17 to 2000-01-01
constexpr double JD0 = 2451544.5;

// days from 1970-01-01, proleptic Gregorian calendar (textbook algorithm)
i64 civil_days(i64 y, i64 m, i64 d)
{
    i64 n = 0;
    // whole years
    auto leap = [](i64 v) { return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; };
    if (y >= 1970) {
        for (i64 k = 1970; k < y; ++k) {
            n += leap(k) ? 366 : 365;
        }
    } else {
        for (i64 k = y; k < 1970; ++k) {
            n -= leap(k) ? 366 : 365;
        }
    }
    const i64 ml[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (i64 k = 1; k < m; ++k) {
        n += ml[k - 1];
    }
    return n + d - 1;
}
std::string civil_str(i64 sec) // YYYY-MM-DDTHH:MM:SS
{
    i64 days = sec / 86400, rest = sec % 86400;
    if (rest < 0) {
        rest += 86400;
        --days;
    }
    i64 y = 1970 + days / 366 - 2;
    while (civil_days(y + 1, 1, 1) <= days) {
        ++y;
    }
    while (civil_days(y, 1, 1) > days) {
        --y;
    }
    i64 m = 12;
    while (civil_days(y, m, 1) > days) {
        --m;
    }
    const i64 d = days - civil_days(y, m, 1) + 1;
    char t[64];
    std::snprintf(t, sizeof t, "%04lld-%02lld-%02lldT%02lld:%02lld:%02lld", static_cast<long long>(y), static_cast<long long>(m),
                  static_cast<long long>(d), static_cast<long long>(rest / 3600), static_cast<long long>(rest / 60 % 60),
                  static_cast<long long>(rest % 60));
    return t;
}
i64 floordiv(i64 a, i64 b)
{
    return a / b - (a % b < 0);
}
bool print_ok(i64 us, const std::string &s)
{
    if (s.size() != 19 && s.size() != 26) {
        return false;
    }
    const i64 sec = floordiv(us, 1000000), frac = us - sec * 1000000;
    if (s.size() == 26) {
        char t[16];
        std::snprintf(t, sizeof t, ".%06lld", static_cast<long long>(frac));
        if (s.substr(19) != t) {
            return false;
        }
        return s.substr(0, 19) == civil_str(sec);
    }
    // without a sub-second part, both roundings of a time before 1970 are seen
    // (some versions of fmt truncate towards 1970)
    const bool up = us < 0 && frac != 0;
    if (s == civil_str(sec) || (up && s == civil_str(sec + 1))) {
        return true;
    }
    // before version 10, which kep3's build asks for, fmt prints a time point in local time
    for (i64 t = sec; FMT_VERSION < 100000 && t <= sec + up; ++t) {
        const std::time_t tt = static_cast<std::time_t>(t);
        std::tm tm{};
        if (localtime_r(&tt, &tm) && s == civil_str(t + tm.tm_gmtoff)) {
            return true;
        }
    }
    return false;
}

struct Slot {
    std::unique_ptr<kep3::epoch> e;
    i64 m = 0;
};
struct Ctx {
    const Plan *p;
    std::map<int, std::map<long, Slot>> slots;
    std::map<long, Slot> shared;
};

std::string iso(const Op &op)
{
    char t[64];
    std::snprintf(t, sizeof t, "%04ld-%02ld-%02ldT%02ld:%02ld:%02ld.%06ld", op.I[2], op.I[3], op.I[4], op.I[5], op.I[6], op.I[7], op.I[8]);
    std::string s = t;
    const long len = op.I[9], bad = op.I[10];
    s = s.substr(0, static_cast<std::size_t>(len));
    if (bad == 1 && s.size() > 6) {
        s[5] = 'x'; // not a number
    } else if (bad == 2) {
        s += "0000000"; // no such length
        s.resize(27);
    }
    return s;
}
// does the model accept the ISO string, and as what
bool iso_model(const Op &op, i64 &us)
{
    const long len = op.I[9], bad = op.I[10];
    if (bad || (len != 7 && len != 10 && len != 13 && len != 16 && len != 19 && (len < 21 || len > 26))) {
        return false;
    }
    const long mon = op.I[3], d = len >= 10 ? op.I[4] : 1;
    if (mon < 1 || mon > 12 || d < 1 || d > 31) {
        return false;
    }
    us = civil_days(op.I[2], mon, d) * DAY;
    us += len >= 13 ? op.I[5] * 3600000000 : 0;
    us += len >= 16 ? op.I[6] * 60000000 : 0;
    us += len >= 19 ? op.I[7] * 1000000 : 0;
    if (len >= 21) {
        i64 f = op.I[8], cut = 1;
        for (long k = len; k < 26; ++k) {
            cut *= 10;
        }
        us += f / cut * cut;
    }
    return true;
}
template <typename F>
void with_unit(long unit, long n, F f)
{
    using namespace std::chrono;
    switch (unit) {
        case 0:
            f(kep3::microseconds(n));
            break;
        case 1:
            f(milliseconds(n));
            break;
        case 2:
            f(seconds(n));
            break;
        case 3:
            f(duration<int, std::ratio<60>>(static_cast<int>(n)));
            break;
        case 4:
            f(hours(n));
            break;
        case 5:
            f(duration<int, std::ratio<86400>>(static_cast<int>(n)));
            break;
        case 6: // days as a floating point number, exact in binary
            f(kep3::epoch::days(static_cast<double>(n) / 1024.));
            break;
        case 7:
            f(kep3::epoch::sec(static_cast<double>(n) / 64.));
            break;
        default:
            f(duration<double, std::ratio<86400>>(static_cast<double>(n) / 1024.));
    }
}
i64 unit_model(long unit, long n)
{
    static const i64 u[] = {1, 1000, 1000000, 60000000, 3600000000, DAY, DAY / 1024, 1000000 / 64, DAY / 1024};
    return u[unit] * n;
}

[[noreturn]] void bad(const char *cls, const Ctx *c, std::size_t i, const char *what, const std::string &want, const std::string &got)
{
    const Op &op = c->p->ops[i];
    sim::violate(cls, "op %zu (%s %ld, thread %d): %s: expected %s, observed %s", i, kind_name(op.kind),
                 op.I.size() > 1 ? op.I[1] : -1, op.thr, what, want.c_str(), got.c_str());
}
i64 us_of(const kep3::epoch &e)
{
    InLib l;
    return e.get_tp().time_since_epoch().count();
}
void check(Ctx *c, std::size_t i, const Slot &s, const char *what)
{
    const i64 g = us_of(*s.e);
    count(UC_MODELCMP);
    sim::hash_bytes(&g, 8);
    if (g != s.m) {
        bad("state-mismatch", c, i, what, std::to_string(s.m), std::to_string(g));
    }
}
void near(Ctx *c, std::size_t i, const char *what, double want, double got)
{
    sim::hash_bytes(&got, 8);
    count(UC_COMPARED);
    if (!(std::fabs(want - got) <= 2e-15 * (std::fabs(want) + 100.))) {
        bad("result-mismatch", c, i, what, hexd(want), hexd(got));
    }
}

// read-only questions, on private and shared epochs alike
void read(Ctx *c, std::size_t i, const Slot &a, const Slot &b, long sub, long how)
{
    const kep3::epoch &x = *a.e, &y = *b.e;
    count(UC_QUERY);
    switch (sub) {
        case ES_DIFF: {
            i64 d;
            {
                InLib l;
                d = (x - y).count();
            }
            count(UC_COMPARED);
            if (d != a.m - b.m) {
                bad("result-mismatch", c, i, "difference of two epochs", std::to_string(a.m - b.m), std::to_string(d));
            }
            break;
        }
        case ES_CMP: {
            int g;
            {
                InLib l;
                g = (x < y) | (x > y) << 1 | (x <= y) << 2 | (x >= y) << 3 | (x == y) << 4 | (x != y) << 5;
            }
            const int w = (a.m < b.m) | (a.m > b.m) << 1 | (a.m <= b.m) << 2 | (a.m >= b.m) << 3 | (a.m == b.m) << 4 | (a.m != b.m) << 5;
            count(UC_COMPARED);
            if (g != w) {
                bad("result-mismatch", c, i, "comparisons of two epochs", std::to_string(w), std::to_string(g));
            }
            break;
        }
        case ES_JD: {
            double j, mj, mj2;
            {
                InLib l;
                j = x.jd();
                mj = x.mjd();
                mj2 = x.mjd2000();
            }
            const i64 d = floordiv(a.m - Y2K, DAY);
            const double f = static_cast<double>(a.m - Y2K - d * DAY) / static_cast<double>(DAY);
            near(c, i, "mjd2000()", static_cast<double>(d) + f, mj2);
            near(c, i, "mjd()", static_cast<double>(d + MJD0) + f, mj);
            near(c, i, "jd()", static_cast<double>(d) + JD0 + f, j);
            break;
        }
        case ES_PRINT: {
            std::string s;
            bool oom = false;
            const Op &op = c->p->ops[i];
            const bool fail = op.fail && how % 3 == 0; // streams swallow exceptions
            if (fail) {
                sim::arm_alloc(fail_at(op, Blob{}));
            }
            try {
                if (how >= 3) { // first to a stream that breaks down
                    Blob x0;
                    print_full(x, x0, static_cast<std::size_t>(how / 3 * 7 - 7), how & 1);
                }
                InLib l;
                if (how % 3 == 0) {
                    s = x.as_utc_string();
                } else if (how % 3 == 1) {
                    std::ostringstream o;
                    o.imbue(std::locale::classic());
                    o << x;
                    s = o.str();
                } else {
                    s = kep3::epoch::as_utc_string(x.get_tp());
                }
            } catch (const std::bad_alloc &) {
                oom = true;
            }
            const bool fired = fail && sim::alloc_fired();
            sim::arm_alloc(0);
            if (oom) {
                count(UC_BADALLOC);
                if (!fired) {
                    bad("spurious-bad-alloc", c, i, "printing", "a string", "std::bad_alloc");
                }
                break;
            }
            count(UC_COMPARED);
            sim::hash_bytes(s.data(), s.size());
            // years outside this range are printed with other widths
            const i64 y = a.m / DAY / 365;
            if (y > -260 && y < 270 && !print_ok(a.m, s)) {
                bad("result-mismatch", c, i, "printed epoch", civil_str(floordiv(a.m, 1000000)) + " + " + std::to_string(a.m - floordiv(a.m, 1000000) * 1000000) + " us", s);
            }
            break;
        }
        default:
            break;
    }
}

int g_busy = 0;
struct Busy {
    Busy()
    {
        if (g_busy++) {
            count(UC_OVERLAP);
        }
    }
    ~Busy()
    {
        --g_busy;
    }
};

bool valid(long unit, long n, i64 base)
{
    const i64 d = unit_model(unit, n);
    return base + d < 8000000000000000 && base + d > -8000000000000000 && base - d < 8000000000000000 && base - d > -8000000000000000;
}

void step(void *a, std::size_t i)
{
    auto *c = static_cast<Ctx *>(a);
    const Op &op = c->p->ops[i];
    auto &slots = c->slots[op.thr];
    count(UC_OPS);
    Busy busy;
    if (op.kind == K_CLOCK) {
        if (op.I[0] < 0) {
            count(UC_CLOCKBACK);
        }
        sim::clock_jump_us(op.I[0]);
        return;
    }
    if (op.kind == K_EPOCH_SHARED) {
        const auto x = c->shared.find(op.I[0]), y = c->shared.find(op.I[2]);
        if (x != c->shared.end() && y != c->shared.end()) {
            read(c, i, x->second, y->second, op.I[1], op.I[3]);
            check(c, i, x->second, "a shared epoch that was only read");
        }
        return;
    }
    const long s = op.I[0];
    if (op.kind == K_EPOCH_NOW) {
        Slot n;
        std::int64_t log[16];
        sim::clock_log_reset();
        {
            InLib l;
            n.e = std::make_unique<kep3::epoch>(kep3::epoch::now());
        }
        const u32 k = sim::clock_log(log);
        count(UC_CLOCKREAD, k);
        const i64 g = us_of(*n.e);
        sim::hash_bytes(&g, 8);
        count(UC_COMPARED);
        bool ok = false;
        for (u32 j = 0; j < k; ++j) {
            ok |= g == log[j] || (log[j] < 0 && g == log[j] + 1);
        }
        if (!ok) {
            bad("clock-mismatch", c, i, "epoch::now(), compared with the readings of the clock made by this call",
                k ? std::to_string(log[k - 1]) : std::string("at least one reading"), std::to_string(g));
        }
        n.m = g;
        slots[s] = std::move(n);
        return;
    }
    const long sub = op.I[1];
    Slot n;
    bool ok = true, made = true;
    auto src = [&](long k) -> Slot * {
        auto it = slots.find(k);
        return it == slots.end() ? nullptr : &it->second;
    };
    Slot *self = src(s);
    bool oom = false, rejected = false;
    const bool fail = op.fail && (sub == ES_STR || sub == ES_DAYS || sub == ES_CAL);
    // inputs of the call are prepared outside the library
    std::string str;
    switch (sub) {
        case ES_DAYS: {
            ok = op.I[2] >= 0 && op.I[2] <= 2;
            const i64 us = static_cast<i64>(op.D[0] * 1024.) * (DAY / 1024);
            n.m = us + Y2K - (op.I[2] == 1 ? MJD0 * DAY : op.I[2] == 2 ? static_cast<i64>(JD0 * 2) * (DAY / 2) : 0);
            break;
        }
        case ES_CAL:
            ok = op.I[3] >= 1 && op.I[3] <= 12 && op.I[4] >= 1 && op.I[4] <= 31 && op.I[2] > -32768 && op.I[2] < 32768;
            if (ok) {
                n.m = civil_days(op.I[2], op.I[3], op.I[4]) * DAY + op.I[5] * 3600000000 + op.I[6] * 60000000 + op.I[7] * 1000000 + op.I[8] * 1000 + op.I[9];
            }
            break;
        case ES_STR:
            ok = iso_model(op, n.m);
            str = iso(op);
            break;
        case ES_TP:
            n.m = op.I[2];
            break;
        case ES_DEFAULT:
            n.m = Y2K;
            break;
        case ES_ADD:
        case ES_SUB:
            if (!self || !valid(op.I[2], op.I[3], self->m)) {
                return;
            }
            made = false;
            {
                InLib l;
                with_unit(op.I[2], op.I[3], [&](const auto &d) { sub == ES_ADD ? *self->e += d : *self->e -= d; });
            }
            self->m += unit_model(op.I[2], op.I[3]) * (sub == ES_ADD ? 1 : -1);
            count(UC_SETTER);
            break;
        case ES_PLUS:
        case ES_MINUS: {
            Slot *o = src(op.I[4]);
            if (!o || !valid(op.I[2], op.I[3], o->m)) {
                return;
            }
            InLib l;
            with_unit(op.I[2], op.I[3], [&](const auto &d) {
                n.e = sub == ES_PLUS ? std::make_unique<kep3::epoch>(*o->e + d) : std::make_unique<kep3::epoch>(*o->e - d);
            });
            n.m = o->m + unit_model(op.I[2], op.I[3]) * (sub == ES_PLUS ? 1 : -1);
            break;
        }
        case ES_COPY: {
            Slot *o = src(op.I[2]);
            if (!o) {
                return;
            }
            InLib l;
            if (op.I[3] && self) {
                *self->e = *o->e;
                self->m = o->m;
                made = false;
            } else {
                n.e = std::make_unique<kep3::epoch>(*o->e);
                n.m = o->m;
            }
            break;
        }
        default: {
            Slot *o = src(op.I[2]);
            if (!self || !o) {
                return;
            }
            read(c, i, *self, *o, sub, op.I[3]);
            made = false;
        }
    }
    if (sub <= ES_TP) {
        if (fail) {
            sim::arm_alloc(fail_at(op, Blob{}));
        }
        try {
            InLib l;
            switch (sub) {
                case ES_DEFAULT:
                    n.e = std::make_unique<kep3::epoch>();
                    break;
                case ES_DAYS:
                    n.e = std::make_unique<kep3::epoch>(op.D[0], static_cast<kep3::epoch::julian_type>(op.I[2]));
                    break;
                case ES_CAL:
                    n.e = std::make_unique<kep3::epoch>(static_cast<int>(op.I[2]), static_cast<unsigned>(op.I[3]), static_cast<unsigned>(op.I[4]),
                                                        static_cast<std::int32_t>(op.I[5]), static_cast<std::int32_t>(op.I[6]),
                                                        static_cast<std::int32_t>(op.I[7]), static_cast<std::int32_t>(op.I[8]),
                                                        static_cast<std::int32_t>(op.I[9]));
                    break;
                case ES_STR:
                    n.e = std::make_unique<kep3::epoch>(str);
                    break;
                default:
                    n.e = std::make_unique<kep3::epoch>(kep3::time_point(kep3::microseconds(op.I[2])));
            }
        } catch (const std::bad_alloc &) {
            oom = true;
        } catch (const std::exception &) {
            rejected = true;
        }
        const bool fired = fail && sim::alloc_fired();
        sim::arm_alloc(0);
        if (oom) {
            count(UC_BADALLOC);
            if (!fired) {
                bad("spurious-bad-alloc", c, i, "constructor", "an epoch", "std::bad_alloc");
            }
        } else if (rejected != !ok) {
            bad(rejected ? "rejected-valid" : "accepted-invalid", c, i, str.empty() ? "constructor" : str.c_str(), ok ? "accepted" : "rejected",
                rejected ? "rejected" : "accepted");
        }
        if (rejected) {
            count(UC_REJECTED);
        }
        if (oom || rejected) {
            made = false;
        }
    }
    if (made) {
        slots[s] = std::move(n);
    }
    for (auto &kv : slots) {
        check(c, i, kv.second, kv.first == s ? "epoch after the operation" : "another epoch after the operation");
    }
}

struct EpochObj final : ObjOf<kep3::epoch> {
    long nq() const override
    {
        return 3;
    }
    bool q_may_fail_alloc(long) const override
    {
        return false;
    }
    void obs(Blob &b, long w) const override
    {
        InLib l;
        switch (w % 3) {
            case 0:
                b.u(static_cast<u64>(p->get_tp().time_since_epoch().count()));
                break;
            case 1:
                b.d(p->jd());
                b.d(p->mjd2000());
                break;
            default:
                b.s(p->as_utc_string());
        }
    }
    void obs_all(Blob &b) const override
    {
        for (long w = 0; w < 3; ++w) {
            obs(b, w);
        }
    }
    void mutate(long seed) override
    {
        InLib l;
        *p += kep3::epoch::days(static_cast<double>(seed) / 8.);
    }
};
std::unique_ptr<Obj> mk_epoch(const Op &op)
{
    auto o = std::make_unique<EpochObj>();
    InLib l;
    o->p = std::make_unique<kep3::epoch>(kep3::time_point(kep3::microseconds(op.I[0])));
    return o;
}
struct Reg {
    Reg()
    {
        add_obj_kind(K_OBJ_EPOCH, mk_epoch);
    }
} reg;
} // namespace

void epoch_exec(const Plan &p, const std::vector<Blob> &, int)
{
    sim::paint_stack(p.garbage);
    Ctx c;
    c.p = &p;
    for (int t = 0; t < 101; ++t) {
        c.slots[t];
    }
    sim::clock_set_us(static_cast<u64>(p.param("clock", 1700000000000000)));
    std::vector<i64> deltas;
    Rng r(static_cast<u64>(p.param("clkseed", 0)));
    if (p.param("clkseed", 0)) {
        for (int i = 0; i < 64; ++i) {
            const u64 k = r.below(6);
            deltas.push_back(k == 0 ? -static_cast<i64>(r.below(4000000)) : k == 1 ? static_cast<i64>(r.below(4000000)) : k == 2 ? -1 : static_cast<i64>(r.below(3)));
            if (deltas.back() < 0) {
                count(UC_CLOCKBACK);
            }
        }
        sim::set_clock_script(deltas.data(), static_cast<u32>(deltas.size()));
    }
    // shared epochs
    long k = 0;
    for (auto &op : p.ops) {
        if (op.thr < 0) {
            Slot s;
            s.m = op.I[0];
            InLib l;
            s.e = std::make_unique<kep3::epoch>(kep3::time_point(kep3::microseconds(op.I[0])));
            c.shared[k++] = std::move(s);
        }
    }
    each(p, 0, step, &c);
    run_workers(p, 0, p.ops.size(), step, &c);
    each(p, 100, step, &c);
}
} // namespace h
