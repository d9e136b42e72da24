// Plan generation shared by several properties.
#include "gen.hpp"
#include <algorithm>
#include <cmath>
#include "simdisk.hpp"

namespace h
{
void count(int c, u64 n) // in an uninstrumented file: library code may be running around the caller
{
    sim::report()->user[c] += n;
}
u32 a_fail(Rng &r)
{
    const u64 w = r.below(10);
    return w < 5 ? 1 + static_cast<u32>(r.below(4))
           : w < 7 ? 1 + static_cast<u32>(r.below(60))
                   : FAIL_REL + static_cast<u32>(r.chance(0.3) ? r.below(4) : r.below(1u << 24));
}
void add_fails(Plan &p, Rng &r)
{
    if (!r.chance(0.25)) {
        return;
    }
    p.set("alloc_faults", 1);
    for (auto &o : p.ops) {
        if (o.thr >= 0 && r.chance(0.3)) {
            o.fail = a_fail(r);
        }
    }
}
void echo(Plan &p, Rng &r, bool nudged)
{
    if (!r.chance(0.3)) {
        return;
    }
    const double pe = r.range(0.05, 0.6);
    const bool far = r.chance(0.5);
    for (std::size_t i = 1; i < p.ops.size(); ++i) {
        Op &o = p.ops[i];
        if (o.thr < 0 || !r.chance(pe)) {
            continue;
        }
        const std::size_t j = far ? r.below(i) : i - 1;
        const Op &q = p.ops[j];
        if (q.thr != o.thr || q.kind == K_CRASH) {
            continue;
        }
        o = q;
        if (r.chance(0.3)) {
            o.fail = 0;
        }
        if (nudged && !o.D.empty() && r.chance(0.25)) {
            double &d = o.D[r.below(o.D.size())];
            d = close_to(r, d);
        }
    }
}
void ages(Plan &p, Rng &r, unsigned most)
{
    if (!r.chance(0.06)) {
        return;
    }
    std::vector<std::size_t> v;
    u64 n[2] = {0, 0};
    for (std::size_t i = 0; i < p.ops.size(); ++i) {
        const int t = p.ops[i].thr;
        if (t >= 0 && p.ops[i].kind != K_CRASH && p.ops[i].kind != K_BURST) {
            v.push_back(i);
            n[t > 0 && t < 100]++;
        }
    }
    if (v.empty()) {
        return;
    }
    const u64 total = 2ull << r.below(most);
    if (r.chance(0.6)) { // addresses are reused
        p.garbage -= p.garbage % 5;
        p.garbage += 3;
    }
    if (r.chance(0.5)) {
        for (u64 k = 0, m = 1 + (r.chance(0.3) ? r.below(4) : 0); k < m; ++k) {
            p.ops[v[r.below(v.size())]].rep = static_cast<u32>(1 + total / m);
        }
    } else {
        if (n[0] && (!n[1] || r.chance(0.7))) {
            p.set("cycles", 1 + static_cast<long>(total / n[0]));
        }
        if (n[1] && r.chance(0.5)) {
            p.set("worker_cycles", 1 + static_cast<long>(total / n[1]));
        }
    }
}
double close_to(Rng &r, double d)
{
    switch (r.below(4)) {
        case 0:
            return std::nextafter(d, r.chance(0.5) ? HUGE_VAL : -HUGE_VAL);
        case 1:
            return d * (1 + std::pow(10., -r.range(4., 15.)));
        default:
            return d * (1 - std::pow(10., -r.range(4., 15.)));
    }
}
Op query(long obj, long which, int thr)
{
    Op o;
    o.kind = K_QUERY;
    o.I = {obj, which};
    o.thr = thr;
    return o;
}

long chunk(Rng &r)
{
    static const long c[] = {1, 2, 7, 13, 64, 512, 4096, 65536};
    return c[r.below(8)];
}
void gen_storage(Plan &p, Rng &r, void (*defs)(Plan &, Rng &, u64), bool load_faults, u64 size)
{
    const u64 nd = 1 + r.below(4);
    defs(p, r, nd);
    for (auto &o : p.ops) { // faults reach the end of a long archive too
        size = std::max<u64>(size, r.chance(0.5) ? o.D.size() * 9 : 0);
    }
    const u64 nfile = 1 + r.below(4);
    const int ninc = load_faults ? (r.chance(0.2) ? 2 : 1) : 1 + static_cast<int>(r.below(3));
    const bool wfaults = r.chance(load_faults ? 0.1 : 0.5);
    const bool oom = r.chance(0.35);
    auto save = [&](int thr, long file) {
        Op o;
        o.kind = K_SAVE;
        o.thr = thr;
        long f = DF_NONE;
        if (wfaults && r.chance(0.4)) {
            f = 1 + static_cast<long>(r.below(DF_N - 1));
        }
        o.I = {static_cast<long>(r.below(nd)), file, chunk(r), f,
               static_cast<long>(r.chance(0.3) ? r.below(100) : r.below(size)), r.chance(0.7), static_cast<long>(r.next() >> 33)};
        if (r.chance(0.25)) { // a second object in the same archive
            o.I.push_back(1 + static_cast<long>(r.below(nd)));
        }
        if (oom && r.chance(0.15)) {
            o.fail = 1 + static_cast<u32>(r.below(40));
        }
        p.ops.push_back(o);
    };
    auto load = [&](int thr, long file) {
        Op o;
        o.kind = K_LOAD;
        o.thr = thr;
        long f = RF_NONE;
        if (load_faults && r.chance(0.6)) {
            f = 1 + static_cast<long>(r.below(RF_N - 1));
        }
        o.I = {file, static_cast<long>(r.below(nd)), chunk(r), f,
               static_cast<long>(r.chance(0.15) ? r.below(60) : r.below(size)), chunk(r), static_cast<long>(r.below(40))};
        if (load_faults && oom && r.chance(0.5)) {
            o.fail = 1 + static_cast<u32>(r.chance(0.5) ? r.below(12) : r.below(50));
        }
        p.ops.push_back(o);
    };
    // every thread writes its own files: kep3 objects are shared, files are not
    for (int inc = 0; inc < ninc; ++inc) {
        const u64 nthr = r.chance(0.4) ? 2 + r.below(2) : 0;
        if (inc > 0 || load_faults) {
            for (u64 f = 0; f < nfile; ++f) {
                if (inc == 0) {
                    save(0, static_cast<long>(f));
                }
                load(0, static_cast<long>(f));
            }
        }
        for (u64 t = nthr ? 1 : 0; t <= nthr; ++t) {
            const auto n = 1 + r.below(3);
            for (u64 k = 0; k < n; ++k) {
                const long f = static_cast<long>(nthr ? (t - 1) + nthr * r.below(3) : r.below(nfile));
                const double w = r.u01();
                if (w < (load_faults ? 0.2 : 0.5)) {
                    save(static_cast<int>(t), f);
                } else if (w < 0.85) {
                    load(static_cast<int>(t), f);
                } else {
                    p.ops.push_back(query(static_cast<long>(r.below(nd)), static_cast<long>(r.below(9)), static_cast<int>(t)));
                }
            }
        }
        if (inc + 1 < ninc) {
            Op o;
            o.kind = K_CRASH;
            o.I = {static_cast<long>(r.next() >> 33)};
            p.ops.push_back(o);
        }
    }
    for (u64 f = 0; f < nfile; ++f) {
        load(100, static_cast<long>(f));
    }
    ages(p, r, 8);
}
Tossed set_tossed(const Tossed &n)
{
    thread_local Tossed t;
    const Tossed old = t;
    t = n;
    return old;
}
} // namespace h
