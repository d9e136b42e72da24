// Properties of epochs: scenario generators and registration.
#include "epoch_ops.hpp"
#include "gen.hpp"
#include "simdisk.hpp"

namespace h
{
namespace
{
long some_us(Rng &r, double far)
{
    const long y = 31556952000000;
    switch (r.below(7)) {
        case 0:
            return static_cast<long>(r.below(40000)) * 86400000000 - 10000L * 86400000000;
        case 1:
            return r.chance(0.3) ? static_cast<long>(r.below(3)) - 1 : static_cast<long>(r.range(-1.6e11, 1.6e11)) / 1000000 * 1000000;
        case 2:
            return 946684800000000 + static_cast<long>(r.below(5)) - 2;
        case 3:
            return static_cast<long>(r.range(-7e15, 7e15));
        case 4: // anywhere in the range of a 64 bit count
            return static_cast<long>(r.range(-far, far)) + static_cast<long>(r.below(4096));
        default:
            return static_cast<long>(r.range(-100. * static_cast<double>(y), 150. * static_cast<double>(y)));
    }
}
// microseconds since 1970: ordinary dates mostly, then exact days, then far away; at times full seconds to full days
long any_us(Rng &r, double far = 1e18)
{
    static const long unit[] = {1000, 1000000, 60000000, 3600000000, 86400000000, 604800000000};
    const long us = some_us(r, far);
    return r.chance(0.75) ? us : us - us % unit[r.below(6)];
}
long unit_count(Rng &r, long unit)
{
    static const double big[] = {4e15, 4e12, 4e9, 6e7, 1e6, 5e4, 4e7, 1e11, 4e7};
    return static_cast<long>(r.chance(0.5) ? r.range(-20, 20) : r.range(-1, 1) * big[unit]);
}
void def_epochs(Plan &p, Rng &r, u64 n)
{
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = K_OBJ_EPOCH;
        o.thr = -1;
        o.I = {any_us(r, 8.9e18)};
        p.ops.push_back(o);
    }
}
void calendar(Rng &r, Op &o, double pbad)
{
    const long d = static_cast<long>(r.chance(0.3) ? 28 + r.below(4) : 1 + r.below(31));
    o.I.push_back(r.chance(0.2) ? static_cast<long>(1600 + 100 * r.below(8)) : static_cast<long>(1700 + r.below(550)));
    o.I.push_back(r.chance(pbad) ? static_cast<long>(13 * r.below(2)) : static_cast<long>(r.chance(0.3) ? 2 : 1 + r.below(12)));
    o.I.push_back(r.chance(pbad) ? static_cast<long>(32 * r.below(2)) : d);
    o.I.push_back(static_cast<long>(r.below(24)));
    o.I.push_back(static_cast<long>(r.below(60)));
    o.I.push_back(static_cast<long>(r.below(60)));
}
void gen_c08(Plan &p, Rng &r)
{
    const u64 nsh = 1 + r.below(3);
    def_epochs(p, r, nsh);
    const unsigned nthr = static_cast<unsigned>(r.chance(0.4) ? 0 : 2 + r.below(3));
    p.set("clock", r.chance(0.1) ? static_cast<long>(r.range(-1e9, 1e9)) : static_cast<long>(r.range(9e14, 4e15)));
    if (r.chance(0.5)) {
        p.set("clkseed", static_cast<long>(1 + (r.next() >> 40)));
    }
    const double pbad = r.chance(0.3) ? 0. : 0.15;
    const double pnow = r.chance(0.3) ? 0.6 : 0.12;
    const bool oom = r.chance(0.3);
    // threads sometimes go through the same operations
    const u64 nslot = 1 + r.below(4);
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        const u64 n = 3 + r.below(nthr ? 12 : 30);
        for (u64 k = 0; k < n; ++k) {
            Op o;
            o.thr = static_cast<int>(t);
            const long s = static_cast<long>(r.below(nslot)), s2 = static_cast<long>(r.below(nslot));
            if (r.chance(pnow)) {
                if (r.chance(0.3)) {
                    o.kind = K_CLOCK;
                    o.I = {r.chance(0.5) ? -static_cast<long>(r.below(1ull << r.below(50))) : static_cast<long>(r.below(1ull << r.below(50)))};
                } else {
                    o.kind = K_EPOCH_NOW;
                    o.I = {s};
                }
                p.ops.push_back(o);
                continue;
            }
            if (r.chance(0.25)) {
                o.kind = K_EPOCH_SHARED;
                o.I = {static_cast<long>(r.below(nsh)), ES_DIFF + static_cast<long>(r.below(4)), static_cast<long>(r.below(nsh)), static_cast<long>(r.below(r.chance(0.8) ? 3 : 15))};
                p.ops.push_back(o);
                continue;
            }
            o.kind = K_EPOCH_OP;
            o.I = {s};
            const u64 w = r.below(20);
            if (w < 3) {
                const long ty = r.chance(pbad) ? 3 : static_cast<long>(r.below(3));
                o.I.push_back(ES_DAYS);
                o.I.push_back(ty);
                const double base = ty == 1 ? 51544. : ty == 2 ? 2451544.5 : 0.;
                o.D = {base + (r.chance(0.3) ? static_cast<double>(r.below(3)) - 1. : std::floor(r.range(-40000., 40000.) * 32.) / 32.)};
            } else if (w < 5) {
                o.I.push_back(ES_CAL);
                calendar(r, o, pbad);
                o.I.push_back(static_cast<long>(r.below(1000)));
                o.I.push_back(static_cast<long>(r.below(1000)));
            } else if (w < 8) {
                static const long len[] = {7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26};
                o.I.push_back(ES_STR);
                calendar(r, o, pbad);
                o.I.push_back(static_cast<long>(r.chance(0.3) ? r.below(10) * 100000 + r.below(10) : r.below(1000000)));
                o.I.push_back(r.chance(pbad) ? static_cast<long>(r.below(27)) : len[r.below(11)]);
                o.I.push_back(r.chance(pbad) ? 1 + static_cast<long>(r.below(2)) : 0);
            } else if (w < 9) {
                o.I.push_back(ES_TP);
                o.I.push_back(any_us(r));
            } else if (w < 10) {
                o.I.push_back(ES_DEFAULT);
            } else if (w < 16) {
                const long u = static_cast<long>(r.below(9));
                o.I.push_back(ES_ADD + static_cast<long>(r.below(4)));
                o.I.push_back(u);
                o.I.push_back(unit_count(r, u));
                o.I.push_back(s2);
            } else if (w < 17) {
                o.I.push_back(ES_COPY);
                o.I.push_back(s2);
                o.I.push_back(static_cast<long>(r.below(2)));
            } else {
                o.I.push_back(ES_DIFF + static_cast<long>(r.below(4)));
                o.I.push_back(s2);
                o.I.push_back(static_cast<long>(r.below(r.chance(0.8) ? 3 : 15)));
            }
            if (oom && r.chance(0.3)) {
                o.fail = 1 + static_cast<u32>(r.below(3));
            }
            p.ops.push_back(o);
        }
    }
    for (u64 k = 0; k < nsh; ++k) {
        Op o;
        o.thr = 100;
        o.kind = K_EPOCH_SHARED;
        o.I = {static_cast<long>(k), ES_PRINT, 0, 0};
        p.ops.push_back(o);
    }
    echo(p, r);
    ages(p, r, 15);
}
void gen_c09(Plan &p, Rng &r)
{
    gen_storage(p, r, def_epochs, r.chance(0.5), 70);
}
struct Reg {
    Reg()
    {
        add_prop({"C08", gen_c08, nullptr, nullptr, epoch_exec, nullptr});
        add_prop({"C09", gen_c09, nullptr, nullptr, stor_exec, stor_incarnations});
    }
} reg;
} // namespace
} // namespace h
