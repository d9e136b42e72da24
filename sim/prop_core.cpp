// Properties of the core group: scenario generators and registration.
#include <cmath>
#include "core.hpp"
#include "core_leg.hpp"
#include "gen.hpp"
#include "scen.hpp"
#include "simdisk.hpp"

namespace h
{
// ---- C01 -----------------------------------------------------------------------
static void gen_c01(Plan &p, Rng &r)
{
    std::vector<Op> pool;
    const auto n = 1 + r.below(3);
    for (u64 i = 0; i < n; ++i) {
        Op o = gen_pure(r);
        pool.push_back(o);
        const auto m = r.below(3);
        for (u64 k = 0; k < m; ++k) {
            pool.push_back(neighbour(o, r));
        }
    }
    auto any = [&](int thr) {
        Op o = pool[r.below(pool.size())];
        o.thr = thr;
        return o;
    };
    const auto pre = r.chance(0.5) ? r.below(4) : 0;
    for (u64 i = 0; i < pre; ++i) {
        p.ops.push_back(any(0));
    }
    // now and then a long history first
    if (r.chance(0.05)) {
        const Op &b = pool[r.below(pool.size())];
        const bool dear = b.kind == K_LEG || b.kind == K_LAMBERT;
        p.ops.push_back(burst(r, r.chance(0.6) ? &b : nullptr,
                              static_cast<long>(1u << (3 + r.below(dear ? 4 : 8))) + static_cast<long>(r.below(20)), 0));
    } else if (r.chance(0.006)) { // or a very long one
        const Op &b = pool[r.below(pool.size())];
        const bool dear = b.kind == K_LEG || b.kind == K_LAMBERT;
        p.garbage -= p.garbage % 5;
        p.garbage += 3; // addresses are reused
        p.ops.push_back(burst(r, dear || r.chance(0.3) ? nullptr : &b, 1 + static_cast<long>(r.below(1u << (11 + r.below(7)))), 0));
    }
    const unsigned nthr = static_cast<unsigned>(r.chance(0.15) ? r.below(2) : r.chance(0.06) ? 5 + r.below(4) : 2 + r.below(3));
    gen_workers(p, r, nthr, pool);
    if (nthr > 1 && r.chance(0.12)) { // new threads after the first ones ended
        const auto from = p.ops.size();
        gen_workers(p, r, 1 + static_cast<unsigned>(r.below(3)), pool);
        for (auto i = from; i < p.ops.size(); ++i) {
            p.ops[i].thr += 8;
        }
    }
    const auto post = nthr < 2 ? 1 + r.below(4) : r.below(3);
    for (u64 i = 0; i < post; ++i) {
        p.ops.push_back(any(100));
    }
    add_fails(p, r);
    ages(p, r, 12);
}

// ---- C02 / C03 -------------------------------------------------------------------
static void gen_objs(Plan &p, Rng &r, int objkind, int purekind, long nq, Op (*mk)(Rng &, int))
{
    const auto nd = 1 + r.below(3);
    for (u64 i = 0; i < nd; ++i) {
        Op o = i && r.chance(0.4) ? neighbour(p.ops.back(), r) : mk(r, objkind);
        o.kind = objkind;
        o.thr = -1;
        if (r.chance(0.04)) { // default constructed
            o.D.clear();
        }
        p.ops.push_back(o);
    }
    std::vector<Op> pool;
    for (int i = 0; i < 2; ++i) {
        Op o = r.chance(0.5) ? neighbour(p.ops[r.below(nd)], r) : mk(r, purekind);
        o.kind = purekind;
        pool.push_back(o);
    }
    // half of the runs concentrate on one object and one query kind
    const bool focus = r.chance(0.5);
    const long fobj = static_cast<long>(r.below(nd)), fq = static_cast<long>(r.below(8 * static_cast<u64>(nq)));
    const auto nthr = r.chance(0.05) ? 5 + r.below(4) : 2 + r.below(3);
    const auto waves = r.chance(0.1) ? 2u : 1u;
    const auto pre = r.chance(0.25) ? 1 + r.below(2) : 0;
    if (r.chance(0.03)) {
        p.ops.push_back(burst(r, &pool[0], static_cast<long>(4u << r.below(5)), 0));
    }
    for (u64 i = 0; i < pre; ++i) {
        p.ops.push_back(query(static_cast<long>(r.below(nd)), static_cast<long>(r.below(8 * static_cast<u64>(nq))), 0));
    }
    for (u64 t = 1; t <= 8 * (waves - 1) + nthr; ++t) {
        if (t > nthr && t <= 8) {
            continue;
        }
        const auto n = 1 + r.below(4);
        for (u64 i = 0; i < n; ++i) {
            if (r.chance(0.25)) {
                Op o = pool[r.below(pool.size())];
                o.thr = static_cast<int>(t);
                p.ops.push_back(o);
            } else {
                p.ops.push_back(query(focus && r.chance(0.8) ? fobj : static_cast<long>(r.below(nd)),
                                      focus && r.chance(0.7) ? fq : static_cast<long>(r.below(8 * static_cast<u64>(nq))),
                                      static_cast<int>(t)));
            }
        }
    }
    if (r.chance(0.5)) {
        p.ops.push_back(query(fobj, fq, 100));
        p.ops.push_back(query(static_cast<long>(r.below(nd)), 0, 100));
    }
    add_fails(p, r);
}
static Op mk_leg_op(Rng &r, int kind)
{
    return gen_leg(r, kind, 6);
}
static void gen_c02(Plan &p, Rng &r)
{
    gen_objs(p, r, K_OBJ_LAMBERT, K_LAMBERT, NQ_LAMBERT, gen_lambert);
    ages(p, r, 10);
}
static void gen_c03(Plan &p, Rng &r)
{
    gen_objs(p, r, K_OBJ_LEG, K_LEG, NQ_LEG, mk_leg_op);
    ages(p, r, 10);
}

// ---- C04 ---------------------------------------------------------------------------
static double maybe_bad(Rng &r, double good, double bad, double p)
{
    return r.chance(p) ? bad : r.chance(0.02) ? good * std::pow(10., r.range(-300., 100.)) : good;
}
// below zero by anything from the smallest number to infinity
static double negative(Rng &r)
{
    switch (r.below(8)) {
        case 0:
            return -0x1p-1074;
        case 1:
            return -HUGE_VAL;
        case 2:
            return -std::pow(10., r.range(-300., 300.));
        case 3:
            return -std::pow(10., r.range(-17., -6.));
        default:
            return -std::pow(10., r.range(-9., 1.));
    }
}
static double above_one(Rng &r)
{
    return r.chance(0.2) ? std::nextafter(1., 2.) : r.chance(0.1) ? HUGE_VAL : 1. + std::pow(10., r.range(-15.5, 2.));
}
static void gen_c04(Plan &p, Rng &r)
{
    const unsigned nthr = static_cast<unsigned>(r.chance(0.6) ? 0 : 2 + r.below(2));
    const double pbad = r.chance(0.3) ? 0. : r.range(0.05, 0.4);
    const bool oom = r.chance(0.4);
    p.set("alloc_faults", oom);
    std::vector<Op> pool; // legs made, used once and thrown away, and other routines
    if (r.chance(0.4)) {
        for (u64 k = 0, n = 1 + r.below(2); k < n; ++k) {
            pool.push_back(r.chance(0.7) ? gen_leg(r, K_LEG, 4) : gen_pure(r));
            pool.push_back(neighbour(pool.back(), r));
        }
    }
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        const auto nslot = 1 + r.below(3);
        auto ctor = [&](long s) {
            Op o = gen_leg(r, K_CTOR, r.chance(0.2) ? 16 : 6);
            if (r.chance(0.04)) {
                o.D.clear();
            } else if (r.chance(pbad * 0.5)) {
                const std::size_t k[] = {14, 15, 16, 17, 18};
                o.D[k[r.below(5)]] = negative(r);
            }
            o.I = {s};
            o.thr = static_cast<int>(t);
            p.ops.push_back(o);
        };
        ctor(0);
        const auto n = 4 + r.below(nthr ? 10 : r.chance(0.03) ? 150 : 24);
        for (u64 i = 0; i < n; ++i) {
            Op o;
            o.thr = static_cast<int>(t);
            const long s = static_cast<long>(r.below(nslot));
            o.I = {s};
            if (!pool.empty() && r.chance(0.2)) {
                o = pool[r.below(pool.size())];
                o.thr = static_cast<int>(t);
                if (oom && r.chance(0.3)) {
                    o.fail = a_fail(r);
                }
                p.ops.push_back(o);
                continue;
            }
            if (r.chance(0.28)) {
                o.kind = K_QUERY;
                o.I.push_back(static_cast<long>(r.chance(0.3) ? -1 : static_cast<long>(r.below(8 * NQ_LEG))));
                if (oom && r.chance(0.3) && o.I[1] % NQ_LEG != 5 && o.I[1] % NQ_LEG != 10) {
                    o.fail = a_fail(r);
                }
                p.ops.push_back(o);
                continue;
            }
            auto rvop = [&] {
                const RV x = gen_state(r, Units{1., 1.}, 1);
                for (auto &y : x) {
                    for (double z : y) {
                        o.D.push_back(z);
                    }
                }
            };
            switch (r.below(23)) {
                case 18:
                case 19: // arguments taken from this leg, or from another one
                    o.kind = K_SELF;
                    o.I.push_back(static_cast<long>(r.below(8)));
                    o.I.push_back(static_cast<long>(r.below(nslot)));
                    break;
                case 20:
                case 21:
                case 22: // a small change to what the leg holds
                    o.kind = K_SELF;
                    o.I.push_back(8 + static_cast<long>(r.below(4)));
                    o.I.push_back(s);
                    o.I.push_back(static_cast<long>(r.below(1000)));
                    o.I.push_back(static_cast<long>(r.below(1000)));
                    o.D = {r.chance(0.5) ? nudge(r) : r.chance(0.3) ? -1. : r.range(-.5, .5)};
                    break;
                case 0:
                    o.kind = K_SET_TOF;
                    o.D = {maybe_bad(r, r.chance(0.05) ? 0. : r.range(0.2, 4.), negative(r), pbad)};
                    break;
                case 1:
                    o.kind = K_SET_RVS;
                    rvop();
                    break;
                case 2:
                    o.kind = K_SET_RVF;
                    rvop();
                    break;
                case 3:
                    o.kind = K_SET_MS;
                    o.D = {r.range(0.5, 3.)};
                    break;
                case 4:
                    o.kind = K_SET_MF;
                    o.D = {r.range(0.5, 3.)};
                    break;
                case 5:
                    o.kind = K_SET_MAX_THRUST;
                    o.D = {maybe_bad(r, r.chance(0.1) ? 0. : r.range(0., 0.1), negative(r), pbad)};
                    break;
                case 6:
                    o.kind = K_SET_ISP;
                    o.D = {maybe_bad(r, r.range(0.2, 4.), negative(r), pbad)};
                    break;
                case 7:
                    o.kind = K_SET_MU;
                    o.D = {maybe_bad(r, r.range(0.8, 1.2), negative(r), pbad)};
                    break;
                case 8:
                case 9:
                case 10:
                    o.kind = K_SET_CUT;
                    o.D = {maybe_bad(r, r.chance(0.3) ? (r.chance(0.5) ? 0. : 1.) : r.u01(), r.chance(0.5) ? above_one(r) : negative(r), pbad)};
                    break;
                case 11:
                case 12:
                case 13: {
                    o.kind = r.chance(0.5) ? K_SET_THROTTLES : K_SET_THROTTLES_IT;
                    u64 m = 3 * (1 + r.below(r.chance(0.03) ? 100 : r.chance(0.2) ? 16 : 6));
                    if (r.chance(pbad)) {
                        m = r.chance(0.3) ? 0 : m + 1 + r.below(2);
                    }
                    for (u64 k = 0; k < m; ++k) {
                        o.D.push_back(r.range(-.6, .6));
                    }
                    break;
                }
                case 14:
                case 15: {
                    o = gen_leg(r, K_SET_ALL, 6);
                    o.thr = static_cast<int>(t);
                    o.I = {s};
                    if (r.chance(pbad)) {
                        const u64 w = r.below(7);
                        if (w < 5) {
                            o.D[14 + w] = w == 4 && r.chance(0.5) ? above_one(r) : negative(r);
                        } else if (w == 5) {
                            o.D.pop_back();
                        } else {
                            o.D.resize(19);
                        }
                    }
                    break;
                }
                case 16:
                    o.kind = K_COPY;
                    o.I.push_back(static_cast<long>(r.below(nslot)));
                    o.I.push_back(static_cast<long>(r.below(2)));
                    break;
                default:
                    if (r.chance(0.5)) {
                        ctor(s);
                        continue;
                    }
                    o.kind = K_MOVE;
                    o.I.push_back(static_cast<long>(r.below(nslot)));
            }
            if (oom && r.chance(0.4)) {
                o.fail = 1 + static_cast<u32>(r.below(3));
            }
            p.ops.push_back(o);
        }
        // always look at every leg at the end
        for (u64 s = 0; s < nslot; ++s) {
            Op o;
            o.thr = static_cast<int>(t);
            o.kind = K_QUERY;
            o.I = {static_cast<long>(s), -1};
            p.ops.push_back(o);
        }
    }
    echo(p, r);
    ages(p, r, 13);
}

// ---- C05 / C06 -------------------------------------------------------------------------
static void core_defs(Plan &p, Rng &r, u64 n)
{
    const int only = static_cast<int>(r.below(3));
    for (u64 i = 0; i < n; ++i) {
        Op o;
        if (only == 0 || (only == 2 && r.chance(0.5))) {
            o = gen_lambert(r, K_OBJ_LAMBERT);
            if (o.D[6] < 0 || o.D[7] < 0) {
                o.D[6] = std::abs(o.D[6]);
                o.D[7] = std::abs(o.D[7]);
            }
        } else {
            o = gen_leg(r, K_OBJ_LEG, r.chance(0.03) ? 300 : 6);
        }
        if (o.kind == K_OBJ_LEG && r.chance(0.1)) { // any number can be stored
            static const double v[] = {-0., 0x1p-1074, 0x1p-1022, 1e300, HUGE_VAL, std::nan(""), -HUGE_VAL, -1.7e308};
            for (u64 k = 0, m = 1 + r.below(3); k < m; ++k) {
                const auto q = r.below(o.D.size());
                o.D[q] = v[r.below(q < 14 || q > 18 ? 8 : q < 18 ? 5 : 3)];
            }
        }
        o.thr = -1;
        if (r.chance(0.04)) { // default constructed
            o.D.clear();
        }
        p.ops.push_back(o);
    }
}
static void gen_c05(Plan &p, Rng &r)
{
    gen_storage(p, r, core_defs, false, 1200);
}
static void gen_c06(Plan &p, Rng &r)
{
    gen_storage(p, r, core_defs, true, 1200);
}

// ---- C07: allocation failure ------------------------------------------------------------
static void gen_c07(Plan &p, Rng &r)
{
    const u64 nd = r.below(3);
    core_defs(p, r, nd);
    auto one = [&](int thr) {
        Op o;
        if (nd && r.chance(0.4)) {
            o = query(static_cast<long>(r.below(nd)), static_cast<long>(r.below(200)), thr);
        } else {
            switch (r.below(4)) {
                case 0:
                    o = gen_lambert(r, K_LAMBERT);
                    o.I[1] = o.I[1] / 3 * 3 + 1; // no printing
                    break;
                case 1:
                    o = gen_leg(r, K_LEG, 4);
                    break;
                default:
                    o = gen_pure(r);
                    if (o.kind == K_LAMBERT) {
                        o.I[1] = o.I[1] / 3 * 3 + 1;
                    }
            }
            o.thr = thr;
        }
        o.fail = r.chance(0.6) ? a_fail(r) : 1 + static_cast<u32>(r.below(400));
        p.ops.push_back(o);
    };
    p.set("rounds", 3 + static_cast<long>(r.below(6)));
    oom_ops(p, r, one);
    if (r.chance(0.35)) {
        for (int t = 1; t <= 2; ++t) {
            one(t);
        }
        if (r.chance(0.5)) {
            one(100);
        }
    }
}

static struct Reg {
    Reg()
    {
        add_prop({"C01", gen_c01, conc_needs_ref, conc_ref, conc_exec, nullptr});
        add_prop({"C02", gen_c02, conc_needs_ref, conc_ref, conc_exec, nullptr});
        add_prop({"C03", gen_c03, conc_needs_ref, conc_ref, conc_exec, nullptr});
        add_prop({"C04", gen_c04, pure_needs_ref, conc_ref, leghist_exec, nullptr});
        add_prop({"C05", gen_c05, nullptr, nullptr, stor_exec, stor_incarnations});
        add_prop({"C06", gen_c06, nullptr, nullptr, stor_exec, stor_incarnations});
        add_prop({"C07", gen_c07, conc_needs_ref, conc_ref, alloc_exec, nullptr});
    }
} reg;
} // namespace h
