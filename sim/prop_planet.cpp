// Properties of planets: scenario generators and registration.
#include "core.hpp"
#include "gen.hpp"
#include "pl_ops.hpp"
#include <limits>

namespace h
{
namespace
{
double a_thresh(Rng &r, double pbad)
{
    static const double t[] = {1e-2, 1e-3, 1e-5, 1.};
    static const double b[] = {-1e-5, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
    return r.chance(pbad) ? b[r.below(3)] : t[r.below(4)];
}
// I gets type and sub, D the arguments
void pl_gen(Rng &r, Op &o, long type, double pbad)
{
    std::vector<double> d(PD_N);
    d[PD_T0] = r.chance(0.5) ? 0. : r.range(-2000., 2000.);
    const RV s = gen_state(r, Units{1., 1.}, r.chance(0.7) ? 1 : 2);
    for (std::size_t k = 0; k < 6; ++k) {
        d[PD_RV + k] = s[k / 3][k % 3];
    }
    d[PD_MU] = r.chance(0.5) ? 1. : r.range(0.5, 2.);
    d[PD_SELF] = r.range(1e-6, 1e-3);
    d[PD_RAD] = r.range(1e-3, 1e-2);
    d[PD_SAFE] = d[PD_RAD] * 1.25;
    d[PD_X] = type == PT_VSOP ? a_thresh(r, pbad) : r.range(0.5, 4.);
    long sub = 0;
    if (type == PT_KEP_EL) {
        const bool hyp = r.chance(0.2);
        sub = static_cast<long>(r.below(4));
        d[PD_RV] = hyp ? -r.range(0.5, 3.) : r.range(0.5, 3.);
        d[PD_RV + 1] = hyp ? r.range(1.1, 3.) : r.range(0., 0.9);
        for (std::size_t k = 2; k < 6; ++k) {
            d[PD_RV + k] = r.range(0.05, 1.2);
        }
        if (r.chance(pbad)) {
            if (r.chance(0.5)) {
                d[PD_RV] = -d[PD_RV];
            } else {
                sub = 5;
            }
        }
    } else if (type == PT_JPL || type == PT_VSOP) {
        sub = static_cast<long>(r.chance(pbad) ? 8 + r.below(2) : r.below(8)) + (r.chance(0.2) ? 16 : 0);
    } else {
        sub = static_cast<long>(r.below(8));
    }
    if (r.chance(0.4)) {
        sub += 64;
    }
    if (type != PT_VSOP && type != PT_JPL && r.chance(0.12)) { // names and tables of other sizes
        sub += 8 * static_cast<long>(1 + r.below(7)) + (r.chance(0.3) ? 128 : 0);
    }
    if (type == PT_VSOP || type == PT_JPL) {
        sub &= 31;
    }
    o.I.push_back(type);
    o.I.push_back(sub);
    o.D = d;
}
long a_type(Rng &r)
{
    static const long t[] = {PT_NULL, PT_KEP_RV, PT_KEP_RV, PT_KEP_EL, PT_KEP_EL, PT_JPL, PT_JPL, PT_VSOP, PT_VSOP, PT_MIN, PT_MU, PT_FULL};
    return t[r.below(12)];
}
long a_query(Rng &r)
{
    return static_cast<long>(r.below(NQ_PL) + NQ_PL * (r.chance(0.4) ? 0 : r.below(NT_PL * 8)));
}
void pl_defs(Plan &p, Rng &r, u64 n)
{
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.thr = -1;
        o.kind = K_OBJ_PLANET;
        pl_gen(r, o, a_type(r), 0.);
        p.ops.push_back(o);
    }
}
void flyby(Rng &r, Op &o)
{
    o.kind = K_FLYBY;
    for (int k = 0; k < 6; ++k) {
        o.D.push_back(r.range(-2., 2.));
    }
    o.D.push_back(r.range(0.5, 2.));
    o.D.push_back(r.range(0.5, 1.5));
    o.D.push_back(r.range(0., 6.));
}
void gen_c15(Plan &p, Rng &r)
{
    const u64 nd = r.below(3);
    pl_defs(p, r, nd);
    const unsigned nthr = static_cast<unsigned>(r.chance(0.3) ? 0 : 2 + r.below(3));
    const u64 nslot = 1 + r.below(3);
    const double pbad = r.chance(0.3) ? 0.2 : 0.;
    const bool oom = r.chance(0.3);
    const bool onetype = r.chance(0.4);
    const long ty = a_type(r);
    std::vector<Op> pool;
    for (int k = 0; k < 3; ++k) {
        Op o;
        o.kind = K_PLANET;
        pl_gen(r, o, onetype ? ty : a_type(r), pbad);
        o.I.push_back(0);
        pool.push_back(o);
    }
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        for (u64 k = 0, n = 3 + r.below(nthr ? 6 : 18); k < n; ++k) {
            Op o;
            o.thr = static_cast<int>(t);
            const u64 w = r.below(20);
            if (nd && w < 5) {
                o = query(static_cast<long>(r.below(nd)), a_query(r), o.thr);
            } else if (w < 8) {
                o = pool[r.below(pool.size())];
                o.thr = static_cast<int>(t);
                o.I[2] = a_query(r);
            } else if (w < 9) {
                flyby(r, o);
            } else if (w < 12) {
                o.kind = K_CTOR;
                o.I = {static_cast<long>(r.below(nslot))};
                pl_gen(r, o, onetype ? ty : a_type(r), pbad);
            } else if (w < 15) {
                o.kind = r.chance(0.7) ? K_COPY : K_MOVE;
                o.I = {static_cast<long>(r.below(nslot)), static_cast<long>(r.below(nslot)), static_cast<long>(r.below(3))};
            } else if (w < 17) {
                o.kind = K_SET_ALL;
                o.I = {static_cast<long>(r.below(nslot))};
                o.D = {r.range(0.5, 4.)};
            } else {
                o.kind = K_PL_CALL;
                o.I = {static_cast<long>(r.below(nslot)), a_query(r)};
            }
            if (oom && r.chance(0.4)) {
                o.fail = a_fail(r);
            }
            p.ops.push_back(o);
        }
    }
    echo(p, r, true);
    ages(p, r, 12);
}
void st_defs(Plan &p, Rng &r, u64 n)
{
    const u64 only = r.below(6);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.thr = -1;
        switch (only) {
            case 0:
                o.kind = K_OBJ_KEP;
                pl_gen(r, o, r.chance(0.5) ? PT_KEP_RV : PT_KEP_EL, 0.);
                break;
            case 1:
                o.kind = K_OBJ_JPL;
                pl_gen(r, o, PT_JPL, 0.);
                break;
            case 2:
                o.kind = K_OBJ_VSOP;
                pl_gen(r, o, PT_VSOP, 0.);
                break;
            default:
                o.kind = K_OBJ_PLANET;
                pl_gen(r, o, a_type(r), 0.);
        }
        p.ops.push_back(o);
    }
}
void gen_c16(Plan &p, Rng &r)
{
    gen_storage(p, r, st_defs, r.chance(0.5), r.chance(0.5) ? 300 : 1200);
}
void gen_c17(Plan &p, Rng &r)
{
    const u64 nd = r.below(2);
    for (u64 i = 0; i < nd; ++i) {
        Op o;
        o.thr = -1;
        o.kind = K_OBJ_VSOP;
        pl_gen(r, o, PT_VSOP, 0.);
        p.ops.push_back(o);
    }
    std::vector<Op> pool;
    const double pbad = r.chance(0.4) ? 0.3 : 0.;
    const long body = static_cast<long>(r.below(8));
    const double th = a_thresh(r, 0.);
    const u64 style = r.below(3);
    for (u64 k = 0, n = 1 + r.below(4); k < n; ++k) {
        Op o;
        o.kind = K_PLANET;
        pl_gen(r, o, PT_VSOP, pbad);
        if (style == 0) {
            o.I[1] = (o.I[1] & 16) | body; // one body, several thresholds
        } else if (style == 1) {
            o.D[PD_X] = r.chance(0.5) ? th : close_to(r, th);
        }
        o.I.push_back(0);
        pool.push_back(o);
    }
    if (r.chance(0.1)) { // many entries
        for (u64 k = 0, n = r.chance(0.1) ? 150 + r.below(350) : 10 + r.below(60); k < n; ++k) {
            Op o;
            o.kind = K_PLANET;
            pl_gen(r, o, PT_VSOP, pbad);
            o.D[PD_X] = 1e-4 * static_cast<double>(1 + k);
            o.I.push_back(static_cast<long>(r.below(3)) * NQ_PL);
            p.ops.push_back(o);
        }
    }
    auto any = [&](int thr) {
        if (nd && r.chance(0.2)) {
            p.ops.push_back(query(static_cast<long>(r.below(nd)), a_query(r), thr));
            return;
        }
        Op o = pool[r.below(pool.size())];
        o.thr = thr;
        o.I[2] = a_query(r);
        if (r.chance(0.5)) {
            o.I[2] = static_cast<long>(r.below(3)) * NQ_PL;
        }
        p.ops.push_back(o);
    };
    const unsigned nthr = static_cast<unsigned>(r.chance(0.2) ? 0 : 2 + r.below(3));
    for (u64 k = 0, n = r.below(3); k < n; ++k) {
        any(0);
    }
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        for (u64 k = 0, n = 1 + r.below(nthr ? 5 : 12); k < n; ++k) {
            any(static_cast<int>(t));
        }
    }
    add_fails(p, r);
    for (auto &o : p.ops) { // streams swallow exceptions
        const long q = o.kind == K_PLANET ? o.I[2] % NQ_PL : 0;
        if (q == 8 || q == 9) {
            o.fail = 0;
        }
    }
    for (u64 k = 0; k < 2; ++k) {
        any(100);
    }
    echo(p, r, true);
    ages(p, r, 11);
}
void gen_c18(Plan &p, Rng &r)
{
    const u64 nd = r.below(3);
    pl_defs(p, r, nd);
    auto one = [&](int thr) {
        Op o;
        o.thr = thr;
        if (nd && r.chance(0.4)) {
            o = query(static_cast<long>(r.below(nd)), a_query(r), thr);
        } else {
            o.kind = K_PLANET;
            pl_gen(r, o, a_type(r), 0.1);
            long q = a_query(r);
            if (q % NQ_PL == 8 || q % NQ_PL == 9) {
                q += 2; // streams swallow exceptions
            }
            o.I.push_back(q);
        }
        o.fail = r.chance(0.6) ? a_fail(r) : 1 + static_cast<u32>(r.below(400));
        p.ops.push_back(o);
    };
    p.set("rounds", 3 + static_cast<long>(r.below(6)));
    oom_ops(p, r, one);
    if (r.chance(0.35)) {
        for (int t = 1; t <= 2; ++t) {
            one(t);
        }
        if (r.chance(0.5)) {
            one(100);
        }
    }
}
struct Reg {
    Reg()
    {
        add_prop({"C15", gen_c15, pl_needs_ref, conc_ref, pl_exec, nullptr});
        add_prop({"C16", gen_c16, nullptr, nullptr, stor_exec, stor_incarnations});
        add_prop({"C17", gen_c17, conc_needs_ref, conc_ref, conc_exec, nullptr});
        add_prop({"C18", gen_c18, conc_needs_ref, conc_ref, alloc_exec, nullptr});
    }
} reg;
} // namespace
} // namespace h
