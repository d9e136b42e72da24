// Properties of integrator caches, Stark problems and high fidelity legs:
// scenario generators and registration.
#include "core.hpp"
#include "gen.hpp"
#include "ta_ops.hpp"
#include <limits>

namespace h
{
namespace
{
double a_tol(Rng &r, double pbad)
{
    static const double t[] = {1e-16, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4};
    static const double b[] = {-1e-10, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
    if (r.chance(pbad)) {
        return b[r.below(3)];
    }
    return r.chance(0.85) ? t[r.below(6)] : std::pow(10., r.range(-16., -2.));
}
Op ta_op(int kind, int thr, long cache, double tol)
{
    Op o;
    o.kind = kind;
    o.thr = thr;
    o.I = {cache};
    o.D = {tol};
    return o;
}
// a few tolerances, so that threads meet at the same cache entries
void gen_c10(Plan &p, Rng &r)
{
    const u64 nk = 1 + r.below(4);
    std::vector<std::pair<long, double>> keys;
    const bool one = r.chance(0.5);
    const long c0 = static_cast<long>(r.below(4));
    const double pbad = r.chance(0.3) ? 0.15 : 0.;
    for (u64 i = 0; i < nk; ++i) {
        keys.emplace_back(one ? c0 : static_cast<long>(r.below(4)), a_tol(r, pbad));
    }
    if (r.chance(0.15)) {
        keys.emplace_back(c0, 0.);
    }
    for (u64 i = 0; i < nk; ++i) { // hardly different from another one
        if (r.chance(0.2)) {
            keys.emplace_back(keys[i].first, close_to(r, keys[i].second));
        }
    }
    if (r.chance(0.3)) { // many entries: the table grows
        const int m = r.chance(0.85) ? 14 : 20 + static_cast<int>(r.below(60));
        for (int i = 0; i < m; ++i) {
            keys.emplace_back(c0, 1e-9 * (1 + i));
        }
    }
    auto any = [&](int thr) {
        auto &k = keys[r.below(keys.size())];
        const u64 w = r.below(10);
        Op o = ta_op(r.chance(0.04) ? K_TA_DYN : w < 5 ? K_TA_GET : w < 7 ? K_TA_DIM : K_TA_USE, thr, k.first, k.second);
        p.ops.push_back(o);
    };
    const unsigned nthr = static_cast<unsigned>(r.chance(0.2) ? 0 : 2 + r.below(3));
    for (u64 k = 0, n = r.below(3); k < n; ++k) {
        any(0);
    }
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        for (u64 k = 0, n = 1 + r.below(nthr ? 6 : 16); k < n; ++k) {
            any(static_cast<int>(t));
        }
    }
    add_fails(p, r);
    for (auto &k : keys) {
        p.ops.push_back(ta_op(K_TA_USE, 100, k.first, k.second));
    }
    for (auto &k : keys) {
        p.ops.push_back(ta_op(K_TA_GET, 100, k.first, k.second));
    }
    for (long c = 0; c < 4; ++c) {
        p.ops.push_back(ta_op(K_TA_DIM, 100, c, 0));
    }
    echo(p, r, true);
    ages(p, r, 12);
}
void cache_checks(Plan &p)
{
    std::vector<double> tols;
    for (auto &o : p.ops) {
        double t = std::numeric_limits<double>::quiet_NaN();
        if (o.kind == K_CTOR) {
            t = o.D.size() == 3 ? o.D[2] : o.D[HF_TOL];
        } else if (o.kind == K_SET_TOL) {
            t = o.D[0];
        }
        if (std::isfinite(t) && t > 0 && tols.size() < 3) {
            tols.push_back(t);
        }
    }
    for (double t : tols) {
        p.ops.push_back(ta_op(K_TA_GET, 100, 0, t));
        p.ops.push_back(ta_op(K_TA_GET, 100, 1, t));
    }
}
void push_state(Rng &r, std::vector<double> &d)
{
    const RV s = gen_state(r, Units{1., 1.}, 1);
    for (auto &v : s) {
        for (double x : v) {
            d.push_back(x);
        }
    }
    d.push_back(r.range(0.5, 2.));
}
std::vector<double> sp_args(Rng &r, double pbad)
{
    return {r.range(0.5, 1.5), r.range(0.5, 3.), a_tol(r, pbad)};
}
std::vector<double> prop_args(Rng &r)
{
    std::vector<double> d;
    push_state(r, d);
    const bool coast = r.chance(0.2);
    for (int k = 0; k < 3; ++k) {
        d.push_back(coast ? 0. : r.range(-.1, .1));
    }
    d.push_back(r.range(-1., 2.));
    const u64 w = r.below(12);
    if (w == 0) {
        d[6] = 0.; // rejected
    } else if (w == 1) {
        d[0] = d[1] = d[2] = d[3] = d[4] = d[5] = 0.; // falls apart
    } else if (w == 2) {
        d[10] = 0.;
    }
    return d;
}
std::vector<double> hf_op_args(Rng &r, unsigned maxseg);
// objects made, used once and thrown away
void sp_call(Rng &r, Op &o)
{
    o.kind = K_SP_CALL;
    o.I = {static_cast<long>(r.below(2))};
    o.D = sp_args(r, 0.);
    const auto d = prop_args(r);
    o.D.insert(o.D.end(), d.begin(), d.end());
}
void hf_call(Rng &r, Op &o)
{
    o.kind = K_LEGHF;
    long q = static_cast<long>(r.below(NQ_HF * 6));
    if (q % NQ_HF == 8) {
        q -= 4; // no printing: streams swallow exceptions
    }
    o.I = {static_cast<long>(r.below(2)), q};
    o.D = hf_op_args(r, 3);
}
void gen_c11(Plan &p, Rng &r)
{
    const unsigned nthr = static_cast<unsigned>(r.chance(0.4) ? 0 : 2 + r.below(3));
    const u64 nslot = 1 + r.below(3);
    const double pbad = r.chance(0.3) ? 0.2 : 0.;
    const bool oom = r.chance(0.3);
    std::vector<Op> pool;
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        for (u64 k = 0, n = 3 + r.below(nthr ? 7 : 16); k < n; ++k) {
            Op o;
            o.thr = static_cast<int>(t);
            o.I = {static_cast<long>(r.below(nslot))};
            const u64 w = k < nslot ? 0 : 1 + r.below(20);
            if (w <= 1) {
                if (k < nslot) {
                    o.I[0] = static_cast<long>(k);
                }
                o.kind = K_CTOR;
                o.D = sp_args(r, k < nslot ? 0. : pbad);
            } else if (w < 4) {
                if (pool.empty() || r.chance(0.5)) {
                    sp_call(r, o);
                    pool.push_back(o);
                }
                o = pool[r.below(pool.size())];
                o.thr = static_cast<int>(t);
            } else if (w < 7) {
                o.kind = K_SP_PROP;
                o.D = prop_args(r);
            } else if (w < 12) {
                o.kind = K_SP_PROP_VAR;
                o.D = prop_args(r);
            } else if (w < 14) {
                o.kind = K_SP_SET_MU;
                o.D = {r.range(0.5, 1.5)};
            } else if (w < 16) {
                o.kind = K_SP_SET_VEFF;
                o.D = {r.chance(0.05) ? 0. : r.range(0.5, 3.)};
            } else if (w < 18) {
                o.kind = K_QUERY;
                o.I.push_back(static_cast<long>(r.below(NQ_STARK)));
            } else {
                o.kind = r.chance(0.7) ? K_COPY : K_MOVE;
                o.I.push_back(static_cast<long>(r.below(nslot)));
                o.I.push_back(static_cast<long>(r.below(2)));
            }
            if (oom && r.chance(0.4)) {
                o.fail = a_fail(r);
            }
            p.ops.push_back(o);
        }
    }
    cache_checks(p);
    echo(p, r, true);
    ages(p, r, 12);
}
std::vector<double> hf_op_args(Rng &r, unsigned maxseg)
{
    std::vector<double> d;
    push_state(r, d);
    push_state(r, d);
    d.push_back(r.range(0.1, 1.5));
    d.push_back(r.range(0., 0.3));
    d.push_back(r.range(0.2, 4.));
    d.push_back(r.range(0.8, 1.2));
    d.push_back(r.chance(0.3) ? (r.chance(0.5) ? 0. : 1.) : r.u01());
    d.push_back(a_tol(r, 0.));
    const u64 n = 1 + r.below(r.chance(0.03) ? 40 : maxseg);
    const u64 coast = r.below(12);
    for (u64 k = 0; k < 3 * n; ++k) {
        d.push_back(coast == 0 || (coast == 1 && k / 3 % 2) || (coast == 2 && k % 3) ? 0. : r.range(-.6, .6));
    }
    if (r.chance(0.05)) {
        d[15] = 0.; // no thrust
    }
    return d;
}
void gen_c12(Plan &p, Rng &r)
{
    const unsigned nthr = static_cast<unsigned>(r.chance(0.5) ? 0 : 2 + r.below(2));
    const u64 nslot = 1 + r.below(3);
    const double pbad = r.chance(0.4) ? 0.2 : 0.;
    const bool oom = r.chance(0.35);
    std::vector<Op> pool;
    auto bad = [&](double good, double b) { return r.chance(pbad) ? b : good; };
    for (unsigned t = nthr ? 1 : 0; t <= nthr; ++t) {
        for (u64 k = 0, n = nslot + 2 + r.below(nthr ? 5 : 14); k < n; ++k) {
            Op o;
            o.thr = static_cast<int>(t);
            o.I = {static_cast<long>(r.below(nslot))};
            const u64 w = k < nslot ? 0 : 1 + r.below(27);
            switch (w) {
                case 0:
                case 1:
                    if (k < nslot) {
                        o.I[0] = static_cast<long>(k);
                    }
                    o.kind = K_CTOR;
                    o.I.push_back(static_cast<long>(r.chance(0.1) ? 2 : r.below(2)));
                    o.D = hf_op_args(r, 5);
                    break;
                case 2:
                    o.kind = K_SET_TOF;
                    o.D = {bad(r.range(0.1, 1.5), -.1)};
                    break;
                case 3:
                case 4:
                    o.kind = w == 3 ? K_SET_RVS : K_SET_RVF;
                    push_state(r, o.D);
                    if (r.chance(0.5)) {
                        o.D.pop_back();
                    }
                    break;
                case 5:
                    o.kind = r.chance(0.5) ? K_SET_MS : K_SET_MF;
                    o.D = {r.range(0.5, 3.)};
                    break;
                case 6:
                case 7:
                    o.kind = K_SET_MAX_THRUST;
                    o.D = {bad(r.range(0., 0.3), -.1)};
                    break;
                case 8:
                case 9:
                    o.kind = K_SET_ISP;
                    o.D = {bad(r.range(0.2, 4.), -.1)};
                    break;
                case 10:
                    o.kind = K_SET_MU;
                    o.D = {bad(r.range(0.8, 1.2), -.1)};
                    break;
                case 11:
                    o.kind = K_SET_CUT;
                    o.D = {bad(r.chance(0.3) ? (r.chance(0.5) ? 0. : 1.) : r.u01(), r.chance(0.5) ? 1.1 : -.1)};
                    break;
                case 12:
                    o.kind = K_SET_TOL;
                    o.D = {bad(a_tol(r, 0.), r.chance(0.5) ? 0. : 1.5)};
                    break;
                case 13:
                case 14: {
                    o.kind = w == 13 ? K_SET_THROTTLES : K_SET_THROTTLES_IT;
                    u64 m = 3 * (1 + r.below(r.chance(0.03) ? 40 : 6));
                    if (r.chance(pbad)) {
                        m = r.chance(0.3) ? 0 : m + 1 + r.below(2);
                    }
                    for (u64 q = 0; q < m; ++q) {
                        o.D.push_back(r.range(-.6, .6));
                    }
                    break;
                }
                case 15:
                case 16:
                case 17:
                    o.kind = K_SET_ALL;
                    o.I.push_back(static_cast<long>(r.below(4)));
                    o.D = hf_op_args(r, 5);
                    if (r.chance(pbad)) {
                        const u64 q = r.below(8);
                        if (q < 6) {
                            o.D[14 + q] = -.25;
                        } else if (o.I[1] != 3) {
                            o.D.resize(q == 6 ? o.D.size() - 1 : HF_TH);
                        }
                    }
                    break;
                case 25:
                case 26:
                case 27:
                    if (pool.empty() || r.chance(0.5)) {
                        hf_call(r, o);
                        pool.push_back(o);
                    }
                    o = pool[r.below(pool.size())];
                    o.thr = static_cast<int>(t);
                    break;
                case 18:
                    o.kind = r.chance(0.6) ? K_COPY : K_MOVE;
                    o.I.push_back(static_cast<long>(r.below(nslot)));
                    o.I.push_back(static_cast<long>(r.below(2)));
                    break;
                default:
                    o.kind = K_QUERY;
                    o.I.push_back(static_cast<long>(r.below(NQ_HF * 5)));
            }
            if (oom && r.chance(0.4)) {
                o.fail = a_fail(r);
            }
            p.ops.push_back(o);
        }
        for (u64 s = 0; s < nslot; ++s) {
            Op o;
            o.thr = static_cast<int>(t);
            o.kind = K_QUERY;
            o.I = {static_cast<long>(s), -1};
            p.ops.push_back(o);
        }
    }
    if (r.chance(0.3)) {
        cache_checks(p);
    }
    echo(p, r, true);
    ages(p, r, 9);
}
void ta_defs(Plan &p, Rng &r, u64 n)
{
    const u64 only = r.below(3);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.thr = -1;
        if (only == 0 || (only == 2 && r.chance(0.5))) {
            o.kind = K_OBJ_STARK;
            o.D = sp_args(r, 0.);
        } else {
            o.kind = K_OBJ_LEGHF;
            o.I = {static_cast<long>(r.below(2))};
            o.D = hf_op_args(r, 4);
        }
        p.ops.push_back(o);
    }
}
void gen_c13(Plan &p, Rng &r)
{
    gen_storage(p, r, ta_defs, r.chance(0.5), r.chance(0.5) ? 1000 : 8000);
    // the integrators inside a leg are scratch space: its const operations are not for sharing between threads
    for (auto it = p.ops.begin(); it != p.ops.end();) {
        if (it->kind == K_QUERY && it->thr > 0 && it->thr < 100) {
            it = p.ops.erase(it);
        } else {
            ++it;
        }
    }
}
void gen_c14(Plan &p, Rng &r)
{
    const u64 nd = r.below(3);
    ta_defs(p, r, nd);
    auto one = [&](int thr) {
        Op o;
        o.thr = thr;
        const u64 w = r.below(10);
        if (nd && w < 3 && (thr == 0 || thr == 100)) {
            o = query(static_cast<long>(r.below(nd)), static_cast<long>(r.below(24)), thr);
        } else if (w < 5) {
            o.kind = r.chance(0.1) ? K_TA_DYN : K_TA_GET;
            o.I = {static_cast<long>(r.below(4))};
            o.D = {a_tol(r, 0.1)};
        } else if (w < 7) {
            sp_call(r, o);
        } else {
            hf_call(r, o);
        }
        o.fail = r.chance(0.6) ? a_fail(r) : 1 + static_cast<u32>(r.below(400));
        p.ops.push_back(o);
    };
    p.set("rounds", 3 + static_cast<long>(r.below(6)));
    oom_ops(p, r, one);
    if (r.chance(0.35)) {
        for (int t = 1; t <= 2; ++t) {
            one(t);
        }
        if (r.chance(0.5)) {
            one(100);
        }
    }
}
struct Reg {
    Reg()
    {
        add_prop({"C10", gen_c10, ta_needs_ref, conc_ref, ta_exec, nullptr});
        add_prop({"C11", gen_c11, ta_needs_ref, conc_ref, stark_exec, nullptr});
        add_prop({"C12", gen_c12, ta_needs_ref, conc_ref, hf_exec, nullptr});
        add_prop({"C13", gen_c13, nullptr, nullptr, ta_stor_exec, stor_incarnations});
        add_prop({"C14", gen_c14, conc_needs_ref, conc_ref, ta_alloc_exec, nullptr});
    }
} reg;
} // namespace
} // namespace h
