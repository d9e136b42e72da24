// Scenario generation for the core operations.  Does not call kep3.
#include "core.hpp"

namespace h
{

Units gen_units(Rng &r)
{
    switch (r.below(6)) {
        case 0:
            return {149597870700.0, 1.32712440041279419e20};
        case 1:
            return {7.0e6, 398600435507000.0};
        case 2:
            return {1., r.range(0.3, 3.)};
        default:
            return {1., 1.};
    }
}

RV gen_state(Rng &r, const Units &u, int regime)
{
    const double R = u.L * r.range(0.5, 2.0);
    auto dir = [&] {
        V3 d{};
        double n = 0;
        do {
            for (auto &x : d) {
                x = r.range(-1., 1.);
            }
            if (r.chance(0.1)) {
                d[2] *= 1e-3; // close to the reference plane
            }
            n = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
        } while (n < 0.2 || n > 1.);
        for (auto &x : d) {
            x /= n;
        }
        return d;
    };
    const V3 e = dir();
    V3 w = dir();
    // avoid nearly radial motion
    const double dt = e[0] * w[0] + e[1] * w[1] + e[2] * w[2];
    if (std::abs(dt) > 0.9) {
        w = {e[1], e[2], e[0]};
    }
    const double vesc = std::sqrt(2 * u.mu / R);
    double f = r.range(0.45, 0.95);
    if (regime == 2 || (regime == 0 && r.chance(0.3))) {
        f = r.range(1.05, 1.9);
    }
    RV s;
    for (unsigned i = 0; i < 3; ++i) {
        s[0][i] = R * e[i];
        s[1][i] = f * vesc * w[i];
    }
    return s;
}

double gen_tof(Rng &r, const RV &s, const Units &u)
{
    const double R = std::sqrt(s[0][0] * s[0][0] + s[0][1] * s[0][1] + s[0][2] * s[0][2]);
    const double T = 2 * 3.14159265358979 * std::sqrt(R * R * R / u.mu);
    double t = T * r.range(0.01, 1.2);
    if (r.chance(0.1)) {
        t *= 10;
    }
    if (r.chance(0.3)) {
        t = -t;
    }
    return t;
}

static void push(Op &o, const RV &s)
{
    for (auto &a : s) {
        for (double x : a) {
            o.D.push_back(x);
        }
    }
}

Op gen_lambert(Rng &r, int kind)
{
    Op o;
    o.kind = kind;
    const Units u = gen_units(r);
    const RV a = gen_state(r, u, 1), b = gen_state(r, u, 1);
    for (double x : a[0]) {
        o.D.push_back(x);
    }
    for (double x : b[0]) {
        o.D.push_back(x);
    }
    const double T = std::sqrt(u.L * u.L * u.L / u.mu);
    double tof = T * r.range(0.3, 8.);
    if (r.chance(0.4)) {
        tof *= r.range(2., 30.);
    }
    double mu = u.mu;
    if (r.chance(0.06)) {
        tof = -tof; // rejected
    }
    if (r.chance(0.04)) {
        mu = -mu; // rejected
    }
    o.D.push_back(tof);
    o.D.push_back(mu);
    o.I = {static_cast<long>(r.below(2)), static_cast<long>(r.below(8))};
    if (r.chance(0.04)) { // very many revolutions
        o.D[6] *= r.range(5., 20.);
        o.I[1] = static_cast<long>(8 + r.below(60));
        if (r.chance(0.25)) { // more than fit in a byte
            o.D[6] *= r.range(20., 200.);
            o.I[1] = static_cast<long>(200 + r.below(400));
        }
    }
    if (r.chance(0.05)) { // transfer in a vertical plane: rejected
        o.D[0] = u.L;
        o.D[1] = 0;
        o.D[2] = 0;
        o.D[3] = u.L * 0.3;
        o.D[4] = 0;
        o.D[5] = u.L;
    }
    return o;
}

Op gen_leg(Rng &r, int kind, unsigned max_seg)
{
    LegArgs a;
    const Units u = r.chance(0.2) ? gen_units(r) : Units{1., 1.};
    a.rvs = gen_state(r, u, 1);
    a.rvf = gen_state(r, u, 1);
    const double T = std::sqrt(u.L * u.L * u.L / u.mu);
    const double vel = std::sqrt(u.mu / u.L);
    a.tof = T * r.range(0.2, 5.);
    a.mu = u.mu;
    a.ms = r.range(0.5, 2.) * (u.L > 1. ? 1000. : 1.);
    a.mf = a.ms * r.range(0.6, 1.);
    a.max_thrust = a.ms * vel / T * r.range(0.005, 0.1);
    a.isp = r.range(0.5, 3.) * vel / 9.80665 * 3;
    a.cut = r.chance(0.15) ? 0. : r.chance(0.15) ? 1. : r.chance(0.3) ? 0.5 : r.u01();
    const auto n = 1 + r.below(r.chance(0.03) ? (r.chance(0.6) ? 32 : r.chance(0.7) ? 120 : 300) : max_seg);
    for (u64 i = 0; i < 3 * n; ++i) {
        a.th.push_back(r.range(-0.6, 0.6));
    }
    if (r.chance(n > 32 ? 0.6 : 0.08)) { // coasting segments, steady thrust
        const u64 w = r.below(5);
        for (std::size_t i = 0; i < a.th.size(); ++i) {
            if (w == 0 || (w == 1 && (i / 3) % 2) || (w == 2 && i % 3)) {
                a.th[i] = 0.;
            } else if (w == 3 || (w == 4 && i % 128 != 0)) {
                a.th[i] = a.th[i ? i - 1 : 0];
            }
        }
    }
    return leg_op(a, kind);
}

Op leg_op(const LegArgs &a, int kind)
{
    Op o;
    o.kind = kind;
    push(o, a.rvs);
    o.D.push_back(a.ms);
    push(o, a.rvf);
    o.D.push_back(a.mf);
    o.D.push_back(a.tof);
    o.D.push_back(a.max_thrust);
    o.D.push_back(a.isp);
    o.D.push_back(a.mu);
    o.D.push_back(a.cut);
    for (double t : a.th) {
        o.D.push_back(t);
    }
    return o;
}
LegArgs leg_args(const Op &o)
{
    LegArgs a;
    std::size_t k = 0;
    auto rd = [&](RV &s) {
        for (auto &x : s) {
            for (double &y : x) {
                y = o.D[k++];
            }
        }
    };
    rd(a.rvs);
    a.ms = o.D[k++];
    rd(a.rvf);
    a.mf = o.D[k++];
    a.tof = o.D[k++];
    a.max_thrust = o.D[k++];
    a.isp = o.D[k++];
    a.mu = o.D[k++];
    a.cut = o.D[k++];
    a.th.assign(o.D.begin() + static_cast<long>(k), o.D.end());
    return a;
}
bool leg_valid(const LegArgs &a)
{
    return a.th.size() % 3 == 0 && !a.th.empty() && !(a.tof < 0) && !(a.max_thrust < 0) && !(a.isp < 0) && !(a.mu < 0)
           && !(a.cut < 0 || a.cut > 1);
}

Op burst(Rng &r, const Op *base, long n, int thr)
{
    Op o;
    o.kind = K_BURST;
    o.thr = thr;
    o.I = {n, static_cast<long>(r.next() >> 20), base ? base->kind : K_NONE};
    if (base && r.chance(0.5)) {
        o.I[1] = 0; // the same call again and again, every answer is compared
    }
    if (base) {
        o.I.insert(o.I.end(), base->I.begin(), base->I.end());
        o.D = base->D;
    }
    return o;
}
static Op gen_some(Rng &r, u64 kinds);
Op gen_pure(Rng &r)
{
    return gen_some(r, 14);
}
Op gen_cheap(Rng &r)
{
    return gen_some(r, 12);
}
static Op gen_some(Rng &r, u64 kinds)
{
    Op o;
    const Units u = gen_units(r);
    switch (r.below(kinds)) {
        case 0:
        case 1:
        case 2:
        case 3: {
            static const int ks[] = {K_PROPAGATE_LAGRANGIAN, K_PROPAGATE_LAGRANGIAN_U, K_PROPAGATE_KEPLERIAN,
                                     K_PROPAGATE_STM_REYNOLDS};
            o.kind = ks[r.below(4)];
            const RV s = gen_state(r, u, 0);
            push(o, s);
            o.D.push_back(gen_tof(r, s, u));
            o.D.push_back(u.mu);
            o.I = {static_cast<long>(r.below(2))};
            break;
        }
        case 4: {
            o.kind = K_PROPAGATE_LAGRANGIAN_V;
            const RV s = gen_state(r, u, 0);
            push(o, s);
            o.D.push_back(u.mu);
            const auto n = r.chance(0.06) ? r.below(r.chance(0.35) ? 1500 : 200) : r.below(5);
            for (u64 i = 0; i < n; ++i) {
                o.D.push_back(gen_tof(r, s, u));
            }
            o.I = {static_cast<long>(r.below(2))};
            break;
        }
        case 5: {
            o.kind = K_STM_REYNOLDS;
            push(o, gen_state(r, u, 1));
            push(o, gen_state(r, u, 1));
            o.D.push_back(r.range(0.1, 4.));
            o.D.push_back(u.mu);
            break;
        }
        case 6: {
            o.kind = r.chance(0.5) ? K_IC2PAR : K_IC2EQ;
            push(o, gen_state(r, u, 0));
            o.D.push_back(u.mu);
            o.I = {static_cast<long>(r.below(2))};
            break;
        }
        case 7: {
            o.kind = r.chance(0.5) ? K_PAR2IC : K_PAR2EQ;
            const bool hyp = r.chance(0.3);
            const double ecc = hyp ? r.range(1.05, 2.5) : r.range(0., 0.95);
            double a = u.L * r.range(0.5, 3.);
            if (hyp) {
                a = -a;
            }
            if (r.chance(0.1)) {
                a = -a; // inconsistent: rejected
            }
            double f = r.range(-3., 3.);
            if (hyp && !r.chance(0.1)) {
                f = r.range(-1.5, 1.5);
            }
            o.D = {a, ecc, r.range(0.01, 3.1), r.range(0., 6.2), r.range(0., 6.2), f, u.mu};
            o.I = {static_cast<long>(r.below(2))};
            break;
        }
        case 8: {
            o.kind = r.chance(0.5) ? K_EQ2IC : K_EQ2PAR;
            o.D = {u.L * r.range(0.5, 2.), r.range(-.6, .6), r.range(-.6, .6), r.range(-.9, .9), r.range(-.9, .9),
                   r.range(-4., 4.), u.mu};
            o.I = {static_cast<long>(r.below(2))};
            break;
        }
        case 9: {
            o.kind = K_ANOMALY;
            const long w = static_cast<long>(r.below(22));
            o.I = {w};
            const bool hyp = w >= 8;
            o.D = {hyp ? r.range(-1.2, 1.2) : r.range(-6.5, 6.5), hyp ? r.range(1.05, 4.) : r.range(0., 0.95)};
            break;
        }
        case 10: {
            o.kind = K_KEPLER_EQ;
            o.I = {static_cast<long>(r.below(17))};
            for (int i = 0; i < 6; ++i) {
                o.D.push_back(r.range(0.2, 2.));
            }
            break;
        }
        case 11: {
            o.kind = K_LINALG;
            o.I = {static_cast<long>(r.below(4))};
            for (int i = 0; i < 6; ++i) {
                o.D.push_back(r.range(-2., 2.));
            }
            break;
        }
        case 12:
            return gen_lambert(r, K_LAMBERT);
        default:
            return gen_leg(r, K_LEG, 4);
    }
    return o;
}

double nudge(Rng &r)
{
    const double e = std::pow(10., -r.range(1., 16.));
    return r.chance(0.5) ? 1. + e : 1. - e;
}

// An operation that differs from `o` in one respect only: what a stale cache,
// a shared scratch variable or a mis-keyed memo would confuse with it.
Op neighbour(const Op &o, Rng &r)
{
    Op n = o;
    const u64 w = r.below(10);
    if (n.kind == K_PROPAGATE_LAGRANGIAN_V && w == 9 && !n.D.empty()) {
        n.D[n.D.size() > 8 && r.chance(0.5) ? 7 + r.below(n.D.size() - 8) : 6] *= 1. + 0.05 * (r.u01() - 0.5);
        return n;
    }
    if (w < 2 && !n.I.empty() && n.kind != K_ANOMALY && n.kind != K_KEPLER_EQ && n.kind != K_LINALG) {
        auto &v = n.I[r.below(n.I.size())];
        v = (n.kind == K_LAMBERT || n.kind == K_OBJ_LAMBERT) && v > 1 ? v - 1 : 1 - (v & 1);
        return n;
    }
    if (w < 4) {
        static const int fam[] = {K_PROPAGATE_LAGRANGIAN, K_PROPAGATE_LAGRANGIAN_U, K_PROPAGATE_KEPLERIAN,
                                  K_PROPAGATE_STM_REYNOLDS};
        for (int k : fam) {
            if (k == n.kind) {
                n.kind = fam[r.below(4)];
                return n;
            }
        }
        if (n.kind == K_ANOMALY) {
            const bool hyp = n.I[0] >= 8;
            n.I[0] = static_cast<long>(hyp ? 8 + r.below(6) : r.below(8));
            return n;
        }
    }
    if (w == 4 && n.kind == K_LEG && n.D.size() > 19 + 3) {
        n.D.resize(n.D.size() - 3); // one segment less
        return n;
    }
    if (w == 5 && n.kind == K_PROPAGATE_LAGRANGIAN_V) {
        if (n.D.size() > 7) {
            n.D.pop_back();
        } else {
            n.D.push_back(0.3);
        }
        return n;
    }
    if (!n.D.empty()) {
        const auto k = r.below(n.D.size());
        // from 5% down to the last bit
        const double f = r.chance(0.4) ? 1. + 0.05 * (r.u01() - 0.5) : r.chance(0.4) ? -1. : nudge(r);
        n.D[k] = r.chance(0.05) ? 0. * n.D[k] : n.D[k] * f;
    }
    return n;
}

void gen_workers(Plan &p, Rng &r, unsigned nthr, std::vector<Op> &ops)
{
    // distribute a pool of operations over the threads, with repetition
    for (unsigned t = 1; t <= nthr; ++t) {
        const auto n = 1 + r.below(4);
        for (u64 i = 0; i < n; ++i) {
            Op o = ops[r.below(ops.size())];
            o.thr = static_cast<int>(t);
            p.ops.push_back(o);
        }
    }
}

} // namespace h
