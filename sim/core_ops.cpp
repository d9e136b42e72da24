// Execution of core operations against the real kep3 code.  Compiled with the
// same instrumentation as kep3 itself.
#include "core.hpp"
#include "scen.hpp"

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/vector.hpp>

#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/kepler_equations.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/special_functions.hpp>
#include <kep3/core_astro/stm.hpp>
#include <xtensor/xadapt.hpp>
#include <xtensor/xarray.hpp>
#include <xtensor/xfixed.hpp>
#include <xtensor/xtensor.hpp>
#include <xtensor/xtensor_config.hpp>
#include <kep3/linalg.hpp>

namespace h
{

static RV rv_at(const Op &o, std::size_t k)
{
    RV s;
    for (auto &a : s) {
        for (double &x : a) {
            x = o.D[k++];
        }
    }
    return s;
}
void put_rv(Blob &b, const RV &rv)
{
    for (auto &a : rv) {
        for (double x : a) {
            b.d(x);
        }
    }
}
template <typename P>
static void put_prop(Blob &b, const P &p)
{
    put_rv(b, p.first);
    b.u(p.second.has_value());
    if (p.second) {
        b.ds(*p.second);
    }
}

bool is_pure(int k)
{
    return k >= K_PROPAGATE_LAGRANGIAN && k <= K_LEG;
}

static std::array<double, 6> six(const Op &o)
{
    std::array<double, 6> p{};
    for (unsigned i = 0; i < 6; ++i) {
        p[i] = o.D[i];
    }
    return p;
}

void exec_pure(const Op &op, Blob &b)
{
    b.tag(kind_name(op.kind));
    guarded(b, [&] {
        switch (op.kind) {
            case K_PROPAGATE_LAGRANGIAN: {
                const RV s = rv_at(op, 0);
                InLib l;
                auto r = kep3::propagate_lagrangian(s, op.D[6], op.D[7], op.I[0] != 0);
                l.leave();
                put_prop(b, r);
                break;
            }
            case K_PROPAGATE_LAGRANGIAN_U: {
                const RV s = rv_at(op, 0);
                InLib l;
                auto r = kep3::propagate_lagrangian_u(s, op.D[6], op.D[7], op.I[0] != 0);
                l.leave();
                put_prop(b, r);
                break;
            }
            case K_PROPAGATE_KEPLERIAN: {
                const RV s = rv_at(op, 0);
                InLib l;
                auto r = kep3::propagate_keplerian(s, op.D[6], op.D[7], op.I[0] != 0);
                l.leave();
                put_prop(b, r);
                break;
            }
            case K_PROPAGATE_STM_REYNOLDS: {
                const RV s = rv_at(op, 0);
                InLib l;
                auto r = kep3::propagate_stm_reynolds(s, op.D[6], op.D[7], op.I[0] != 0);
                l.leave();
                put_prop(b, r);
                break;
            }
            case K_PROPAGATE_LAGRANGIAN_V: {
                const RV s = rv_at(op, 0);
                const std::vector<double> tofs(op.D.begin() + 7, op.D.end());
                InLib l;
                auto r = kep3::propagate_lagrangian_v(s, tofs, op.D[6], op.I[0] != 0);
                l.leave();
                b.u(r.size());
                for (auto &e : r) {
                    put_prop(b, e);
                }
                break;
            }
            case K_STM_REYNOLDS: {
                const RV s = rv_at(op, 0), f = rv_at(op, 6);
                InLib l;
                auto r = kep3::stm_reynolds(s, f, op.D[12], op.D[13]);
                l.leave();
                b.ds(r);
                break;
            }
            case K_IC2PAR: {
                const RV s = rv_at(op, 0);
                InLib l;
                auto r = kep3::ic2par(s, op.D[6]);
                l.leave();
                b.ds(r);
                break;
            }
            case K_IC2EQ: {
                const RV s = rv_at(op, 0);
                InLib l;
                auto r = kep3::ic2eq(s, op.D[6], op.I[0] != 0);
                l.leave();
                b.ds(r);
                break;
            }
            case K_PAR2IC: {
                InLib l;
                auto r = kep3::par2ic(six(op), op.D[6]);
                l.leave();
                put_rv(b, r);
                break;
            }
            case K_EQ2IC: {
                InLib l;
                auto r = kep3::eq2ic(six(op), op.D[6], op.I[0] != 0);
                l.leave();
                put_rv(b, r);
                break;
            }
            case K_EQ2PAR: {
                InLib l;
                auto r = kep3::eq2par(six(op), op.I[0] != 0);
                l.leave();
                b.ds(r);
                break;
            }
            case K_PAR2EQ: {
                InLib l;
                auto r = kep3::par2eq(six(op), op.I[0] != 0);
                l.leave();
                b.ds(r);
                break;
            }
            case K_ANOMALY: {
                const double x = op.D[0], e = op.D[1];
                InLib l;
                double r = 0;
                switch (op.I[0]) {
                    case 0:
                        r = kep3::m2e(x, e);
                        break;
                    case 1:
                        r = kep3::e2m(x, e);
                        break;
                    case 2:
                        r = kep3::e2f(x, e);
                        break;
                    case 3:
                        r = kep3::f2e(x, e);
                        break;
                    case 4:
                        r = kep3::m2f(x, e);
                        break;
                    case 5:
                        r = kep3::f2m(x, e);
                        break;
                    case 6:
                        r = kep3::m2e(x * 7, e);
                        break;
                    case 7:
                        r = kep3::m2f(-x, e);
                        break;
                    case 8:
                        r = kep3::n2h(x, e);
                        break;
                    case 9:
                        r = kep3::h2n(x, e);
                        break;
                    case 10:
                        r = kep3::h2f(x, e);
                        break;
                    case 11:
                        r = kep3::f2h(x, e);
                        break;
                    case 13:
                        r = kep3::f2n(x, e);
                        break;
                    case 12:
                        r = kep3::n2f(x, e);
                        break;
                    case 14:
                        r = kep3::jd2mjd(x * e * 1e4);
                        break;
                    case 15:
                        r = kep3::jd2mjd2000(x * e * 1e4);
                        break;
                    case 16:
                        r = kep3::mjd2jd(x * e * 1e4);
                        break;
                    case 17:
                        r = kep3::mjd2mjd2000(x * e * 1e4);
                        break;
                    case 18:
                        r = kep3::mjd20002jd(x * e * 1e4);
                        break;
                    case 19:
                        r = kep3::mjd20002mjd(x * e * 1e4);
                        break;
                    case 20:
                        r = kep3::f2zeta(x, e);
                        break;
                    default:
                        r = kep3::zeta2f(x, e);
                        break;
                }
                l.leave();
                b.d(r);
                break;
            }
            case K_KEPLER_EQ: {
                const auto &d = op.D;
                InLib l;
                double r = 0;
                switch (op.I[0]) {
                    case 0:
                        r = kep3::kepE(d[0], d[1], d[2]);
                        break;
                    case 1:
                        r = kep3::d_kepE(d[0], d[1]);
                        break;
                    case 2:
                        r = kep3::dd_kepE(d[0], d[1]);
                        break;
                    case 3:
                        r = kep3::kepH(d[0], d[1], d[2]);
                        break;
                    case 4:
                        r = kep3::d_kepH(d[0], d[1]);
                        break;
                    case 5:
                        r = kep3::dd_kepH(d[0], d[1]);
                        break;
                    case 6:
                        r = kep3::kepDE(d[0], d[1], d[2], d[3], d[4], d[5]);
                        break;
                    case 7:
                        r = kep3::d_kepDE(d[0], d[1], d[2], d[3], d[4]);
                        break;
                    case 8:
                        r = kep3::dd_kepDE(d[0], d[1], d[2], d[3], d[4]);
                        break;
                    case 9:
                        r = kep3::kepDH(d[0], d[1], d[2], d[3], -d[4], d[5]);
                        break;
                    case 10:
                        r = kep3::d_kepDH(d[0], d[1], d[2], -d[3], d[4]);
                        break;
                    case 11:
                        r = kep3::dd_kepDH(d[0], d[1], d[2], -d[3], d[4]);
                        break;
                    case 12:
                        r = kep3::kepDS(d[0], d[1], d[2], d[3], d[4], d[5]);
                        break;
                    case 13:
                        r = kep3::d_kepDS(d[0], d[1], d[2], d[3], d[4]);
                        break;
                    case 14:
                        r = kep3::dd_kepDS(d[0], d[1], d[2], d[3], d[4]);
                        break;
                    case 15:
                        r = kep3::stumpff_s(d[0] - d[1]);
                        break;
                    default:
                        r = kep3::stumpff_c(d[0] - d[1]);
                        break;
                }
                l.leave();
                b.d(r);
                break;
            }
            case K_LINALG: {
                const auto &d = op.D;
                if (op.I[0] == 0) {
                    V3 v{d[0], d[1], d[2]};
                    InLib l;
                    kep3::linalg::_normalize(v);
                    l.leave();
                    b.ds(v);
                } else if (op.I[0] == 1) {
                    V3 v{d[0], d[1], d[2]}, w{d[3], d[4], d[5]};
                    InLib l;
                    auto c = kep3::linalg::_cross(v, w);
                    l.leave();
                    b.ds(c);
                } else {
                    kep3::linalg::mat31 v{{d[0]}, {d[1]}, {d[2]}}, w{{d[3]}, {d[4]}, {d[5]}};
                    if (op.I[0] == 2) {
                        InLib l;
                        auto m = kep3::linalg::_skew(v);
                        l.leave();
                        for (unsigned i = 0; i < 3; ++i) {
                            for (unsigned j = 0; j < 3; ++j) {
                                b.d(m(i, j));
                            }
                        }
                    } else {
                        InLib l;
                        auto m = kep3::linalg::_dot(kep3::linalg::_skew(v), kep3::linalg::_cross(v, w));
                        l.leave();
                        for (unsigned i = 0; i < 3; ++i) {
                            b.d(m(i, 0));
                        }
                    }
                }
                break;
            }
            case K_LAMBERT: {
                auto p = make_lambert(op);
                obs_lambert(*p, b, 0);
                if (op.I.size() > 1 && op.I[1] % 3 == 0) {
                    obs_lambert(*p, b, 1);
                }
                InLib l;
                p.reset();
                break;
            }
            case K_LEG: {
                auto p = make_leg(op);
                obs_leg_all(*p, b, true);
                InLib l;
                p.reset();
                break;
            }
            default:
                sim::violate("sim-error", "not a pure operation: %d", op.kind);
        }
    });
}

std::unique_ptr<kep3::lambert_problem> make_lambert(const Op &op)
{
    if (op.D.empty()) {
        InLib l;
        return std::make_unique<kep3::lambert_problem>();
    }
    const V3 r0{op.D[0], op.D[1], op.D[2]}, r1{op.D[3], op.D[4], op.D[5]};
    InLib l;
    return std::make_unique<kep3::lambert_problem>(r0, r1, op.D[6], op.D[7], op.I[0] != 0,
                                                   static_cast<unsigned>(op.I[1]));
}
std::unique_ptr<kep3::leg::sims_flanagan> make_leg(const Op &op)
{
    if (op.D.empty()) {
        InLib l;
        return std::make_unique<kep3::leg::sims_flanagan>();
    }
    const LegArgs a = leg_args(op);
    std::vector<double> th = a.th;
    InLib l;
    return std::make_unique<kep3::leg::sims_flanagan>(a.rvs, a.ms, std::move(th), a.rvf, a.mf, a.tof, a.max_thrust,
                                                      a.isp, a.mu, a.cut);
}

template <typename T>
static std::string save_bin(const T &t)
{
    InLib l;
    std::ostringstream o;
    {
        boost::archive::binary_oarchive a(o);
        a << t;
    }
    return o.str();
}

static void lambert_getters(const kep3::lambert_problem &l, Blob &b)
{
    InLib s;
    const auto &v0 = l.get_v0();
    const auto &v1 = l.get_v1();
    const auto &x = l.get_x();
    const auto &it = l.get_iters();
    const auto &r0 = l.get_r0();
    const auto &r1 = l.get_r1();
    const double tof = l.get_tof(), mu = l.get_mu();
    const unsigned n = l.get_Nmax();
    s.leave();
    b.u(n);
    b.u(v0.size());
    for (auto &v : v0) {
        b.ds(v);
    }
    b.u(v1.size());
    for (auto &v : v1) {
        b.ds(v);
    }
    b.ds(x);
    b.u(it.size());
    for (unsigned i : it) {
        b.u(i);
    }
    b.ds(r0);
    b.ds(r1);
    b.d(tof);
    b.d(mu);
}

static void lambert_copy(const kep3::lambert_problem &l, const kep3::lambert_problem &c, Blob &b, const char *what)
{
    Blob want, got;
    lambert_getters(l, want);
    lambert_getters(c, got);
    must_equal(want, got, what);
    b.raw(got.b.data(), got.b.size());
    b.txt += got.txt;
}

void obs_lambert(const kep3::lambert_problem &l, Blob &b, long which)
{
    count(UC_QUERY);
    switch (which % NQ_LAMBERT) {
        case 0:
            lambert_getters(l, b);
            break;
        case 1: {
            InLib s;
            std::ostringstream o;
            o.imbue(std::locale::classic());
            o << l;
            std::string t = o.str();
            s.leave();
            b.s(t);
            break;
        }
        case 2: {
            InLib s;
            auto c = std::make_unique<kep3::lambert_problem>(l);
            s.leave();
            lambert_copy(l, *c, b, "a copy");
            break;
        }
        case 3:
            b.s(save_bin(l));
            break;
        case 4: {
            InLib s;
            kep3::lambert_problem c;
            c = l;
            s.leave();
            lambert_copy(l, c, b, "an assigned problem");
            obs_lambert(c, b, 1);
            break;
        }
        case 5: { // over another problem, there and back
            InLib s;
            kep3::lambert_problem c({1., 0.1, 0.}, {0.2, 1.3, 0.1}, 30., 1., false, static_cast<unsigned>(which / NQ_LAMBERT) % 5);
            kep3::lambert_problem d(c);
            d = l;
            std::swap(c, d);
            kep3::lambert_problem e(std::move(c));
            d = std::move(e);
            c = d;
            auto &same = d;
            d = same;
            s.leave();
            lambert_copy(l, c, b, "a problem assigned over another");
            lambert_copy(l, d, b, "a problem moved over another");
            break;
        }
        case 6:
            print_full(l, b, static_cast<std::size_t>(which / NQ_LAMBERT % 8 * 90), which / NQ_LAMBERT % 2);
            obs_lambert(l, b, 1);
            break;
        case 7: { // references into two problems, held at the same time
            InLib s;
            const kep3::lambert_problem c({1., 0.1, 0.}, {0.2, 1.3, 0.1}, 3., 1., false, 0);
            const auto *p = &c;
            for (const auto *q : {&l, p, &l}) {
                const auto &v0 = l.get_v0();
                const auto &x = l.get_x();
                const auto &r = p->get_r0();
                const auto &w0 = q->get_v0();
                const auto &w1 = q->get_v1();
                const auto &n = p->get_iters();
                static_cast<void>(p->get_v0());
                s.leave();
                b.u(v0.size());
                for (auto &v : v0) {
                    b.ds(v);
                }
                for (auto &v : w0) {
                    b.ds(v);
                }
                for (auto &v : w1) {
                    b.ds(v);
                }
                b.ds(x);
                b.ds(r);
                b.u(n.size());
                s.again();
            }
            break;
        }
        case 8: { // a copy that outlives its source
            InLib s;
            auto c = std::make_unique<kep3::lambert_problem>(l);
            kep3::lambert_problem d(*c);
            c.reset();
            s.leave();
            lambert_copy(l, d, b, "a copy that outlives its source");
            break;
        }
        default: {
            const std::string t = save_bin(l);
            InLib s;
            kep3::lambert_problem c;
            {
                std::istringstream i(t);
                boost::archive::binary_iarchive a(i);
                a >> c;
            }
            s.leave();
            lambert_copy(l, c, b, "a restored problem");
        }
    }
}
void obs_lambert_all(const kep3::lambert_problem &l, Blob &b)
{
    obs_lambert(l, b, 0);
    obs_lambert(l, b, 1);
    obs_lambert(l, b, 3);
}

void leg_getters(const kep3::leg::sims_flanagan &l, Blob &b)
{
    InLib s;
    const RV &rvs = l.get_rvs();
    const RV &rvf = l.get_rvf();
    const auto &th = l.get_throttles();
    const double v[] = {l.get_ms(), l.get_mf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut()};
    const unsigned n[] = {l.get_nseg(), l.get_nseg_fwd(), l.get_nseg_bck()};
    s.leave();
    put_rv(b, rvs);
    put_rv(b, rvf);
    b.ds(th);
    for (double x : v) {
        b.d(x);
    }
    for (unsigned x : n) {
        b.u(x);
    }
}

static void leg_copy(const kep3::leg::sims_flanagan &l, const kep3::leg::sims_flanagan &c, Blob &b, const char *what)
{
    Blob want, got;
    leg_getters(l, want);
    obs_leg(l, want, 1);
    leg_getters(c, got);
    obs_leg(c, got, 1);
    must_equal(want, got, what);
    b.raw(got.b.data(), got.b.size());
    b.txt += got.txt;
}

void obs_leg(const kep3::leg::sims_flanagan &l, Blob &b, long which, const Op *alt)
{
    count(UC_QUERY);
    const long vary = which / NQ_LEG;
    which %= NQ_LEG;
    if (which == 3 && l.get_nseg() > 40) {
        which = 1; // the cost of this gradient grows with the square of the number of segments
    }
    switch (which) {
        case 0:
            leg_getters(l, b);
            break;
        case 1: {
            InLib s;
            auto r = l.compute_mismatch_constraints();
            s.leave();
            b.ds(r);
            break;
        }
        case 2: {
            InLib s;
            auto r = l.compute_throttle_constraints();
            s.leave();
            b.ds(r);
            break;
        }
        case 3: {
            InLib s;
            auto r = l.compute_mc_grad();
            s.leave();
            b.ds(std::get<0>(r));
            b.ds(std::get<1>(r));
            b.ds(std::get<2>(r));
            break;
        }
        case 4: {
            InLib s;
            auto r = l.compute_tc_grad();
            s.leave();
            b.ds(r);
            break;
        }
        case 5: {
            InLib s;
            std::ostringstream o;
            o.imbue(std::locale::classic());
            o << l;
            std::string t = o.str();
            s.leave();
            b.s(t);
            break;
        }
        case 9: { // over another leg, there and back
            InLib s;
            kep3::leg::sims_flanagan c({{{1., 0.1, 0.}, {0., 1., 0.1}}}, 1., std::vector<double>(3 * (1 + static_cast<std::size_t>(vary) % 5), 0.1),
                                       {{{0.9, 0.3, 0.}, {-.2, 1., 0.1}}}, 0.9, 1., 0.1, 1., 1., 0.25 * static_cast<double>(vary % 5));
            kep3::leg::sims_flanagan d(c);
            d = l;
            std::swap(c, d);
            kep3::leg::sims_flanagan e(std::move(c));
            d = std::move(e);
            c = d;
            auto &same = d;
            d = same;
            s.leave();
            leg_copy(l, c, b, "a leg assigned over another");
            leg_copy(l, d, b, "a leg moved over another");
            break;
        }
        case 10:
            print_full(l, b, static_cast<std::size_t>(vary % 8 * 100), vary % 2);
            obs_leg(l, b, 5);
            break;
        case 11: { // references into two legs, held at the same time
            InLib s;
            kep3::leg::sims_flanagan c(l);
            c.set_throttles(std::vector<double>(6, 0.25));
            c.set_rvs({{{1., 0.1, 0.}, {0., 1., 0.1}}});
            const auto &t1 = l.get_throttles();
            const auto &t2 = c.get_throttles();
            const auto &s1 = l.get_rvs();
            const auto &s2 = c.get_rvs();
            const auto &f1 = l.get_rvf();
            const auto &f2 = c.get_rvf();
            static_cast<void>(c.compute_mismatch_constraints());
            s.leave();
            b.ds(t1);
            b.ds(t2);
            for (const auto *q : {&s1, &s2, &f1, &f2}) {
                put_rv(b, *q);
            }
            break;
        }
        case 6:
            b.s(save_bin(l));
            break;
        case 7: {
            InLib s;
            kep3::leg::sims_flanagan c;
            c = l;
            s.leave();
            leg_copy(l, c, b, "an assigned leg");
            break;
        }
        default: {
            // private copy, modified while others read the original
            InLib s;
            auto c = std::make_unique<kep3::leg::sims_flanagan>(l);
            std::vector<double> th(6, 0.25);
            c->set_throttles(th);
            c->set_tof(c->get_tof() * 0.5);
            c->set_cut(0.25);
            if (alt) {
                c->set_ms(2. * c->get_ms());
            }
            s.leave();
            leg_getters(*c, b);
            obs_leg(*c, b, 1);
        }
    }
}
void obs_leg_all(const kep3::leg::sims_flanagan &l, Blob &b, bool grads)
{
    obs_leg(l, b, 0);
    obs_leg(l, b, 1);
    obs_leg(l, b, 2);
    obs_leg(l, b, 4);
    if (grads) {
        obs_leg(l, b, 3);
    }
}

// A long history: I = {calls, seed, kind of the base operation, its I...}, D = its D.
// Nothing is compared here; what comes afterwards is.
static void exec_burst(const Op &op, Blob &b)
{
    Rng r(static_cast<u64>(op.I[1]));
    Op base;
    base.kind = static_cast<int>(op.I[2]);
    base.I.assign(op.I.begin() + 3, op.I.end());
    base.D = op.D;
    if (op.I[1] == 0) {
        Blob first;
        exec_pure(base, first);
        Blob x;
        for (long k = 1; k < op.I[0]; ++k) {
            x.clear();
            exec_pure(base, x);
            count(UC_BURST);
            sim::call_returned();
            if (x != first) {
                sim::violate("result-mismatch",
                             "call %ld of a series of identical calls (%s) gave a different result.\n first: %.900s\n now: %.900s",
                             k + 1, kind_name(base.kind), first.txt.c_str(), x.txt.c_str());
            }
        }
        b = first;
        return;
    }
    Blob x;
    for (long k = 0; k < op.I[0]; ++k) {
        const Op o = base.kind == K_NONE ? gen_cheap(r) : neighbour(base, r);
        x.clear();
        exec_pure(o, x);
        count(UC_BURST);
        sim::call_returned();
        sim::hash_bytes(x.b.data(), x.b.size());
    }
    b.tag("burst");
}

static struct Reg {
    Reg()
    {
        add_exec(K_BURST, exec_burst);
        for (int k = 0; k < K_COUNT; ++k) {
            if (is_pure(k)) {
                add_exec(k, exec_pure);
            }
        }
    }
} reg;
} // namespace h
