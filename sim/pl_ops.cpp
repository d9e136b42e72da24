// Planets: execution and oracles.  Instrumented.
#include "pl_ops.hpp"
#include "objs_base.hpp"
#include "scen.hpp"
#include <array>
#include <map>
#include <sstream>

#include <boost/serialization/array.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <kep3/udpla/vsop2013.hpp>

namespace h
{
// ---- planets written by a user -------------------------------------------------------------
struct UserError : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Odd { // not a std::exception at all
    double t;
};
template <typename E>
[[noreturn]] void toss_as(const char *m)
{
    throw E(m);
}
[[noreturn]] void toss(double t, double who, const char *m)
{
    u64 x = 0, y = 0;
    std::memcpy(&x, &t, sizeof x);
    std::memcpy(&y, &who, sizeof y);
    const Tossed n{1, static_cast<int>(sim::mix(x, y) % 10), m};
    set_tossed(n);
    switch (n.kind) {
        case 0:
            toss_as<std::out_of_range>(m);
        case 1:
            toss_as<std::domain_error>(m);
        case 2:
            toss_as<std::invalid_argument>(m);
        case 3:
            toss_as<kep3::not_implemented_error>(m);
        case 4:
            toss_as<std::runtime_error>(m);
        case 5:
            toss_as<std::length_error>(m);
        case 6:
            throw Odd{t};
        default:
            toss_as<UserError>(m);
    }
}
const std::type_info &type_of(const Tossed &n)
{
    switch (n.kind) {
        case 0:
            return typeid(std::out_of_range);
        case 1:
            return typeid(std::domain_error);
        case 2:
            return typeid(std::invalid_argument);
        case 3:
            return typeid(kep3::not_implemented_error);
        case 4:
            return typeid(std::runtime_error);
        case 5:
            return typeid(std::length_error);
        case 6:
            return typeid(Odd);
        default:
            return typeid(UserError);
    }
}
using RV = std::array<std::array<double, 3>, 2>;
// nothing but ephemerides
struct UMin {
    double x = 1;
    std::vector<double> tab{1., 2., 3.};
    RV eph(double t) const
    {
        if (t > 9000) {
            toss(t, x, "no ephemeris that late: the table of this planet ends before");
        }
        return {{{x * (1 + t * 1e-4), tab[0], tab[1]}, {tab[2], x, t}}};
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &x;
        ar &tab;
    }
};
// ephemerides and a central body
struct UMu {
    double x = 1, mu = 1;
    std::string name = "a planet whose name does not fit into the string object";
    RV eph(double t) const
    {
        if (t < -9000) {
            toss(t, x, "no ephemeris that early");
        }
        return {{{x, 0.1 * t * 1e-4, 0.2}, {-.1, std::sqrt(mu / x) * 0.9, 0.1}}};
    }
    double get_mu_central_body() const
    {
        return mu;
    }
    std::string get_name() const
    {
        return name;
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &x;
        ar &mu;
        ar &name;
    }
};
// everything
struct UFull {
    double x = 1, mu = 1, self = 2, rad = 3, safe = 4;
    std::string name = "full";
    std::vector<double> cal{1, 2, 3, 4, 5, 6};
    RV eph(double t) const
    {
        return {{{x, t, 1}, {2, 3, x * t}}};
    }
    std::vector<double> eph_v(const std::vector<double> &t) const
    {
        if (t.size() > 3) {
            toss(t[1], x, "too many dates at once");
        }
        std::vector<double> r;
        for (double v : t) {
            r.push_back(v);
            r.push_back(x);
        }
        return r;
    }
    double get_mu_central_body() const
    {
        return mu;
    }
    double get_mu_self() const
    {
        return self;
    }
    double get_radius() const
    {
        return rad;
    }
    double get_safe_radius() const
    {
        return safe;
    }
    std::string get_name() const
    {
        return name + " planet";
    }
    std::string get_extra_info() const
    {
        return "calibration of " + name + " " + std::to_string(cal.size());
    }
    double period(double t) const
    {
        return x + t;
    }
    std::array<double, 6> elements(double t, kep3::elements_type e) const
    {
        if (e == kep3::elements_type::MEQ_R) {
            toss(t, x, "no retrograde elements here");
        }
        return {t, x, mu, self, rad, cal[0]};
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &x;
        ar &mu;
        ar &self;
        ar &rad;
        ar &safe;
        ar &name;
        ar &cal;
    }
};
} // namespace h
TANUKI_S11N_WRAP_EXPORT(h::UMin, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(h::UMu, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(h::UFull, kep3::detail::planet_iface)

namespace h
{
namespace
{
using kep3::planet;
// An exception of a user's class has to arrive here, and as it was.
template <typename F>
void guarded(Blob &b, F &&f)
{
    const Tossed before = set_tossed(Tossed());
    try {
        f();
        const Tossed n = set_tossed(before);
        if (n.n) {
            sim::violate("lost-exception", "a user's class threw (%s: \"%s\"), and the caller was told nothing",
                         type_of(n).name(), n.msg);
        }
    } catch (const Odd &o) {
        b.tag("odd");
        b.d(o.t);
        count(UC_UDPTHROW);
        const Tossed n = set_tossed(before);
        if (n.kind != 6) {
            sim::violate("lost-exception", "a user's class threw %s, and something else arrived", type_of(n).name());
        }
    } catch (const std::exception &e) {
        rec_exc(b, e);
        const Tossed n = set_tossed(before);
        if (n.n) {
            count(UC_UDPTHROW);
            if (!b.is_bad_alloc && (typeid(e) != type_of(n) || std::strcmp(n.msg, e.what()) != 0)) {
                sim::violate("lost-exception", "a user's class threw %s \"%s\", what arrived was %s \"%s\"",
                             type_of(n).name(), n.msg, typeid(e).name(), e.what());
            }
        }
    }
}
const char *const pl_names[] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto", "vulcan"};
std::string pl_name(long sub, bool vsop)
{
    std::string s = pl_names[(sub & 15) % 10];
    if (vsop && s == "earth") {
        s = "earth_moon";
    }
    if (sub & 16) {
        s[0] = static_cast<char>(s[0] - 32);
        s[2] = static_cast<char>(s[2] - 32);
    }
    return s;
}
struct PlArgs {
    long type = 0, sub = 0;
    std::vector<double> d;
};
PlArgs pl_args(const Op &o, std::size_t i0 = 0)
{
    PlArgs a;
    a.type = o.I.at(i0);
    a.sub = o.I.at(i0 + 1);
    a.d = o.D;
    a.d.resize(PD_N, 0.);
    return a;
}
kep3::epoch at_mjd(double t)
{
    return kep3::epoch(t, kep3::epoch::julian_type::MJD2000);
}
RV rv_of(const PlArgs &a)
{
    RV s;
    for (std::size_t k = 0; k < 6; ++k) {
        s[k / 3][k % 3] = a.d[PD_RV + k];
    }
    return s;
}
std::string kep_name(long sub)
{
    const std::string plain = (sub & 64) ? "An asteroid with a name that is too long for a short string" : "Rock";
    switch (sub / 8 & 7) {
        case 0:
            return plain;
        case 1:
            return "";
        case 2:
            return std::string((sub & 128) ? 70000 : 200 + static_cast<std::size_t>(sub & 7) * 40, 'n');
        case 3:
            return std::string("\0a\0", 3) + plain;
        case 4:
            return plain + "\n two lines\r\t\x1a\xff\xc3\xa9";
        case 5:
            return "  {} %s " + plain + "  ";
        case 6:
            return std::string(static_cast<std::size_t>(sub & 7), ' ');
        default:
            return std::string(14 + static_cast<std::size_t>(sub & 3), 'x'); // around the size of the string's own buffer
    }
}
kep3::udpla::keplerian mk_kep(const PlArgs &a)
{
    const auto &d = a.d;
    const std::array<double, 3> add{d[PD_SELF], d[PD_RAD], d[PD_SAFE]};
    const std::string name = kep_name(a.sub);
    if (a.type == PT_KEP_RV) {
        return kep3::udpla::keplerian(at_mjd(d[PD_T0]), rv_of(a), d[PD_MU], name, add);
    }
    std::array<double, 6> el;
    for (std::size_t k = 0; k < 6; ++k) {
        el[k] = d[PD_RV + k];
    }
    return kep3::udpla::keplerian(at_mjd(d[PD_T0]), el, d[PD_MU], name, add, static_cast<kep3::elements_type>(a.sub & 7));
}
UMin mk_min(const PlArgs &a)
{
    UMin u;
    u.x = a.d[PD_X];
    u.tab = {a.d[PD_MU], a.d[PD_SELF], a.d[PD_RAD]};
    u.tab.resize(3 + static_cast<std::size_t>(a.sub & 63) * ((a.sub & 128) ? 40 : 1), 0.5);
    return u;
}
UMu mk_mu(const PlArgs &a)
{
    UMu u;
    u.x = a.d[PD_X];
    u.mu = a.d[PD_MU];
    return u;
}
UFull mk_full(const PlArgs &a)
{
    UFull u;
    u.x = a.d[PD_X];
    u.mu = a.d[PD_MU];
    u.self = a.d[PD_SELF];
    u.rad = a.d[PD_RAD];
    u.safe = a.d[PD_SAFE];
    u.cal.assign(1 + static_cast<std::size_t>(a.sub & 63) * ((a.sub & 128) ? 40 : 1), a.d[PD_T0]);
    if (a.sub & 64) {
        u.name = "a very long name of a user defined planet with everything";
    }
    return u;
}
// inside the library
planet build(const PlArgs &a)
{
    switch (a.type) {
        case PT_KEP_RV:
        case PT_KEP_EL:
            return planet(mk_kep(a));
        case PT_JPL:
            return planet(kep3::udpla::jpl_lp(pl_name(a.sub, false)));
        case PT_VSOP:
            return planet(kep3::udpla::vsop2013(pl_name(a.sub, true), a.d[PD_X]));
        case PT_MIN:
            return planet(mk_min(a));
        case PT_MU:
            return planet(mk_mu(a));
        case PT_FULL:
            return planet(mk_full(a));
        default:
            return planet();
    }
}
std::unique_ptr<planet> fresh(const PlArgs &a)
{
    InLib l;
    return std::make_unique<planet>(build(a));
}
const double q_times[NT_PL] = {0., 1234.5, -5000.25, 0.015625, 9000.5, -9876.5, 20000., 13., -80000., 1234.5 + 0x1p-42, 1e6, -0x1p-40};

void put(Blob &b, const RV &s)
{
    for (auto &v : s) {
        b.ds(v);
    }
}
struct Printed {
    const planet *p;
    friend std::ostream &operator<<(std::ostream &o, const Printed &x)
    {
        return kep3::detail::operator<<(o, *x.p);
    }
};
// the same answers, or the same refusals
void same_planet(const planet &p, const planet &c, double t, const char *what)
{
    Blob x[2];
    for (int k = 0; k < 2; ++k) {
        const planet &q = k ? c : p;
        guarded(x[k], [&] {
            x[k].s(q.get_name());
            x[k].s(q.get_extra_info());
            x[k].s(tanuki::value_type_index(q).name());
            for (double v : {q.get_mu_central_body(), q.get_mu_self(), q.get_radius(), q.get_safe_radius()}) {
                x[k].d(v);
            }
            put(x[k], q.eph(t));
        });
    }
    if (!x[0].is_bad_alloc && !x[1].is_bad_alloc) {
        must_equal(x[0], x[1], what);
    }
}
void pl_query_raw(const planet &p, Blob &b, long which)
{
    const double t = q_times[(which / NQ_PL) % NT_PL];
    switch (which % NQ_PL) {
        case 0:
            b.tag("eph");
            put(b, p.eph(t));
            break;
        case 1: {
            b.tag("eph_v");
            static const std::size_t len[] = {0, 1, 2, 3, 4, 9, 33, 150};
            const long idx = which / NQ_PL;
            std::vector<double> ts(len[idx % 8], t);
            for (std::size_t k = 0; k < ts.size(); ++k) { // rising, or falling with repetitions
                ts[k] += idx & 8 ? -10. * static_cast<double>(k % 7) : 10. * static_cast<double>(k);
            }
            b.ds(p.eph_v(ts));
            break;
        }
        case 2:
            b.tag("period");
            b.d(p.period(t));
            break;
        case 3:
        case 4:
        case 5:
        case 6: {
            b.tag("elements");
            static const kep3::elements_type ty[] = {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M, kep3::elements_type::MEQ,
                                                     kep3::elements_type::MEQ_R};
            b.ds(p.elements(t, ty[which % NQ_PL - 3]));
            break;
        }
        case 7:
            b.tag("getters");
            for (double v : {p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius()}) {
                b.d(v);
            }
            b.s(p.get_name());
            break;
        case 8: {
            b.tag("print");
            if (which / NQ_PL % 3 == 1) { // first to a stream that breaks down
                print_full(Printed{&p}, b, static_cast<std::size_t>(which / NQ_PL % 7 * 40), which & 1);
            }
            std::ostringstream s;
            s.imbue(std::locale::classic());
            kep3::detail::operator<<(s, p);
            b.s(s.str());
            break;
        }
        case 9: {
            b.tag("save");
            std::ostringstream s;
            {
                boost::archive::binary_oarchive a(s);
                a << p;
            }
            const std::string x = s.str();
            b.u(x.size());
            b.raw(x.data(), x.size());
            break;
        }
        case 10: {
            b.tag("copy");
            planet c(p);
            planet d(std::move(c));
            c = d;
            same_planet(p, c, t, "a planet assigned from a copy");
            same_planet(p, d, t, "a planet moved from a copy");
            b.s(c.get_name());
            put(b, c.eph(t));
            put(b, d.eph(t));
            break;
        }
        case 11: {
            b.tag("at epoch");
            const kep3::epoch e = at_mjd(t);
            put(b, p.eph(e));
            b.d(p.period(e));
            b.ds(p.elements(e, kep3::elements_type::KEP_F));
            break;
        }
        case 12: {
            b.tag("extract");
            planet c(p);
            if (auto *k = c.extract<kep3::udpla::keplerian>()) {
                b.d(k->get_ref_epoch().mjd2000());
                put(b, k->eph(t));
                b.ds(k->elements(t));
                b.d(k->period());
                b.s(k->get_name());
            } else if (auto *j = c.extract<kep3::udpla::jpl_lp>()) {
                b.s(j->get_name());
                put(b, j->eph(t));
                b.ds(j->elements(t));
            } else if (auto *v = c.extract<kep3::udpla::vsop2013>()) {
                b.s(v->get_name());
                kep3::udpla::vsop2013 w(*v);
                *v = w;
                put(b, w.eph(t));
                put(b, v->eph(t));
            } else if (auto *f = c.extract<UFull>()) {
                b.s(f->name);
                b.ds(f->cal);
            } else if (auto *u = c.extract<UMin>()) {
                b.d(u->x);
                b.ds(u->tab);
            } else if (auto *m = c.extract<UMu>()) {
                b.d(m->x);
                b.s(m->name);
            }
            break;
        }
        case 13: {
            b.tag("flyby");
            const double s = 1000. + t;
            const std::array<double, 3> vi{s, 2000., -500.}, vo{-1200., s, 900.};
            const auto r = kep3::fb_con(vi, vo, p);
            b.d(r.first);
            b.d(r.second);
            b.d(kep3::fb_dv(vi, vo, p));
            break;
        }
        default:
            b.tag("extra");
            b.s(p.get_extra_info());
            b.s(tanuki::value_type_index(p).name());
    }
}
void pl_query(const planet &p, Blob &b, long which)
{
    guarded(b, [&] {
        InLib l;
        pl_query_raw(p, b, which);
    });
}
void pl_all(const planet &p, Blob &b)
{
    for (long w = 0; w < 2 * NQ_PL; ++w) {
        Blob x;
        pl_query(p, x, w);
        b.raw(x.b.data(), x.b.size());
        if (w < NQ_PL) {
            b.txt += x.txt;
        }
    }
}
// a planet built, used and thrown away
void ex_planet(const Op &op, Blob &b)
{
    guarded(b, [&] {
        const PlArgs a = pl_args(op);
        InLib l;
        const planet p = build(a);
        pl_query_raw(p, b, op.I.at(2));
    });
}
void ex_flyby(const Op &op, Blob &b)
{
    guarded(b, [&] {
        const auto &d = op.D;
        const std::array<double, 3> a{d.at(0), d.at(1), d.at(2)}, c{d.at(3), d.at(4), d.at(5)};
        InLib l;
        b.tag("flyby");
        const auto r = kep3::fb_con(a, c, d.at(6), d.at(7));
        b.d(r.first);
        b.d(r.second);
        b.d(kep3::fb_dv(a, c, d.at(6), d.at(7)));
        b.ds(kep3::fb_vout(a, c, d.at(7), d.at(8), d.at(6)));
    });
}

// ---- objects -----------------------------------------------------------------------------------
struct PlanetObj final : ObjOf<planet> {
    long nq() const override
    {
        return NQ_PL;
    }
    bool q_may_fail_alloc(long w) const override
    {
        return w % NQ_PL != 8 && w % NQ_PL != 9; // streams swallow exceptions
    }
    void obs(Blob &b, long w) const override
    {
        pl_query(*p, b, w);
    }
    void obs_all(Blob &b) const override
    {
        pl_all(*p, b);
    }
    void mutate(long s) override
    {
        InLib l;
        if (auto *u = p->extract<UFull>()) {
            u->x += 1;
            u->cal.push_back(static_cast<double>(s));
        } else if (auto *m = p->extract<UMin>()) {
            m->tab.at(0) += 1;
        } else if (s & 1) {
            planet c(*p);
            *p = std::move(c);
        } else {
            planet c;
            c = *p;
            *p = planet();
            swap(*p, c);
        }
    }
};
// a planet class stored by itself
template <typename U>
struct UdObj final : ObjOf<U> {
    long nq() const override
    {
        return NQ_PL;
    }
    bool q_may_fail_alloc(long w) const override
    {
        return w % NQ_PL != 8 && w % NQ_PL != 9;
    }
    void obs(Blob &b, long w) const override
    {
        guarded(b, [&] {
            InLib l;
            const planet q(*this->p);
            pl_query_raw(q, b, w);
        });
    }
    void obs_all(Blob &b) const override
    {
        std::unique_ptr<planet> q;
        {
            InLib l;
            q = std::make_unique<planet>(*this->p);
        }
        pl_all(*q, b);
        InLib l;
        q.reset();
    }
    void mutate(long) override
    {
        InLib l;
        U c(*this->p);
        U d(std::move(c));
        c = d;
        *this->p = std::move(c);
    }
    std::unique_ptr<Obj> fallback() const override
    {
        if constexpr (std::is_same_v<U, kep3::udpla::vsop2013>) { // resets itself to the default
            auto o = std::make_unique<UdObj<U>>();
            InLib l;
            o->p = std::make_unique<U>();
            return o;
        }
        return nullptr;
    }
};
std::unique_ptr<Obj> mk_planet(const Op &op)
{
    auto o = std::make_unique<PlanetObj>();
    o->p = fresh(pl_args(op));
    return o;
}
template <typename U, typename F>
std::unique_ptr<Obj> mk_ud(F f)
{
    auto o = std::make_unique<UdObj<U>>();
    InLib l;
    o->p = std::make_unique<U>(f());
    return o;
}
std::unique_ptr<Obj> mk_okep(const Op &op)
{
    return mk_ud<kep3::udpla::keplerian>([&] { return mk_kep(pl_args(op)); });
}
std::unique_ptr<Obj> mk_ojpl(const Op &op)
{
    return mk_ud<kep3::udpla::jpl_lp>([&] { return kep3::udpla::jpl_lp(pl_name(op.I.at(1), false)); });
}
std::unique_ptr<Obj> mk_ovsop(const Op &op)
{
    return mk_ud<kep3::udpla::vsop2013>([&] { return kep3::udpla::vsop2013(pl_name(op.I.at(1), true), op.D.at(PD_X)); });
}
struct Reg {
    Reg()
    {
        add_obj_kind(K_OBJ_PLANET, mk_planet);
        add_obj_kind(K_OBJ_KEP, mk_okep);
        add_obj_kind(K_OBJ_JPL, mk_ojpl);
        add_obj_kind(K_OBJ_VSOP, mk_ovsop);
        add_exec(K_PLANET, ex_planet);
        add_exec(K_FLYBY, ex_flyby);
    }
} reg;

// ---- histories -----------------------------------------------------------------------------------
// CTOR    I = slot, type, sub                   D = arguments
// COPY    I = slot, source slot, how            construct, assign, swap
// MOVE    I = slot, source slot, how
// SET_ALL I = slot                              change the user's planet inside: D = x
// PL_CALL I = slot, query
// QUERY   I = shared planet, query
// PLANET  I = type, sub, query                  D = arguments
struct Slot {
    std::unique_ptr<planet> p;
    PlArgs a;
};
struct PlCtx {
    const Plan *p;
    const std::vector<Blob> *refs;
    std::map<long, std::unique_ptr<Obj>> defs;
    std::map<int, std::map<long, Slot>> slots;
};
void compare(PlCtx *c, std::size_t i, const PlArgs &a, const planet &p, long which, const char *what)
{
    Blob want, got;
    pl_query(p, got, which);
    auto f = fresh(a);
    pl_query(*f, want, which);
    {
        InLib l;
        f.reset();
    }
    count(UC_MODELCMP);
    sim::hash_bytes(got.b.data(), got.b.size());
    if (want != got) {
        mismatch("state-mismatch", what, *c->p, i, want, got);
    }
}
void pl_step(void *ctx, std::size_t i)
{
    auto *c = static_cast<PlCtx *>(ctx);
    const Op &op = c->p->ops[i];
    count(UC_OPS);
    if (op.kind == K_QUERY || op.kind == K_PLANET || op.kind == K_FLYBY) {
        Blob got;
        const long q = op.kind == K_QUERY ? op.I.at(1) : op.kind == K_PLANET ? op.I.at(2) : 0;
        const bool fail = op.fail && (op.kind == K_FLYBY || (q % NQ_PL != 8 && q % NQ_PL != 9));
        if (fail) {
            sim::arm_alloc(fail_at(op, (*c->refs)[i]));
        }
        if (op.kind == K_QUERY) {
            auto it = c->defs.find(op.I.at(0));
            count(UC_QUERY);
            if (it == c->defs.end() || !it->second) {
                got.tag("null");
            } else {
                got.tag("query");
                it->second->obs(got, q);
            }
        } else {
            find_exec(op.kind)(op, got);
        }
        const bool fired = fail && sim::alloc_fired();
        sim::arm_alloc(0);
        count(UC_COMPARED);
        sim::hash_bytes(got.b.data(), got.b.size());
        if (got.is_exc && !got.is_bad_alloc) {
            count(UC_REJECTED);
        }
        if (fired && got.is_bad_alloc) {
            count(UC_BADALLOC);
        } else if (got != (*c->refs)[i]) {
            mismatch("result-mismatch", "compared with the same call made alone in a fresh process", *c->p, i, (*c->refs)[i], got);
        }
        return;
    }
    auto &slots = c->slots.find(op.thr)->second;
    const long s = op.I.at(0);
    Slot &sl = slots[s];
    if (op.kind == K_PL_CALL) {
        if (sl.p) {
            count(UC_QUERY);
            compare(c, i, sl.a, *sl.p, op.I.at(1), "compared with a new planet of the same values");
        }
    } else {
        bool oom = false;
        std::string err;
        PlArgs na = sl.a;
        Slot *src = nullptr;
        count(UC_SETTER);
        if (op.fail) {
            sim::arm_alloc(fail_at(op, Blob{}));
        }
        try {
            if (op.kind == K_CTOR) {
                na = pl_args(op, 1);
                auto n = fresh(na);
                InLib l;
                if (sl.p && (op.fail & 1)) {
                    *sl.p = std::move(*n);
                } else {
                    sl.p = std::move(n);
                }
            } else if (op.kind == K_COPY || op.kind == K_MOVE) {
                const auto it = slots.find(op.I.at(1));
                if (it != slots.end() && it->second.p) {
                    src = &it->second;
                    na = src->a;
                    InLib l;
                    const long how = op.I.at(2);
                    if (op.kind == K_COPY) {
                        if (!sl.p || how == 0) {
                            auto n = std::make_unique<planet>(*src->p);
                            sl.p = std::move(n);
                        } else if (how == 1) {
                            *sl.p = *src->p;
                        } else {
                            planet t;
                            t = *src->p;
                            swap(*sl.p, t);
                        }
                    } else if (src != &sl) {
                        planet t(std::move(*src->p));
                        if (sl.p) {
                            *sl.p = std::move(t);
                        } else {
                            sl.p = std::make_unique<planet>(std::move(t));
                        }
                    }
                }
            } else if (op.kind == K_SET_ALL && sl.p) { // a user changes his own class through extract
                InLib l;
                if (auto *f = sl.p->extract<UFull>()) {
                    f->x = op.D.at(0);
                    na.d[PD_X] = op.D.at(0);
                } else if (auto *m = sl.p->extract<UMin>()) {
                    m->x = op.D.at(0);
                    na.d[PD_X] = op.D.at(0);
                }
            }
        } catch (const std::bad_alloc &) {
            oom = true;
            count(UC_BADALLOC);
        } catch (const std::exception &e) {
            err = e.what();
            count(UC_REJECTED);
        }
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        sim::hash_bytes(&oom, 1);
        if (oom && !fired) {
            sim::violate("result-mismatch", "op %zu reported bad_alloc without a failed allocation", i);
        }
        if (!oom && err.empty()) {
            sl.a = na;
            if (op.kind == K_MOVE && src && src != &sl) {
                src->p.reset(); // moved from
            }
        } else if (op.kind == K_MOVE && src && src != &sl) {
            src->p.reset();
            if (!sl.p) {
                sl.a = PlArgs{};
            }
        } else if (op.kind == K_CTOR && !oom) { // a rejected construction is one in any process
            bool again = false;
            try {
                auto n = fresh(na);
            } catch (const std::exception &) {
                again = true;
            }
            if (!again) {
                sim::violate("rejected", "op %zu: a construction was rejected (%.200s) and then accepted", i, err.c_str());
            }
        }
    }
    // nothing else changed
    long k = 0;
    for (auto &kv : slots) {
        if (kv.second.p && kv.second.p.get()) {
            static const long w[] = {0, 7, 3, 12, 2, 0 + NQ_PL, 14};
            compare(c, i, kv.second.a, *kv.second.p, w[(static_cast<std::size_t>(k++) + i) % 7],
                    kv.first == s ? "the planet after the operation" : "another planet after the operation");
        }
    }
}
} // namespace
bool pl_needs_ref(const Plan &p, std::size_t i)
{
    const Op &o = p.ops[i];
    return o.thr >= 0 && (o.kind == K_QUERY || o.kind == K_PLANET || o.kind == K_FLYBY);
}
void pl_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    sim::paint_stack(p.garbage);
    PlCtx c{&p, &refs, {}, {}};
    long n = 0;
    for (auto &o : p.ops) {
        if (o.thr < 0) {
            c.defs[n++] = make_obj(o);
        }
    }
    for (int t = 0; t < 101; ++t) {
        c.slots[t];
    }
    each(p, 0, pl_step, &c);
    run_workers(p, 0, p.ops.size(), pl_step, &c);
    each(p, 100, pl_step, &c);
}
} // namespace h
