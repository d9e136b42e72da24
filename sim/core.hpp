// Operations on the part of kep3 that builds here without stubs.
#pragma once
#include "h.hpp"
#include "kinds.hpp"
#include <array>
#include <memory>
#include <sstream>
#include <typeinfo>

#include <kep3/core_astro/constants.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>

namespace h
{
using V3 = std::array<double, 3>;
using RV = std::array<V3, 2>;

// ---- generation (never calls kep3: the driver process must stay pristine) ----
struct Units {
    double L, mu;
};
Units gen_units(Rng &r);
RV gen_state(Rng &r, const Units &u, int regime); // 0 any, 1 elliptic, 2 hyperbolic
double gen_tof(Rng &r, const RV &s, const Units &u);
Op gen_pure(Rng &r);
double nudge(Rng &r); // a factor close to one
Op gen_cheap(Rng &r); // likewise, without the expensive kinds
Op burst(Rng &r, const Op *base, long n, int thr);
Op neighbour(const Op &o, Rng &r);
Op gen_lambert(Rng &r, int kind);
Op gen_leg(Rng &r, int kind, unsigned max_seg);
void gen_workers(Plan &p, Rng &r, unsigned nthr, std::vector<Op> &ops);

// ---- execution ----
void rec_exc(Blob &b, const std::exception &e);
template <typename F>
void guarded(Blob &b, F &&f)
{
    try {
        f();
    } catch (const std::bad_alloc &e) {
        rec_exc(b, e);
        b.is_bad_alloc = true;
    } catch (const std::exception &e) {
        rec_exc(b, e);
    }
}
void exec_pure(const Op &op, Blob &b);
bool is_pure(int kind);

struct LegArgs {
    RV rvs, rvf;
    double ms = 1, mf = 1, tof = 1, max_thrust = 1, isp = 1, mu = 1, cut = .5;
    std::vector<double> th;
};
LegArgs leg_args(const Op &);
Op leg_op(const LegArgs &, int kind);
bool leg_valid(const LegArgs &);
std::unique_ptr<kep3::lambert_problem> make_lambert(const Op &op);
std::unique_ptr<kep3::leg::sims_flanagan> make_leg(const Op &op);
void put_rv(Blob &b, const RV &rv);
void obs_lambert(const kep3::lambert_problem &l, Blob &b, long which);
constexpr long NQ_LAMBERT = 10;
void obs_leg(const kep3::leg::sims_flanagan &l, Blob &b, long which, const Op *alt = nullptr);
constexpr long NQ_LEG = 12;
void leg_getters(const kep3::leg::sims_flanagan &l, Blob &b);
void leg_model(const LegArgs &a, Blob &b);  // what the getters must report
void obs_leg_all(const kep3::leg::sims_flanagan &l, Blob &b, bool grads);
void obs_lambert_all(const kep3::lambert_problem &l, Blob &b);

} // namespace h
