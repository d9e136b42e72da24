// Integrator caches, Stark problems and high fidelity legs: execution and
// oracles.  Instrumented.
#include "ta_ops.hpp"
#include "objs_base.hpp"
#include "scen.hpp"
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>

#include <boost/serialization/array.hpp>
#include <boost/serialization/vector.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>

namespace h
{
namespace
{
using TA = heyoka::taylor_adaptive<double>;
using A7 = std::array<double, 7>;
using A3 = std::array<double, 3>;

// kep3 prints the state of a failed propagation on standard output
void silence()
{
    const int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) {
        dup2(fd, 1);
        close(fd);
    }
}
template <typename F>
void guarded(Blob &b, F &&f)
{
    const long before = heyoka::stub::failures();
    try {
        f();
    } catch (const std::exception &e) {
        rec_exc(b, e); // told
        heyoka::stub::forget_failures(before);
        return;
    }
    if (heyoka::stub::failures() != before) {
        sim::violate("lost-failure", "an integration did not reach its final time, and the caller was told nothing");
    }
}
// the harness itself integrates: its own business
std::tuple<heyoka::taylor_outcome> own_run(TA &t, double time)
{
    const long before = heyoka::stub::failures();
    const auto o = std::get<0>(t.propagate_until(time));
    heyoka::stub::forget_failures(before);
    return {o};
}

// ---- the caches -------------------------------------------------------------------------
const TA &cache_get(long c, double tol)
{
    InLib l;
    switch (c & 3) {
        case 0:
            return kep3::ta::get_ta_stark(tol);
        case 1:
            return kep3::ta::get_ta_stark_var(tol);
        case 2:
            return kep3::ta::get_ta_cr3bp(tol);
        default:
            return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
std::size_t cache_dim(long c)
{
    InLib l;
    switch (c & 3) {
        case 0:
            return kep3::ta::get_ta_stark_cache_dim();
        case 1:
            return kep3::ta::get_ta_stark_var_cache_dim();
        case 2:
            return kep3::ta::get_ta_cr3bp_cache_dim();
        default:
            return kep3::ta::get_ta_cr3bp_var_cache_dim();
    }
}
bool tol_ok(double t)
{
    return std::isfinite(t) && t >= 0;
}
// everything a user can see of a cached integrator, and what a copy of it computes
void obs_ta(const TA &t, Blob &b)
{
    b.tag("ta");
    b.u(t.get_dim());
    b.u(t.get_n_orig_sv());
    b.d(t.get_tol());
    b.d(t.get_time());
    b.ds(t.get_state());
    b.ds(t.get_pars());
    TA c(t);
    const double x[] = {0.9, 0.1, -0.05, 0.02, 1.05, 0.03, 1.2};
    const auto n = c.get_n_orig_sv();
    for (unsigned i = 0; i < n && i < 7; ++i) {
        c.get_state_data()[i] = x[i];
    }
    for (std::size_t i = 0; i < c.get_pars().size(); ++i) {
        c.get_pars_data()[i] = i < 2 ? 0.5 + 0.25 * static_cast<double>(i) : 0.0625 * static_cast<double>(i);
    }
    c.set_time(0.);
    const auto o = std::get<0>(own_run(c, 0.75));
    b.u(static_cast<u64>(o));
    b.ds(c.get_state());
}
void ex_ta_get(const Op &op, Blob &b)
{
    guarded(b, [&] {
        const TA &t = cache_get(op.I[0], op.D[0]);
        InLib l;
        obs_ta(t, b);
    });
}
// the path a copy of it computes
void ta_path(const TA &t, Blob &b)
{
    TA c(t);
    const double x[] = {0.9, 0.1, -0.05, 0.02, 1.05, 0.03, 1.2}, q[] = {0.5, 0.75, 0.125, -0.0625, 0.25};
    b.u(c.get_n_orig_sv());
    for (unsigned i = 0; i < c.get_n_orig_sv() && i < 7; ++i) {
        c.get_state_data()[i] = x[i];
    }
    b.u(c.get_pars().size());
    for (std::size_t i = 0; i < c.get_pars().size() && i < 5; ++i) {
        c.get_pars_data()[i] = q[i];
    }
    c.set_time(0.);
    b.u(static_cast<u64>(std::get<0>(own_run(c, 0.75))));
    for (unsigned i = 0; i < c.get_n_orig_sv(); ++i) {
        b.d(c.get_state()[i]);
    }
}
// It integrates the public equations of motion, to the tolerance that was asked for.
void ta_right(const TA &t, long ch, double tol)
{
    Blob want, got;
    {
        InLib l;
        const bool st = (ch & 3) < 2;
        const TA own{st ? kep3::ta::stark_dyn() : kep3::ta::cr3bp_dyn(), std::vector<double>(st ? 7 : 6, 1.), heyoka::kw::tol = tol,
                     heyoka::kw::pars = st ? std::vector<double>{1., 1., 0., 0., 0.} : std::vector<double>{0.01}};
        want.d(own.get_tol());
        got.d(t.get_tol());
        want.u(ch & 1);
        got.u(t.get_dim() > t.get_n_orig_sv());
        ta_path(own, want);
        ta_path(t, got);
    }
    must_equal(want, got, "the integrator of a cache");
}
// the equations of motion themselves, for an integrator of the user's own
void ex_ta_dyn(const Op &op, Blob &b)
{
    guarded(b, [&] {
        InLib l;
        const bool st = op.I[0] & 1;
        const TA t{st ? kep3::ta::stark_dyn() : kep3::ta::cr3bp_dyn(), std::vector<double>(st ? 7 : 6, 1.), heyoka::kw::tol = op.D[0],
                   heyoka::kw::pars = st ? std::vector<double>{1., 1., 0., 0., 0.} : std::vector<double>{0.01}};
        obs_ta(t, b);
    });
}

struct Key {
    long c;
    double tol;
    bool operator<(const Key &o) const
    {
        const double x = tol == 0. ? 0. : tol, y = o.tol == 0. ? 0. : o.tol; // no matter the sign
        return c != o.c ? c < o.c : std::memcmp(&x, &y, sizeof x) < 0;
    }
};
struct TaCtx {
    const Plan *p;
    const std::vector<Blob> *refs;
    std::map<Key, const TA *> got; // returned by a completed call
    std::map<int, std::set<Key>> own; // obtained by that thread: using another's reference would need synchronisation
    std::set<Key> started;
};
bool same_or(const Plan &p, std::size_t i, const Blob &want, const Blob &got, bool fired, const char *what)
{
    count(UC_COMPARED);
    sim::hash_bytes(got.b.data(), got.b.size());
    if (fired && got.is_bad_alloc) {
        count(UC_BADALLOC);
        return false;
    }
    if (got.is_exc && !got.is_bad_alloc) {
        count(UC_REJECTED);
    }
    if (want != got) {
        mismatch("result-mismatch", what, p, i, want, got);
    }
    return true;
}
u64 done_in(const TaCtx &c, long cache)
{
    u64 n = 0;
    for (auto &k : c.got) {
        n += k.first.c == cache;
    }
    return n;
}
void ta_step(void *a, std::size_t i)
{
    auto *c = static_cast<TaCtx *>(a);
    const Op &op = c->p->ops[i];
    const long ch = op.I[0] & 3;
    count(UC_OPS);
    if (op.kind == K_TA_DYN) {
        pure_op(*c->p, *c->refs, i);
    } else if (op.kind == K_TA_GET) {
        const Key k{ch, op.D[0]};
        const TA *t = nullptr;
        Blob got;
        if (op.fail) {
            sim::arm_alloc(fail_at(op, (*c->refs)[i]));
        }
        if (tol_ok(k.tol)) {
            c->started.insert(k);
        }
        const bool known = c->got.count(k) != 0;
        guarded(got, [&] {
            t = &cache_get(ch, k.tol);
            count(known ? UC_CACHE_HIT : UC_CACHE_MISS);
            InLib l;
            obs_ta(*t, got);
        });
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        same_or(*c->p, i, (*c->refs)[i], got, fired, "cached integrator, compared with a fresh process");
        if (t && !op.fail && i % 3 == 0) {
            ta_right(*t, ch, k.tol);
        }
        if (t) {
            c->own[op.thr].insert(k);
            auto r = c->got.emplace(k, t);
            if (r.first->second != t) {
                sim::violate("cache-duplicate", "op %zu: the integrator for cache %ld and tolerance %g moved: references to it are not stable", i,
                             ch, k.tol);
            }
        }
    } else if (op.kind == K_TA_USE) {
        const Key k{ch, op.D[0]};
        auto it = c->got.find(k);
        if (it == c->got.end() || (op.thr != 100 && !c->own[op.thr].count(k) && !c->own[0].count(k))) {
            return;
        }
        const TA *t = it->second;
        if (!sim::heap_live(t, sizeof *t)) {
            sim::violate("dangling-reference", "op %zu: the integrator obtained earlier from cache %ld for tolerance %g is gone", i, ch, k.tol);
        }
        Blob got;
        guarded(got, [&] {
            InLib l;
            obs_ta(*t, got);
        });
        same_or(*c->p, i, (*c->refs)[i], got, false, "integrator reference obtained earlier, compared with a fresh process");
    } else if (op.kind == K_TA_DIM) {
        const u64 lo = done_in(*c, ch);
        const u64 v = cache_dim(ch);
        u64 hi = 0;
        for (auto &k : c->started) {
            hi += k.c == ch;
        }
        sim::hash_bytes(&v, sizeof v);
        count(UC_COMPARED);
        if (v < lo || v > hi) {
            sim::violate("cache-size", "op %zu: cache %ld reports %llu entries, but between %llu and %llu tolerances were requested", i, ch,
                         static_cast<unsigned long long>(v), static_cast<unsigned long long>(lo), static_cast<unsigned long long>(hi));
        }
    }
}
} // namespace

bool ta_needs_ref(const Plan &p, std::size_t i)
{
    return pure_needs_ref(p, i);
}
static void run_phases(const Plan &p, void (*f)(void *, std::size_t), void *ctx)
{
    each(p, 0, f, ctx);
    run_workers(p, 0, p.ops.size(), f, ctx);
    each(p, 100, f, ctx);
}
void ta_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    sim::paint_stack(p.garbage);
    TaCtx c{&p, &refs, {}, {}, {}};
    run_phases(p, ta_step, &c);
}

// ---- Stark problems ------------------------------------------------------------------------
namespace
{
struct SpArgs {
    double mu, veff, tol;
};
std::unique_ptr<kep3::stark_problem> fresh_sp(const SpArgs &a)
{
    InLib l;
    return std::make_unique<kep3::stark_problem>(a.mu, a.veff, a.tol);
}
void sp_getters(const kep3::stark_problem &s, Blob &b)
{
    InLib l;
    for (double x : {s.get_mu(), s.get_veff(), s.get_tol()}) {
        b.d(x);
    }
}
void obs_ints(const TA &t, Blob &b)
{
    b.u(t.get_dim());
    b.d(t.get_tol());
    b.d(t.get_pars().at(0));
    b.d(t.get_pars().at(1));
}
void sp_query(const kep3::stark_problem &s, Blob &b, long w)
{
    guarded(b, [&] {
        switch (w % NQ_STARK) {
            case 0:
                sp_getters(s, b);
                break;
            case 1: {
                InLib l;
                std::ostringstream o;
                o.imbue(std::locale::classic());
                o << s;
                const auto t = o.str();
                l.leave();
                b.s(t);
                break;
            }
            case 2: {
                InLib l;
                const TA t = s.get_ta();
                obs_ints(t, b);
                break;
            }
            case 3: {
                InLib l;
                const TA t = s.get_ta_var();
                obs_ints(t, b);
                break;
            }
            default: {
                std::unique_ptr<kep3::stark_problem> k;
                {
                    InLib l;
                    k = std::make_unique<kep3::stark_problem>(s);
                }
                Blob want, got;
                sp_getters(s, want);
                sp_getters(*k, got);
                must_equal(want, got, "a copied Stark problem");
                InLib l;
                kep3::stark_problem &c = *k;
                const auto r = c.propagate({1., 0.1, 0., 0., 0.9, 0.1, 1.}, {0.01, -0.01, 0.02}, 0.5);
                b.ds(r);
            }
        }
    });
}
void sp_prop(kep3::stark_problem &s, const std::vector<double> &d, bool var, Blob &b)
{
    A7 x{};
    A3 u{};
    std::copy_n(d.begin(), 7, x.begin());
    std::copy_n(d.begin() + 7, 3, u.begin());
    const double tof = d[10];
    guarded(b, [&] {
        InLib l;
        if (var) {
            const auto r = s.propagate_var(x, u, tof);
            b.ds(std::get<0>(r));
            b.ds(std::get<1>(r));
            b.ds(std::get<2>(r));
        } else {
            b.ds(s.propagate(x, u, tof));
        }
    });
}
struct SpSlot {
    std::unique_ptr<kep3::stark_problem> s;
    SpArgs m{};
};
struct SpCtx {
    const Plan *p;
    const std::vector<Blob> *refs;
    std::map<int, std::map<long, SpSlot>> slots;
    TaCtx ta;
};
void check_sp(const Plan &p, std::size_t i, const SpSlot &s)
{
    if (!s.s) {
        return;
    }
    Blob want, got;
    for (double x : {s.m.mu, s.m.veff, s.m.tol}) {
        want.d(x);
    }
    sp_getters(*s.s, got);
    count(UC_MODELCMP);
    if (want != got) {
        mismatch("state-mismatch", "a Stark problem's values, compared with the reference model", p, i, want, got);
    }
}
void spurious(std::size_t i, bool oom, bool fired)
{
    if (oom && !fired) {
        sim::violate("spurious-bad-alloc", "op %zu: std::bad_alloc without a failed allocation", i);
    }
    if (oom) {
        count(UC_BADALLOC);
    }
}
void verdict(std::size_t i, const char *what, bool oom, bool rejected, bool valid)
{
    if (!oom && rejected == valid) {
        sim::violate(rejected ? "rejected-valid" : "accepted-invalid", "op %zu (%s) was %s", i, what,
                     rejected ? "rejected although its arguments are valid" : "accepted although its arguments are invalid");
    }
    if (rejected) {
        count(UC_REJECTED);
    }
}
template <typename F>
bool attempt(const Op &op, std::size_t i, bool &rejected, bool &oom, F f) // true: completed
{
    rejected = oom = false;
    if (op.fail) {
        sim::arm_alloc(fail_at(op, Blob{}));
    }
    try {
        f();
    } catch (const std::bad_alloc &) {
        oom = true;
    } catch (const std::exception &) {
        rejected = true;
    }
    const bool fired = op.fail && sim::alloc_fired();
    sim::arm_alloc(0);
    spurious(i, oom, fired);
    return !oom && !rejected;
}
void sp_step(void *a, std::size_t i)
{
    auto *c = static_cast<SpCtx *>(a);
    const Op &op = c->p->ops[i];
    if (op.kind == K_SP_CALL) {
        pure_op(*c->p, *c->refs, i);
        return;
    }
    if (op.kind == K_TA_GET) {
        ta_step(&c->ta, i);
        return;
    }
    auto &slots = c->slots[op.thr];
    const long s = op.I[0];
    count(UC_OPS);
    bool rejected, oom;
    if (op.kind == K_CTOR) {
        SpSlot n;
        n.m = {op.D[0], op.D[1], op.D[2]};
        attempt(op, i, rejected, oom, [&] { n.s = fresh_sp(n.m); });
        verdict(i, "constructor", oom, rejected, tol_ok(n.m.tol));
        if (n.s) {
            slots[s] = std::move(n);
        }
        return;
    }
    auto it = slots.find(s);
    if (it == slots.end() || !it->second.s) {
        return;
    }
    SpSlot &sl = it->second;
    if (op.kind == K_SP_PROP || op.kind == K_SP_PROP_VAR) {
        Blob want, got;
        auto f = fresh_sp(sl.m);
        sim::arm_alloc(1ull << 60);
        sp_prop(*f, op.D, op.kind == K_SP_PROP_VAR, want);
        want.nalloc = static_cast<u32>(sim::alloc_count());
        sim::arm_alloc(0);
        if (op.D[6] == 0 && !want.is_exc) {
            sim::violate("accepted-invalid", "op %zu: a state without mass was propagated", i);
        }
        if (op.fail) {
            sim::arm_alloc(fail_at(op, want));
        }
        sp_prop(*sl.s, op.D, op.kind == K_SP_PROP_VAR, got);
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        same_or(*c->p, i, want, got, fired, "propagation by a Stark problem with a history, compared with a new one of the same values");
    } else if (op.kind == K_SP_SET_MU || op.kind == K_SP_SET_VEFF) {
        SpArgs nm = sl.m;
        (op.kind == K_SP_SET_MU ? nm.mu : nm.veff) = op.D[0];
        count(UC_SETTER);
        const bool ok = attempt(op, i, rejected, oom, [&] {
            InLib l;
            if (op.kind == K_SP_SET_MU) {
                sl.s->set_mu(op.D[0]);
            } else {
                sl.s->set_veff(op.D[0]);
            }
        });
        verdict(i, "setter", oom, rejected, true);
        if (ok) {
            sl.m = nm;
        } else {
            Blob w, n, g;
            for (double x : {sl.m.mu, sl.m.veff, sl.m.tol}) {
                w.d(x);
            }
            for (double x : {nm.mu, nm.veff, nm.tol}) {
                n.d(x);
            }
            sp_getters(*sl.s, g);
            if (g == n) {
                sl.m = nm;
            } else if (g != w) {
                mismatch("torn-object", "after std::bad_alloc", *c->p, i, w, g);
            }
        }
    } else if (op.kind == K_QUERY) {
        Blob want, got;
        auto f = fresh_sp(sl.m);
        sp_query(*f, want, op.I[1]);
        sp_query(*sl.s, got, op.I[1]);
        same_or(*c->p, i, want, got, false, "query on a Stark problem with a history, compared with a new one of the same values");
    } else if (op.kind == K_COPY || op.kind == K_MOVE) {
        const long d = op.I[1];
        SpSlot n;
        n.m = sl.m;
        auto dst = slots.find(d);
        const bool assign = op.I[2] && dst != slots.end() && dst->second.s && d != s;
        const bool ok = attempt(op, i, rejected, oom, [&] {
            InLib l;
            if (op.kind == K_MOVE) {
                n.s = std::make_unique<kep3::stark_problem>(std::move(*sl.s));
                *sl.s = *n.s;
            } else if (assign) {
                *dst->second.s = *sl.s;
            } else {
                n.s = std::make_unique<kep3::stark_problem>(*sl.s);
            }
        });
        verdict(i, "copy", oom, rejected, true);
        if (!ok) {
            if (op.kind == K_MOVE) {
                slots.erase(s);
            } else if (assign) {
                slots.erase(d);
            }
        } else if (n.s) {
            slots[d] = std::move(n);
        } else {
            dst->second.m = sl.m;
        }
    }
    for (auto &kv : slots) {
        check_sp(*c->p, i, kv.second);
    }
}
} // namespace
void stark_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    silence();
    sim::paint_stack(p.garbage);
    SpCtx c{&p, &refs, {}, TaCtx{&p, &refs, {}, {}, {}}};
    for (int t = 0; t < 101; ++t) {
        c.slots[t];
    }
    run_phases(p, sp_step, &c);
}

// ---- high fidelity legs ----------------------------------------------------------------------
namespace
{
using HF = kep3::leg::sims_flanagan_hf;
struct HfArgs {
    A7 rvms{}, rvmf{};
    double tof = 1, thrust = 1, isp = 1, mu = 1, cut = .5, tol = 1e-16;
    std::vector<double> th;
};
HfArgs hf_args(const std::vector<double> &d)
{
    HfArgs a;
    std::copy_n(d.begin(), 7, a.rvms.begin());
    std::copy_n(d.begin() + 7, 7, a.rvmf.begin());
    a.tof = d[HF_TOF];
    a.thrust = d[HF_THRUST];
    a.isp = d[HF_ISP];
    a.mu = d[HF_MU];
    a.cut = d[HF_CUT];
    a.tol = d[HF_TOL];
    a.th.assign(d.begin() + HF_TH, d.end());
    return a;
}
bool hf_valid(const HfArgs &a)
{
    return !a.th.empty() && a.th.size() % 3 == 0 && a.tof >= 0 && a.thrust >= 0 && a.isp >= 0 && a.mu >= 0 && a.cut >= 0 && a.cut <= 1 && a.tol > 0
           && a.tol <= 1;
}
std::array<std::array<double, 3>, 2> rv(const A7 &x)
{
    return {{{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}};
}
std::unique_ptr<HF> fresh_hf(const HfArgs &a, long form = 0)
{
    std::vector<double> th = a.th;
    InLib l;
    if (form & 1) {
        return std::make_unique<HF>(rv(a.rvms), a.rvms[6], std::move(th), rv(a.rvmf), a.rvmf[6], a.tof, a.thrust, a.isp, a.mu, a.cut, a.tol);
    }
    return std::make_unique<HF>(a.rvms, std::move(th), a.rvmf, a.tof, a.thrust, a.isp, a.mu, a.cut, a.tol);
}
void hf_model(const HfArgs &a, Blob &b)
{
    b.ds(a.rvms);
    b.ds(a.rvmf);
    b.ds(a.th);
    for (double x : {a.tof, a.thrust, a.isp, a.mu, a.cut, a.tol}) {
        b.d(x);
    }
    for (int k = 0; k < 2; ++k) {
        const A7 &x = k ? a.rvmf : a.rvms;
        for (double y : x) {
            b.d(y);
        }
    }
    const auto n = static_cast<unsigned>(a.th.size() / 3);
    const auto f = static_cast<unsigned>(static_cast<double>(n) * a.cut);
    b.u(n);
    b.u(f);
    b.u(n - f);
}
void hf_getters(const HF &g, Blob &b)
{
    InLib l;
    b.ds(g.get_rvms());
    b.ds(g.get_rvmf());
    b.ds(g.get_throttles());
    for (double x : {g.get_tof(), g.get_max_thrust(), g.get_isp(), g.get_mu(), g.get_cut(), g.get_tol()}) {
        b.d(x);
    }
    for (int k = 0; k < 2; ++k) {
        const auto s = k ? g.get_rvf() : g.get_rvs();
        for (auto &v : s) {
            for (double y : v) {
                b.d(y);
            }
        }
        b.d(k ? g.get_mf() : g.get_ms());
    }
    b.u(g.get_nseg());
    b.u(g.get_nseg_fwd());
    b.u(g.get_nseg_bck());
}
void hf_query(const HF &g, Blob &b, long w)
{
    guarded(b, [&] {
        switch (w % NQ_HF) {
            case 0:
                hf_getters(g, b);
                break;
            case 1: {
                InLib l;
                b.ds(g.compute_mismatch_constraints());
                break;
            }
            case 2: {
                InLib l;
                b.ds(g.compute_throttle_constraints());
                break;
            }
            case 3: {
                InLib l;
                b.ds(g.compute_constraints());
                break;
            }
            case 4: {
                InLib l;
                const auto r = g.compute_mc_grad();
                b.ds(std::get<0>(r));
                b.ds(std::get<1>(r));
                b.ds(std::get<2>(r));
                break;
            }
            case 5: {
                InLib l;
                b.ds(g.compute_tc_grad());
                break;
            }
            case 6: {
                InLib l;
                const auto r = g.compute_all_gradients();
                for (auto &x : std::get<0>(r)) {
                    b.ds(x);
                }
                for (auto &x : std::get<1>(r)) {
                    b.ds(x);
                }
                for (auto &x : std::get<2>(r)) {
                    b.ds(x);
                }
                break;
            }
            case 7: {
                InLib l;
                const auto r = g.get_state_history(w / NQ_HF % 6 == 5 ? 40u : 2u + static_cast<unsigned>(w / NQ_HF) % 6);
                b.u(r.size());
                for (auto &x : r) {
                    b.ds(x);
                }
                break;
            }
            case 8: {
                InLib l;
                std::ostringstream o;
                o.imbue(std::locale::classic());
                o << g;
                const auto t = o.str();
                l.leave();
                b.s(t);
                break;
            }
            case 9: {
                InLib l;
                obs_ints(g.get_tas(), b);
                obs_ints(g.get_tas_var(), b);
                break;
            }
            case 10: {
                InLib l;
                b.ds(g.get_state_derivative({1., .2, .1, .1, .9, .05, 1.1}, {.3, -.2, .1}));
                break;
            }
            default: {
                std::unique_ptr<HF> k;
                {
                    InLib l;
                    k = std::make_unique<HF>(g);
                }
                Blob want, got;
                hf_getters(g, want);
                hf_getters(*k, got);
                must_equal(want, got, "a copied leg");
                InLib l;
                HF &c = *k;
                c.set_tof(c.get_tof() * 0.5);
                b.ds(c.compute_mismatch_constraints());
            }
        }
    });
}
void hf_all(const HF &g, Blob &b)
{
    for (long w = 0; w < NQ_HF; ++w) {
        Blob x;
        hf_query(g, x, w);
        b.u(static_cast<u64>(w));
        b.raw(x.b.data(), x.b.size());
        b.txt += x.txt;
    }
}
struct HfSlot {
    std::unique_ptr<HF> g;
    HfArgs m;
};
struct HfCtx {
    const Plan *p;
    const std::vector<Blob> *refs;
    std::map<int, std::map<long, HfSlot>> slots;
    TaCtx ta;
};
void hf_step(void *a, std::size_t i)
{
    auto *c = static_cast<HfCtx *>(a);
    const Op &op = c->p->ops[i];
    if (op.kind == K_LEGHF) {
        pure_op(*c->p, *c->refs, i);
        return;
    }
    if (op.kind == K_TA_GET) {
        ta_step(&c->ta, i);
        return;
    }
    auto &slots = c->slots[op.thr];
    const long s = op.I[0];
    count(UC_OPS);
    bool rejected, oom;
    if (op.kind == K_CTOR) {
        HfSlot n;
        n.m = hf_args(op.D);
        if (op.I[1] == 2) { // default constructed: whatever it reports, it must compute accordingly
            n.m = HfArgs{{1., 0., 0., 0., 1., 0., 1.}, {0., 1., 0., -1., 0., 0., 1.}, 0, 1, 1, 1, .5, 1e-16, std::vector<double>(6, 0.)};
        }
        attempt(op, i, rejected, oom, [&] {
            if (op.I[1] == 2) {
                InLib l;
                n.g = std::make_unique<HF>();
            } else {
                n.g = fresh_hf(n.m, op.I[1]);
            }
        });
        if (op.I[1] == 2 && n.g) {
            n.m.tof = n.g->get_tof();
        }
        verdict(i, "constructor", oom, rejected, hf_valid(n.m));
        if (n.g) {
            slots[s] = std::move(n);
        }
        return;
    }
    auto it = slots.find(s);
    if (it == slots.end() || !it->second.g) {
        return;
    }
    HfSlot &sl = it->second;
    if (op.kind == K_QUERY) {
        Blob want, got;
        auto f = fresh_hf(sl.m);
        if (op.I[1] < 0) {
            hf_all(*f, want);
            hf_all(*sl.g, got);
        } else {
            sim::arm_alloc(1ull << 60);
            hf_query(*f, want, op.I[1]);
            want.nalloc = static_cast<u32>(sim::alloc_count());
            sim::arm_alloc(0);
            const bool arm = op.fail && op.I[1] % NQ_HF != 8;
            if (arm) {
                sim::arm_alloc(fail_at(op, want));
            }
            hf_query(*sl.g, got, op.I[1]);
            const bool fired = arm && sim::alloc_fired();
            sim::arm_alloc(0);
            if (fired && got.is_bad_alloc) {
                same_or(*c->p, i, want, got, fired, "");
                hf_query(*sl.g, got = Blob{}, op.I[1]); // and again
            }
        }
        same_or(*c->p, i, want, got, false, "query on a leg with a history, compared with a new leg of the same values");
    } else if (op.kind == K_COPY || op.kind == K_MOVE) {
        const long d = op.I[1];
        HfSlot n;
        n.m = sl.m;
        auto dst = slots.find(d);
        const bool assign = op.I[2] && dst != slots.end() && dst->second.g && d != s;
        const bool ok = attempt(op, i, rejected, oom, [&] {
            InLib l;
            if (op.kind == K_MOVE) {
                n.g = std::make_unique<HF>(std::move(*sl.g));
                *sl.g = *n.g;
            } else if (assign) {
                *dst->second.g = *sl.g;
            } else {
                n.g = std::make_unique<HF>(*sl.g);
            }
        });
        verdict(i, "copy", oom, rejected, true);
        if (!ok) {
            if (op.kind == K_MOVE) {
                slots.erase(s);
            } else if (assign) {
                slots.erase(d);
            }
        } else if (n.g) {
            slots[d] = std::move(n);
        } else {
            dst->second.m = sl.m;
        }
    } else {
        HfArgs nm = sl.m;
        std::vector<double> th, chrom;
        Blob cgot;
        const long form = op.kind == K_SET_ALL ? op.I[1] : 0;
        auto six = [](A7 &x, const std::vector<double> &d) {
            for (std::size_t k = 0; k < d.size() && k < 7; ++k) {
                x[k] = d[k];
            }
        };
        switch (op.kind) {
            case K_SET_TOF:
                nm.tof = op.D[0];
                break;
            case K_SET_RVS:
                six(nm.rvms, op.D);
                break;
            case K_SET_RVF:
                six(nm.rvmf, op.D);
                break;
            case K_SET_MS:
                nm.rvms[6] = op.D[0];
                break;
            case K_SET_MF:
                nm.rvmf[6] = op.D[0];
                break;
            case K_SET_THROTTLES:
            case K_SET_THROTTLES_IT:
                nm.th = th = op.D;
                break;
            case K_SET_MAX_THRUST:
                nm.thrust = op.D[0];
                break;
            case K_SET_ISP:
                nm.isp = op.D[0];
                break;
            case K_SET_MU:
                nm.mu = op.D[0];
                break;
            case K_SET_CUT:
                nm.cut = op.D[0];
                break;
            case K_SET_TOL:
                nm.tol = op.D[0];
                break;
            case K_SET_ALL: {
                const HfArgs n = hf_args(op.D);
                if (form < 2) {
                    nm = n;
                } else {
                    nm.rvms = n.rvms;
                    nm.rvmf = n.rvmf;
                    nm.tof = n.tof;
                    if (form == 2) {
                        nm.th = n.th;
                    } else {
                        for (std::size_t k = 0; k < nm.th.size(); ++k) {
                            nm.th[k] = n.th.empty() ? 0. : n.th[k % n.th.size()];
                        }
                        chrom.assign(nm.rvms.begin(), nm.rvms.end());
                        chrom.insert(chrom.end(), nm.th.begin(), nm.th.end());
                        chrom.insert(chrom.end(), nm.rvmf.begin(), nm.rvmf.end());
                        chrom.push_back(nm.tof);
                    }
                }
                th = nm.th;
                break;
            }
            default:
                sim::violate("sim-error", "not an operation on legs");
        }
        const bool valid = hf_valid(nm);
        count(UC_SETTER);
        bool dyn = false;
        attempt(op, i, rejected, oom, [&] {
            InLib l;
            HF &g = *sl.g;
            switch (op.kind) {
                case K_SET_TOF:
                    g.set_tof(op.D[0]);
                    break;
                case K_SET_RVS:
                    if (op.D.size() == 7) {
                        g.set_rvms(nm.rvms);
                    } else {
                        g.set_rvs(rv(nm.rvms));
                    }
                    break;
                case K_SET_RVF:
                    if (op.D.size() == 7) {
                        g.set_rvmf(nm.rvmf);
                    } else {
                        g.set_rvf(rv(nm.rvmf));
                    }
                    break;
                case K_SET_MS:
                    g.set_ms(op.D[0]);
                    break;
                case K_SET_MF:
                    g.set_mf(op.D[0]);
                    break;
                case K_SET_THROTTLES:
                    g.set_throttles(th);
                    break;
                case K_SET_THROTTLES_IT: {
                    const std::vector<double>::const_iterator b = th.begin(), e = th.end();
                    g.set_throttles(b, e);
                    break;
                }
                case K_SET_MAX_THRUST:
                    g.set_max_thrust(op.D[0]);
                    break;
                case K_SET_ISP:
                    g.set_isp(op.D[0]);
                    break;
                case K_SET_MU:
                    g.set_mu(op.D[0]);
                    break;
                case K_SET_CUT:
                    g.set_cut(op.D[0]);
                    break;
                case K_SET_TOL:
                    g.set_tol(op.D[0]);
                    break;
                default:
                    if (form == 0) {
                        g.set(rv(nm.rvms), nm.rvms[6], th, rv(nm.rvmf), nm.rvmf[6], nm.tof, nm.thrust, nm.isp, nm.mu, nm.cut, nm.tol);
                    } else if (form == 1) {
                        g.set(nm.rvms, th, nm.rvmf, nm.tof, nm.thrust, nm.isp, nm.mu, nm.cut, nm.tol);
                    } else if (form == 2) {
                        g.set(nm.rvms, th, nm.rvmf, nm.tof);
                    } else {
                        cgot.ds(g.set_and_compute_constraints(chrom));
                    }
            }
        });
        sim::hash_bytes(&rejected, 1);
        if (form == 3 && !oom && valid) { // the evaluation may fail, as it may on a new leg
            Blob want;
            auto f = fresh_hf(nm);
            try {
                InLib l;
                want.ds(f->compute_constraints());
            } catch (const std::exception &) {
                dyn = true;
            }
            if (dyn != rejected || (!dyn && want != cgot)) {
                mismatch("result-mismatch", "set_and_compute_constraints, compared with a new leg", *c->p, i, want, cgot);
            }
            rejected = false;
        } else {
            verdict(i, kind_name(op.kind), oom, rejected, valid);
        }
        if (oom) {
            Blob o, n, g;
            hf_model(sl.m, o);
            hf_model(nm, n);
            hf_getters(*sl.g, g);
            if (g == n && valid) {
                sl.m = nm;
            } else if (g != o) {
                mismatch("torn-object", "after std::bad_alloc the leg holds neither its old nor its new values", *c->p, i, o, g);
            }
        } else if (!rejected) {
            sl.m = nm;
        }
        if (rejected || oom) { // what it computes, too, must be that of its values
            Blob want, got;
            auto f = fresh_hf(sl.m);
            for (long w : {1L, 9L}) {
                hf_query(*f, want, w);
                hf_query(*sl.g, got, w);
            }
            if (want != got) {
                mismatch("torn-object", "after a failed update the leg does not compute what its values say", *c->p, i, want, got);
            }
        }
    }
    for (auto &kv : slots) {
        if (!kv.second.g) {
            continue;
        }
        Blob want, got;
        hf_model(kv.second.m, want);
        hf_getters(*kv.second.g, got);
        count(UC_MODELCMP);
        sim::hash_bytes(got.b.data(), got.b.size());
        if (want != got) {
            mismatch("state-mismatch", kv.first == s ? "the leg's values after the operation" : "another leg's values after the operation", *c->p, i, want,
                     got);
        }
    }
}
} // namespace
void hf_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    sim::paint_stack(p.garbage);
    HfCtx c{&p, &refs, {}, TaCtx{&p, &refs, {}, {}, {}}};
    for (int t = 0; t < 101; ++t) {
        c.slots[t];
    }
    run_phases(p, hf_step, &c);
}

// ---- objects in storage, throw-away objects ---------------------------------------------------
namespace
{
struct StarkObj final : ObjOf<kep3::stark_problem> {
    long nq() const override
    {
        return NQ_STARK;
    }
    bool q_may_fail_alloc(long w) const override
    {
        return w % NQ_STARK != 1;
    }
    void obs(Blob &b, long w) const override
    {
        sp_query(*p, b, w);
    }
    void obs_all(Blob &b) const override
    {
        for (long w = 0; w < NQ_STARK; ++w) {
            Blob x;
            sp_query(*p, x, w);
            b.raw(x.b.data(), x.b.size());
            b.txt += x.txt;
        }
        Blob x;
        guarded(x, [&] {
            InLib l;
            kep3::stark_problem c(*p);
            const auto r = c.propagate_var({1., 0.1, 0., 0., 0.9, 0.1, 1.}, {0.01, -0.01, 0.02}, 0.5);
            x.ds(std::get<0>(r));
            x.ds(std::get<1>(r));
            x.ds(std::get<2>(r));
        });
        b.raw(x.b.data(), x.b.size());
    }
    void mutate(long s) override
    {
        InLib l;
        if (s & 1) {
            p->set_mu(p->get_mu() * 1.25);
        } else {
            p->set_veff(p->get_veff() * 0.5);
        }
        try {
            static_cast<void>(p->propagate({1., 0., 0.1, 0., 1., 0., 1.}, {0.02, 0., 0.01}, 0.3));
        } catch (const std::domain_error &) {
        }
    }
};
struct HfObj final : ObjOf<HF> {
    long nq() const override
    {
        return NQ_HF;
    }
    bool q_may_fail_alloc(long w) const override
    {
        return w % NQ_HF != 8;
    }
    void obs(Blob &b, long w) const override
    {
        hf_query(*p, b, w);
    }
    void obs_all(Blob &b) const override
    {
        hf_all(*p, b);
    }
    void mutate(long s) override
    {
        InLib l;
        switch (s & 3) {
            case 0:
                p->set_cut(0.25 * static_cast<double>((s >> 2) % 5));
                break;
            case 1: {
                std::vector<double> th(3 * (1 + static_cast<std::size_t>(s >> 2) % 4), 0.125);
                p->set_throttles(th);
                break;
            }
            case 2:
                p->set_tof(p->get_tof() * 0.75);
                p->set_max_thrust(p->get_max_thrust() * 0.5);
                break;
            default:
                p->set_isp(p->get_isp() * 2);
                p->set_mu(p->get_mu() * 1.125);
        }
    }
};
std::unique_ptr<Obj> mk_stark(const Op &op)
{
    auto o = std::make_unique<StarkObj>();
    o->p = fresh_sp({op.D[0], op.D[1], op.D[2]});
    return o;
}
std::unique_ptr<Obj> mk_hf(const Op &op)
{
    auto o = std::make_unique<HfObj>();
    o->p = fresh_hf(hf_args(op.D), op.I.empty() ? 0 : op.I[0]);
    return o;
}
// a Stark problem built, used and thrown away: D = mu veff tol, then as SP_PROP
void ex_sp(const Op &op, Blob &b)
{
    guarded(b, [&] {
        auto s = fresh_sp({op.D[0], op.D[1], op.D[2]});
        Blob x;
        const std::vector<double> d(op.D.begin() + 3, op.D.end());
        sp_prop(*s, d, op.I[0] & 1, x);
        b = x;
        InLib l;
        s.reset();
    });
}
void ex_hf(const Op &op, Blob &b)
{
    guarded(b, [&] {
        auto g = fresh_hf(hf_args(op.D), op.I[0]);
        Blob x;
        hf_query(*g, x, op.I[1]);
        b = x;
        InLib l;
        g.reset();
    });
}
struct Reg {
    Reg()
    {
        add_obj_kind(K_OBJ_STARK, mk_stark);
        add_obj_kind(K_OBJ_LEGHF, mk_hf);
        add_exec(K_TA_GET, ex_ta_get);
        add_exec(K_TA_USE, ex_ta_get);
        add_exec(K_TA_DYN, ex_ta_dyn);
        add_exec(K_SP_CALL, ex_sp);
        add_exec(K_LEGHF, ex_hf);
    }
} reg;
} // namespace
void ta_alloc_exec(const Plan &p, const std::vector<Blob> &refs, int inc)
{
    silence();
    alloc_exec(p, refs, inc);
}
void ta_stor_exec(const Plan &p, const std::vector<Blob> &refs, int inc)
{
    silence();
    stor_exec(p, refs, inc);
}
} // namespace h
