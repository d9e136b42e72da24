// Histories of one or more sims_flanagan legs against a reference model (a
// plain struct of arguments).  Instrumented.
#include "core.hpp"
#include "core_leg.hpp"
#include "scen.hpp"
#include <map>

namespace h
{
void leg_model(const LegArgs &a, Blob &b)
{
    put_rv(b, a.rvs);
    put_rv(b, a.rvf);
    b.ds(a.th);
    for (double x : {a.ms, a.mf, a.tof, a.max_thrust, a.isp, a.mu, a.cut}) {
        b.d(x);
    }
    const auto n = static_cast<unsigned>(a.th.size() / 3);
    const auto f = static_cast<unsigned>(static_cast<double>(n) * a.cut);
    b.u(n);
    b.u(f);
    b.u(n - f);
}
namespace
{
struct Slot {
    std::unique_ptr<kep3::leg::sims_flanagan> leg;
    LegArgs m;
};
struct LegCtx {
    const std::vector<Blob> *refs = nullptr;
    const Plan *p;
    std::map<int, std::map<long, Slot>> slots; // per thread: legs are not shared here
};

void check_slot(const Plan &p, std::size_t i, long s, const Slot &sl, const char *what)
{
    if (!sl.leg) {
        return;
    }
    Blob want, got;
    leg_model(sl.m, want);
    leg_getters(*sl.leg, got);
    count(UC_MODELCMP);
    sim::hash_bytes(got.b.data(), got.b.size());
    if (want != got) {
        char w[160];
        std::snprintf(w, sizeof w, "%s: state of leg %ld, compared with the reference model", what, s);
        mismatch("state-mismatch", w, p, i, want, got);
    }
}

std::unique_ptr<kep3::leg::sims_flanagan> fresh(const LegArgs &a, bool dflt = false)
{
    if (dflt) {
        InLib l;
        return std::make_unique<kep3::leg::sims_flanagan>();
    }
    std::vector<double> th = a.th;
    InLib l;
    return std::make_unique<kep3::leg::sims_flanagan>(a.rvs, a.ms, std::move(th), a.rvf, a.mf, a.tof, a.max_thrust,
                                                      a.isp, a.mu, a.cut);
}

RV rv6(const Op &o)
{
    RV s;
    std::size_t k = 0;
    for (auto &x : s) {
        for (double &y : x) {
            y = o.D[k++];
        }
    }
    return s;
}

std::array<double *, 7> scalars(LegArgs &a)
{
    return {&a.ms, &a.mf, &a.tof, &a.max_thrust, &a.isp, &a.mu, &a.cut};
}

// the values of a default constructed leg, as it reports them
LegArgs default_args()
{
    InLib l;
    const kep3::leg::sims_flanagan g;
    LegArgs a;
    a.rvs = g.get_rvs();
    a.rvf = g.get_rvf();
    a.ms = g.get_ms();
    a.mf = g.get_mf();
    a.tof = g.get_tof();
    a.max_thrust = g.get_max_thrust();
    a.isp = g.get_isp();
    a.mu = g.get_mu();
    a.cut = g.get_cut();
    a.th = g.get_throttles();
    return a;
}

void leg_step(void *a, std::size_t i)
{
    auto *c = static_cast<LegCtx *>(a);
    const Op &op = c->p->ops[i];
    if (find_exec(op.kind)) {
        pure_op(*c->p, *c->refs, i);
        return;
    }
    auto &slots = c->slots[op.thr];
    const long s = op.I[0];
    count(UC_OPS);
    if (op.kind == K_CTOR) {
        const bool dflt = op.D.empty();
        const LegArgs la = dflt ? default_args() : leg_args(op);
        Slot n;
        n.m = la;
        bool rejected = false, oom = false;
        if (op.fail) {
            sim::arm_alloc(fail_at(op, Blob{}));
        }
        try {
            n.leg = fresh(la, dflt);
        } catch (const std::bad_alloc &) {
            oom = true;
        } catch (const std::exception &) {
            rejected = true;
        }
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        if (oom && !fired) {
            sim::violate("spurious-bad-alloc", "op %zu: std::bad_alloc without a failed allocation", i);
        }
        if (!oom && rejected != !leg_valid(la)) {
            sim::violate(rejected ? "rejected-valid" : "accepted-invalid", "constructor (op %zu)", i);
        }
        if (rejected) {
            count(UC_REJECTED);
        }
        if (n.leg) {
            slots[s] = std::move(n);
        }
        return;
    }
    auto it = slots.find(s);
    if (it == slots.end() || !it->second.leg) {
        return;
    }
    Slot &sl = it->second;
    if (op.kind == K_QUERY) {
        Blob want, got;
        auto f = fresh(sl.m);
        auto look = [&](const kep3::leg::sims_flanagan &g, Blob &b) {
            guarded(b, [&] {
                if (op.I[1] < 0) {
                    obs_leg_all(g, b, true);
                } else {
                    obs_leg(g, b, op.I[1]);
                }
            });
        };
        sim::arm_alloc(1ull << 60);
        look(*f, want);
        want.nalloc = static_cast<u32>(sim::alloc_count());
        sim::arm_alloc(0);
        if (op.fail) {
            sim::arm_alloc(fail_at(op, want));
        }
        look(*sl.leg, got);
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        count(UC_COMPARED);
        sim::hash_bytes(got.b.data(), got.b.size());
        if (fired && got.is_bad_alloc) {
            count(UC_BADALLOC);
        } else if (want != got) {
            mismatch("result-mismatch", "query on a leg with a history, compared with a fresh leg of the same parameters",
                     *c->p, i, want, got);
        }
    } else if (op.kind == K_COPY || op.kind == K_MOVE) {
        const long d = op.I[1];
        Slot n;
        bool oom = false;
        n.m = sl.m;
        auto dst = slots.find(d);
        if (op.fail) {
            sim::arm_alloc(fail_at(op, Blob{}));
        }
        try {
            if (op.kind == K_MOVE) {
                InLib l;
                n.leg = std::make_unique<kep3::leg::sims_flanagan>(std::move(*sl.leg));
                // a moved-from leg may be assigned to or destroyed
                *sl.leg = *n.leg;
            } else if (op.I[2] && dst != slots.end() && dst->second.leg && d != s) {
                InLib l;
                *dst->second.leg = *sl.leg;
            } else {
                InLib l;
                n.leg = std::make_unique<kep3::leg::sims_flanagan>(*sl.leg);
            }
        } catch (const std::bad_alloc &) {
            oom = true;
        }
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        if (oom && !fired) {
            sim::violate("spurious-bad-alloc", "op %zu: std::bad_alloc without a failed allocation", i);
        }
        if (oom) {
            count(UC_BADALLOC);
            if (op.kind == K_MOVE) { // the source may have been emptied by then
                slots.erase(s);
            } else if (op.I[2] && dst != slots.end() && d != s) {
                slots.erase(d); // memberwise assignment gives the basic guarantee only
            }
        } else if (n.leg) {
            slots[d] = std::move(n);
        } else if (dst != slots.end()) {
            dst->second.m = sl.m;
        }
    } else {
        LegArgs nm = sl.m;
        bool valid = true;
        RV rv{};
        std::vector<double> th;
        auto ot = op.kind == K_SELF ? slots.find(op.I[2]) : slots.end();
        if (ot == slots.end() || !ot->second.leg) {
            ot = it;
        }
        const LegArgs &om = ot->second.m;
        switch (op.kind) {
            case K_SELF:
                switch (op.I[1]) {
                    case 1:
                        nm.th = om.th;
                        break;
                    case 4:
                        nm.rvs = om.rvf;
                        nm.rvf = om.rvs;
                        break;
                    case 5:
                        nm = om;
                        break;
                    case 6:
                        nm.th = om.th;
                        nm.cut = om.cut;
                        break;
                    case 7:
                        nm.rvs = om.rvf;
                        nm.rvf = om.rvf;
                        break;
                    case 8: // one throttle component
                        nm.th[static_cast<std::size_t>(op.I[3]) % nm.th.size()] *= op.D[0];
                        th = nm.th;
                        break;
                    case 9: // two components exchanged
                        std::swap(nm.th[static_cast<std::size_t>(op.I[3]) % nm.th.size()],
                                  nm.th[static_cast<std::size_t>(op.I[4]) % nm.th.size()]);
                        th = nm.th;
                        break;
                    case 10: { // one component of a state
                        RV &x = op.I[3] & 1 ? nm.rvs : nm.rvf;
                        x[static_cast<std::size_t>(op.I[4]) & 1][static_cast<std::size_t>(op.I[4] / 2) % 3] *= op.D[0];
                        rv = x;
                        break;
                    }
                    case 11: // one scalar
                        *scalars(nm)[static_cast<std::size_t>(op.I[3]) % 7] *= std::abs(op.D[0]);
                        nm.cut = std::min(nm.cut, 1.);
                        break;
                    default:
                        break;
                }
                break;
            case K_SET_TOF:
                nm.tof = op.D[0];
                break;
            case K_SET_RVS:
                nm.rvs = rv = rv6(op);
                break;
            case K_SET_RVF:
                nm.rvf = rv = rv6(op);
                break;
            case K_SET_MS:
                nm.ms = op.D[0];
                break;
            case K_SET_MF:
                nm.mf = op.D[0];
                break;
            case K_SET_THROTTLES:
            case K_SET_THROTTLES_IT:
                nm.th = th = op.D;
                break;
            case K_SET_MAX_THRUST:
                nm.max_thrust = op.D[0];
                break;
            case K_SET_ISP:
                nm.isp = op.D[0];
                break;
            case K_SET_MU:
                nm.mu = op.D[0];
                break;
            case K_SET_CUT:
                nm.cut = op.D[0];
                break;
            case K_SET_ALL:
                nm = leg_args(op);
                th = nm.th;
                break;
            default:
                sim::violate("sim-error", "not a leg operation");
        }
        valid = leg_valid(nm);
        count(UC_SETTER);
        bool rejected = false, oom = false;
        if (op.fail) {
            sim::arm_alloc(fail_at(op, Blob{}));
        }
        try {
            InLib l;
            auto &g = *sl.leg;
            const auto &o = *ot->second.leg;
            switch (op.kind) {
                case K_SELF:
                    switch (op.I[1]) {
                        case 0:
                            g = *&g;
                            break;
                        case 1:
                            g.set_throttles(o.get_throttles());
                            break;
                        case 2:
                            g.set_cut(g.get_cut());
                            g.set_tof(g.get_tof());
                            g.set_ms(g.get_ms());
                            g.set_mf(g.get_mf());
                            g.set_mu(g.get_mu());
                            g.set_isp(g.get_isp());
                            g.set_max_thrust(g.get_max_thrust());
                            g.set_rvs(g.get_rvs());
                            g.set_rvf(g.get_rvf());
                            break;
                        case 3:
                            g.set(g.get_rvs(), g.get_ms(), g.get_throttles(), g.get_rvf(), g.get_mf(), g.get_tof(),
                                  g.get_max_thrust(), g.get_isp(), g.get_mu(), g.get_cut());
                            break;
                        case 4: {
                            const RV t = o.get_rvs();
                            g.set_rvs(o.get_rvf());
                            g.set_rvf(t);
                            break;
                        }
                        case 5:
                            g.set(o.get_rvs(), o.get_ms(), o.get_throttles(), o.get_rvf(), o.get_mf(), o.get_tof(),
                                  o.get_max_thrust(), o.get_isp(), o.get_mu(), o.get_cut());
                            break;
                        case 8:
                        case 9:
                            if (op.I[3] & 4) {
                                g.set_throttles(th);
                            } else {
                                const std::vector<double>::const_iterator b = th.begin(), e = th.end();
                                g.set_throttles(b, e);
                            }
                            break;
                        case 10:
                            if (op.I[3] & 1) {
                                g.set_rvs(rv);
                            } else {
                                g.set_rvf(rv);
                            }
                            break;
                        case 11:
                            switch (op.I[3] % 7) {
                                case 0:
                                    g.set_ms(nm.ms);
                                    break;
                                case 1:
                                    g.set_mf(nm.mf);
                                    break;
                                case 2:
                                    g.set_tof(nm.tof);
                                    break;
                                case 3:
                                    g.set_max_thrust(nm.max_thrust);
                                    break;
                                case 4:
                                    g.set_isp(nm.isp);
                                    break;
                                case 5:
                                    g.set_mu(nm.mu);
                                    break;
                                default:
                                    g.set_cut(nm.cut);
                            }
                            break;
                        case 6:
                            if (&o != &g) {
                                g.set_throttles(o.get_throttles().begin(), o.get_throttles().end());
                            }
                            g.set_cut(o.get_cut());
                            break;
                        default:
                            g.set_rvs(o.get_rvf());
                            g.set_rvf(g.get_rvs());
                    }
                    break;
                case K_SET_TOF:
                    g.set_tof(op.D[0]);
                    break;
                case K_SET_RVS:
                    g.set_rvs(rv);
                    break;
                case K_SET_RVF:
                    g.set_rvf(rv);
                    break;
                case K_SET_MS:
                    g.set_ms(op.D[0]);
                    break;
                case K_SET_MF:
                    g.set_mf(op.D[0]);
                    break;
                case K_SET_THROTTLES:
                    g.set_throttles(th);
                    break;
                case K_SET_THROTTLES_IT: {
                    const std::vector<double>::const_iterator b = th.begin(), e = th.end();
                    g.set_throttles(b, e);
                    break;
                }
                case K_SET_MAX_THRUST:
                    g.set_max_thrust(op.D[0]);
                    break;
                case K_SET_ISP:
                    g.set_isp(op.D[0]);
                    break;
                case K_SET_MU:
                    g.set_mu(op.D[0]);
                    break;
                case K_SET_CUT:
                    g.set_cut(op.D[0]);
                    break;
                default:
                    g.set(nm.rvs, nm.ms, th, nm.rvf, nm.mf, nm.tof, nm.max_thrust, nm.isp, nm.mu, nm.cut);
            }
        } catch (const std::bad_alloc &) {
            oom = true;
        } catch (const std::exception &) {
            rejected = true;
        }
        const bool fired = op.fail && sim::alloc_fired();
        sim::arm_alloc(0);
        sim::hash_bytes(&rejected, 1);
        if (oom && !fired) {
            sim::violate("spurious-bad-alloc", "op %zu: std::bad_alloc without a failed allocation", i);
        }
        if (!oom && rejected != !valid) {
            sim::violate(rejected ? "rejected-valid" : "accepted-invalid", "op %zu (%s) was %s", i, kind_name(op.kind),
                         rejected ? "rejected although its arguments are valid" : "accepted although its arguments are invalid");
        }
        if (oom) {
            // out of memory: the old state or the new one, never a mixture
            count(UC_BADALLOC);
            Blob o, n, g;
            leg_model(sl.m, o);
            leg_model(nm, n);
            leg_getters(*sl.leg, g);
            if (g == n && valid) {
                sl.m = nm;
            } else if (g != o) {
                mismatch("torn-object", "after std::bad_alloc the leg holds neither its old nor its new parameters", *c->p,
                         i, o, g);
            }
        } else if (rejected) {
            count(UC_REJECTED);
        } else {
            sl.m = nm;
        }
    }
    for (auto &kv : slots) {
        check_slot(*c->p, i, kv.first, kv.second, kv.first == s ? "after the operation" : "another leg after the operation");
    }
}
} // namespace

void leghist_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    sim::paint_stack(p.garbage);
    LegCtx c;
    c.p = &p;
    c.refs = &refs;
    for (int t = 0; t < 101; ++t) {
        c.slots[t];
    }
    each(p, 0, leg_step, &c);
    run_workers(p, 0, p.ops.size(), leg_step, &c);
}
} // namespace h
