// kep3 objects of the core group.  Instrumented.
#include "objs.hpp"
#include <boost/serialization/array.hpp>
#include <boost/serialization/vector.hpp>

namespace h
{
struct LambertObj final : ObjOf<kep3::lambert_problem> {
    long nq() const override
    {
        return NQ_LAMBERT;
    }
    bool q_may_fail_alloc(long w) const override
    {
        w %= NQ_LAMBERT;
        return w != 1 && w != 4 && w != 6; // printing swallows exceptions inside std::ostream
    }
    void obs(Blob &b, long w) const override
    {
        obs_lambert(*p, b, w);
    }
    void obs_all(Blob &b) const override
    {
        obs_lambert_all(*p, b);
    }
    void mutate(long) override
    {
        // no setter: exercise assignment from itself through a copy
        InLib l;
        kep3::lambert_problem c(*p);
        *p = std::move(c);
    }
};
struct LegObj final : ObjOf<kep3::leg::sims_flanagan> {
    long nq() const override
    {
        return NQ_LEG;
    }
    bool q_may_fail_alloc(long w) const override
    {
        return w % NQ_LEG != 5 && w % NQ_LEG != 10;
    }
    void obs(Blob &b, long w) const override
    {
        obs_leg(*p, b, w);
    }
    void obs_all(Blob &b) const override
    {
        for (long w : {0, 1, 2, 4, 3, 6}) { // numbers of any kind can be stored, not all of them can be propagated
            Blob x;
            guarded(x, [&] { obs_leg(*p, x, w); });
            b.raw(x.b.data(), x.b.size());
            b.txt += x.txt;
        }
    }
    void mutate(long seed) override
    {
        InLib l;
        switch (seed & 3) {
            case 0:
                p->set_cut(0.25 * static_cast<double>((seed >> 2) % 5));
                break;
            case 1: {
                std::vector<double> th(3 * (1 + static_cast<std::size_t>(seed >> 2) % 5), 0.125);
                p->set_throttles(th);
                break;
            }
            case 2:
                p->set_tof(p->get_tof() * 0.75);
                p->set_max_thrust(p->get_max_thrust() * 0.5);
                break;
            default:
                p->set_isp(p->get_isp() * 2);
                p->set_ms(p->get_ms() * 1.5);
        }
    }
};
template <typename O, typename F>
static std::unique_ptr<Obj> mk(F f)
{
    auto o = std::make_unique<O>();
    o->p = f();
    return o;
}
static std::unique_ptr<Obj> mk_lambert(const Op &op)
{
    return mk<LambertObj>([&] { return make_lambert(op); });
}
static std::unique_ptr<Obj> mk_leg(const Op &op)
{
    return mk<LegObj>([&] { return make_leg(op); });
}
static struct Reg {
    Reg()
    {
        add_obj_kind(K_OBJ_LAMBERT, mk_lambert);
        add_obj_kind(K_OBJ_LEG, mk_leg);
    }
} reg;
} // namespace h
