// Stand-in for heyoka's adaptive Taylor integrator: a Runge-Kutta integration of
// the symbolic system whose step count depends on the tolerance.  State, time and
// parameters live in instrumented memory and change step by step, like the
// original's; the arithmetic of one step is not instrumented.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ostream>
#include <limits>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>

namespace heyoka
{
enum class taylor_outcome : std::int64_t { success = -4294967296ll - 1, step_limit = -4294967296ll - 2, time_limit = -4294967296ll - 3, err_nf_state = -4294967296ll - 4, cb_stop = -4294967296ll - 5 };
template <typename T>
struct continuous_output {
};
template <typename T>
struct step_callback {
};
template <typename TA>
struct stub_callback {
};

namespace stub
{
// a compiled system; reference counted outside the instrumented code, so that
// copying an integrator orders nothing between threads
struct system;
class sys_ref
{
public:
    sys_ref() noexcept : m_p(nullptr) {}
    explicit sys_ref(system *p) noexcept : m_p(p) {}
    sys_ref(const sys_ref &) noexcept;
    sys_ref(sys_ref &&) noexcept;
    sys_ref &operator=(const sys_ref &) noexcept;
    sys_ref &operator=(sys_ref &&) noexcept;
    ~sys_ref();
    system *m_p;
};
sys_ref compile(const std::vector<std::pair<expression, expression>> &, const std::vector<expression> &args, std::uint32_t order);
unsigned n_eq(const sys_ref &) noexcept;    // equations, variational ones included
unsigned n_orig(const sys_ref &) noexcept;
unsigned n_par(const sys_ref &) noexcept;
void initial_var(const sys_ref &, std::vector<double> &state); // appends the initial variational state
bool step(const sys_ref &, double *state, const double *pars, double t, double h) noexcept; // false: not finite
unsigned n_steps(double dt, double tol) noexcept;
std::string to_text(const sys_ref &);
sys_ref from_text(const std::string &);
void scheduling_point();
// integrations of this thread that did not reach their final time
void note_failure();
long failures();
void forget_failures(long n);
} // namespace stub

template <typename T>
class taylor_adaptive
{
    static_assert(std::is_same_v<T, double>);
    stub::sys_ref m_sys;
    std::vector<double> m_state, m_pars;
    double m_time = 0, m_tol = 0, m_last_h = 0;

    void init(std::vector<double> state, double tol, std::vector<double> pars, double time)
    {
        if (!std::isfinite(tol) || tol < 0) {
            throw std::invalid_argument("The tolerance in an adaptive Taylor integrator must be finite and positive, but it is "
                                        + std::to_string(tol) + " instead");
        }
        if (tol == 0) {
            tol = std::numeric_limits<double>::epsilon();
        }
        for (double x : state) {
            if (!std::isfinite(x)) {
                throw std::invalid_argument("Cannot initialise an adaptive Taylor integrator with a non-finite initial state");
            }
        }
        if (state.size() == stub::n_orig(m_sys)) {
            stub::initial_var(m_sys, state);
        }
        if (state.size() != stub::n_eq(m_sys)) {
            throw std::invalid_argument("Inconsistent sizes detected in the initialization of an adaptive Taylor integrator");
        }
        if (pars.size() > stub::n_par(m_sys)) {
            throw std::invalid_argument("Excessive number of parameter values passed to the constructor of an adaptive Taylor integrator");
        }
        pars.resize(stub::n_par(m_sys));
        m_state = std::move(state);
        m_pars = std::move(pars);
        m_time = time;
        m_tol = tol;
    }

public:
    taylor_adaptive() : taylor_adaptive(std::vector<std::pair<expression, expression>>{{expression(std::string("x")), expression(0.)}}, std::vector<double>{0.}, kw::tol = 1e-1) {}
    template <typename... KW>
    explicit taylor_adaptive(std::vector<std::pair<expression, expression>> sys, std::vector<double> state, const KW &...k)
        : m_sys(stub::compile(sys, {}, 0))
    {
        init(std::move(state), kw::get<double>(kw::tol, 0., k...), kw::get<std::vector<double>>(kw::pars, {}, k...),
             kw::get<double>(kw::time, 0., k...));
    }
    template <typename... KW>
    explicit taylor_adaptive(const var_ode_sys &sys, std::vector<double> state, const KW &...k)
        : m_sys(stub::compile(sys.m_sys, sys.m_args, sys.m_order))
    {
        init(std::move(state), kw::get<double>(kw::tol, 0., k...), kw::get<std::vector<double>>(kw::pars, {}, k...),
             kw::get<double>(kw::time, 0., k...));
    }
    taylor_adaptive(const taylor_adaptive &) = default;
    taylor_adaptive(taylor_adaptive &&) noexcept = default;
    taylor_adaptive &operator=(const taylor_adaptive &o)
    {
        if (this != &o) {
            *this = taylor_adaptive(o);
        }
        return *this;
    }
    taylor_adaptive &operator=(taylor_adaptive &&) noexcept = default;
    ~taylor_adaptive() = default;

    const std::vector<double> &get_state() const
    {
        return m_state;
    }
    double *get_state_data()
    {
        return m_state.data();
    }
    const double *get_state_data() const
    {
        return m_state.data();
    }
    const std::vector<double> &get_pars() const
    {
        return m_pars;
    }
    double *get_pars_data()
    {
        return m_pars.data();
    }
    const double *get_pars_data() const
    {
        return m_pars.data();
    }
    double get_time() const
    {
        return m_time;
    }
    void set_time(double t)
    {
        m_time = t;
    }
    double get_tol() const
    {
        return m_tol;
    }
    std::uint32_t get_dim() const
    {
        return static_cast<std::uint32_t>(m_state.size());
    }
    std::uint32_t get_n_orig_sv() const
    {
        return stub::n_orig(m_sys);
    }
    double get_last_h() const
    {
        return m_last_h;
    }

private:
    taylor_outcome advance(double t1, double &min_h, double &max_h, std::size_t &ns)
    {
        const double t0 = m_time;
        if (!std::isfinite(t0)) {
            throw std::invalid_argument("Cannot invoke the propagate_until() function of an adaptive Taylor integrator if the current time is not finite");
        }
        if (!std::isfinite(t1)) {
            throw std::invalid_argument("A non-finite time was passed to the propagate_until() function of an adaptive Taylor integrator");
        }
        if (t0 == t1) {
            return taylor_outcome::time_limit;
        }
        const unsigned n = stub::n_steps(t1 - t0, m_tol);
        std::vector<double> buf(m_state.size());
        for (unsigned k = 0; k < n; ++k) {
            for (std::size_t i = 0; i < buf.size(); ++i) {
                buf[i] = m_state[i];
            }
            const double h = (t1 - t0) / n;
            const bool fin = stub::step(m_sys, buf.data(), m_pars.data(), m_time, h);
            stub::scheduling_point();
            for (std::size_t i = 0; i < buf.size(); ++i) {
                m_state[i] = buf[i];
            }
            m_time = k + 1 == n ? t1 : m_time + h;
            m_last_h = h;
            ++ns;
            min_h = std::min(min_h, std::abs(h));
            max_h = std::max(max_h, std::abs(h));
            if (!fin) {
                stub::note_failure();
                return taylor_outcome::err_nf_state;
            }
        }
        return taylor_outcome::time_limit;
    }

public:
    template <typename... KW>
    std::tuple<taylor_outcome, double, double, std::size_t, std::optional<continuous_output<double>>, step_callback<double>>
    propagate_until(double t, const KW &...)
    {
        double a = std::numeric_limits<double>::infinity(), b = 0;
        std::size_t n = 0;
        const auto o = advance(t, a, b, n);
        return {o, a, b, n, {}, {}};
    }
    template <typename... KW>
    auto propagate_for(double dt, const KW &...)
    {
        return propagate_until(m_time + dt);
    }
    template <typename... KW>
    std::tuple<taylor_outcome, double, double, std::size_t, step_callback<double>, std::vector<double>>
    propagate_grid(std::vector<double> grid, const KW &...)
    {
        if (grid.empty()) {
            throw std::invalid_argument("Cannot invoke propagate_grid() in an adaptive Taylor integrator if the time grid is empty");
        }
        for (std::size_t i = 0; i < grid.size(); ++i) {
            if (!std::isfinite(grid[i])) {
                throw std::invalid_argument("A non-finite time value was passed to propagate_grid() in an adaptive Taylor integrator");
            }
            if (i > 1 && (grid[i] > grid[i - 1]) != (grid[1] > grid[0])) {
                throw std::invalid_argument("A non-monotonic time grid was passed to propagate_grid() in an adaptive Taylor integrator");
            }
        }
        if (grid[0] != m_time) {
            throw std::invalid_argument("When invoking propagate_grid(), the first element of the time grid must match the current time coordinate");
        }
        double a = std::numeric_limits<double>::infinity(), b = 0;
        std::size_t n = 0;
        std::vector<double> out;
        const std::size_t dim = m_state.size();
        taylor_outcome o = taylor_outcome::time_limit;
        for (std::size_t i = 0; i < grid.size() && o == taylor_outcome::time_limit; ++i) {
            o = advance(grid[i], a, b, n);
            if (o == taylor_outcome::time_limit) {
                for (std::size_t k = 0; k < dim; ++k) {
                    out.push_back(m_state[k]);
                }
            }
        }
        return {o, a, b, n, {}, std::move(out)};
    }

    friend std::ostream &operator<<(std::ostream &os, const taylor_adaptive &t)
    {
        os << "Taylor integrator (stub) tolerance " << t.m_tol << " dimension " << t.m_state.size() << "\n";
        return os;
    }

private:
    friend class boost::serialization::access;
    template <typename A>
    void save(A &ar, unsigned) const
    {
        const std::string s = stub::to_text(m_sys);
        ar << s;
        ar << m_state;
        ar << m_pars;
        ar << m_time;
        ar << m_tol;
        ar << m_last_h;
    }
    template <typename A>
    void load(A &ar, unsigned)
    {
        try {
            std::string s;
            ar >> s;
            m_sys = stub::from_text(s);
            ar >> m_state;
            ar >> m_pars;
            ar >> m_time;
            ar >> m_tol;
            ar >> m_last_h;
        } catch (...) {
            // like the original: back to a default constructed integrator
            *this = taylor_adaptive{};
            throw;
        }
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
};
} // namespace heyoka
