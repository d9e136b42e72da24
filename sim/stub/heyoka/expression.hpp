// Stand-in for heyoka's symbolic expressions: a shared immutable tree which the
// stub integrator evaluates.  Implementation in heyoka_stub.cpp.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <utility>
#include <variant>
#include <vector>

#include <heyoka/config.hpp>
#include <heyoka/kw.hpp>

namespace heyoka
{
namespace stub
{
struct node;
enum op_code : int {
    o_num, o_var, o_par, o_add, o_sub, o_mul, o_div, o_neg, o_pow, o_sqrt, o_select, o_eq, o_neq, o_lt, o_gt, o_lte, o_gte,
    o_sin, o_cos, o_tan, o_exp, o_log, o_asin, o_acos, o_atan, o_atan2, o_sinh, o_cosh, o_tanh, o_abs
};
}
class expression
{
public:
    expression() noexcept;
    explicit expression(double);
    explicit expression(std::string);
    expression(const expression &) noexcept;
    expression(expression &&) noexcept;
    expression &operator=(const expression &) noexcept;
    expression &operator=(expression &&) noexcept;
    ~expression();
    static expression make(int op, std::initializer_list<expression> args);
    static expression make_par(std::uint32_t);
    const stub::node *get() const
    {
        return m_p;
    }
    friend bool operator==(const expression &, const expression &) noexcept;

private:
    stub::node *m_p;
};
expression operator+(expression, expression);
expression operator-(expression, expression);
expression operator*(expression, expression);
expression operator/(expression, expression);
expression operator-(expression);
expression operator+(expression);
#define KEP3SIM_MIXED(o)                                                                                               \
    inline expression operator o(expression a, double b)                                                               \
    {                                                                                                                  \
        return std::move(a) o expression(b);                                                                           \
    }                                                                                                                  \
    inline expression operator o(double a, expression b)                                                               \
    {                                                                                                                  \
        return expression(a) o std::move(b);                                                                           \
    }
KEP3SIM_MIXED(+)
KEP3SIM_MIXED(-)
KEP3SIM_MIXED(*)
KEP3SIM_MIXED(/)
#undef KEP3SIM_MIXED
inline expression &operator+=(expression &a, expression b)
{
    return a = a + std::move(b);
}
inline expression &operator-=(expression &a, expression b)
{
    return a = a - std::move(b);
}
inline expression &operator*=(expression &a, expression b)
{
    return a = a * std::move(b);
}
inline expression &operator/=(expression &a, expression b)
{
    return a = a / std::move(b);
}
expression pow(expression, expression);
inline expression pow(expression a, double b)
{
    return pow(std::move(a), expression(b));
}
inline expression pow(double a, expression b)
{
    return pow(expression(a), std::move(b));
}
#define KEP3SIM_UNARY(n)                                                                                               \
    inline expression n(expression a)                                                                                  \
    {                                                                                                                  \
        return expression::make(stub::o_##n, {std::move(a)});                                                          \
    }
KEP3SIM_UNARY(sqrt)
KEP3SIM_UNARY(sin)
KEP3SIM_UNARY(cos)
KEP3SIM_UNARY(tan)
KEP3SIM_UNARY(exp)
KEP3SIM_UNARY(log)
KEP3SIM_UNARY(asin)
KEP3SIM_UNARY(acos)
KEP3SIM_UNARY(atan)
KEP3SIM_UNARY(sinh)
KEP3SIM_UNARY(cosh)
KEP3SIM_UNARY(tanh)
KEP3SIM_UNARY(abs)
#undef KEP3SIM_UNARY
inline expression square(expression a)
{
    expression b = a;
    return std::move(a) * std::move(b);
}
expression sum(std::vector<expression>);
expression prod(std::vector<expression>);
#define KEP3SIM_REL(n)                                                                                                 \
    inline expression n(expression a, expression b)                                                                    \
    {                                                                                                                  \
        return expression::make(stub::o_##n, {std::move(a), std::move(b)});                                            \
    }                                                                                                                  \
    inline expression n(expression a, double b)                                                                        \
    {                                                                                                                  \
        return n(std::move(a), expression(b));                                                                         \
    }                                                                                                                  \
    inline expression n(double a, expression b)                                                                        \
    {                                                                                                                  \
        return n(expression(a), std::move(b));                                                                         \
    }
KEP3SIM_REL(eq)
KEP3SIM_REL(neq)
KEP3SIM_REL(lt)
KEP3SIM_REL(gt)
KEP3SIM_REL(lte)
KEP3SIM_REL(gte)
#undef KEP3SIM_REL
inline expression select(expression c, expression t, expression f)
{
    return expression::make(stub::o_select, {std::move(c), std::move(t), std::move(f)});
}
inline expression select(expression c, double t, expression f)
{
    return select(std::move(c), expression(t), std::move(f));
}
inline expression select(expression c, expression t, double f)
{
    return select(std::move(c), std::move(t), expression(f));
}
inline expression select(expression c, double t, double f)
{
    return select(std::move(c), expression(t), expression(f));
}

template <typename... A>
inline auto make_vars(const A &...names)
{
    if constexpr (sizeof...(A) == 1) {
        return expression(std::string(names...));
    } else {
        return std::array{expression(std::string(names))...};
    }
}
struct par_gen {
    expression operator[](std::uint32_t i) const
    {
        return expression::make_par(i);
    }
};
inline constexpr par_gen par{};

struct prime_wrapper {
    expression v;
    std::pair<expression, expression> operator=(expression e) &&
    {
        return {std::move(v), std::move(e)};
    }
    std::pair<expression, expression> operator=(double e) &&
    {
        return {std::move(v), expression(e)};
    }
};
inline prime_wrapper prime(expression e)
{
    return {std::move(e)};
}

enum class var_args : unsigned { vars = 1, params = 2, time = 4, all = 7 };
class var_ode_sys
{
public:
    using sys_t = std::vector<std::pair<expression, expression>>;
    var_ode_sys(sys_t sys, std::vector<expression> args, std::uint32_t order = 1) : m_sys(std::move(sys)), m_args(std::move(args)), m_order(order) {}
    sys_t m_sys;
    std::vector<expression> m_args;
    std::uint32_t m_order;
};
} // namespace heyoka
