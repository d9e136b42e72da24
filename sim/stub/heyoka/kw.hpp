// Stand-in for heyoka's named arguments.
#pragma once
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>
namespace heyoka::kw
{
template <typename Tag, typename T>
struct arg {
    T v;
};
template <typename Tag>
struct name {
    template <typename T>
    constexpr auto operator=(T &&x) const
    {
        return arg<Tag, std::decay_t<T>>{std::forward<T>(x)};
    }
    template <typename T>
    auto operator=(std::initializer_list<T> l) const
    {
        return arg<Tag, std::vector<T>>{std::vector<T>(l)};
    }
};
#define KEP3SIM_KW(n)                                                                                                  \
    struct n##_tag {                                                                                                   \
    };                                                                                                                 \
    inline constexpr name<n##_tag> n{};
KEP3SIM_KW(tol)
KEP3SIM_KW(pars)
KEP3SIM_KW(compact_mode)
KEP3SIM_KW(high_accuracy)
KEP3SIM_KW(time)
KEP3SIM_KW(time_expr)
KEP3SIM_KW(thresh)
KEP3SIM_KW(opt_level)
KEP3SIM_KW(fast_math)
KEP3SIM_KW(parallel_mode)
KEP3SIM_KW(batch_size)
KEP3SIM_KW(max_steps)
KEP3SIM_KW(max_delta_t)
KEP3SIM_KW(callback)
KEP3SIM_KW(c_output)
#undef KEP3SIM_KW
template <typename Tag>
inline constexpr const name<Tag> *tagp = nullptr;
// value of the argument with that tag, or the default
template <typename R, typename Tag>
R get(const name<Tag> &, R dflt)
{
    return dflt;
}
template <typename R, typename Tag, typename U, typename T, typename... A>
R get(const name<Tag> &n, R dflt, const arg<U, T> &a, const A &...rest)
{
    if constexpr (std::is_same_v<U, Tag>) {
        if constexpr (std::is_arithmetic_v<R>) {
            return static_cast<R>(a.v);
        } else if constexpr (std::is_constructible_v<R, const T &>) {
            return R(a.v);
        } else {
            return R(a.v.begin(), a.v.end());
        }
    } else {
        return get<R>(n, std::move(dflt), rest...);
    }
}
} // namespace heyoka::kw
