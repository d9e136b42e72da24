// Stand-in for heyoka's VSOP2013 model: six made-up smooth functions of time which
// depend on the planet and on the threshold.
#pragma once
#include <array>
#include <cstdint>
#include <vector>
#include <heyoka/expression.hpp>
namespace heyoka::model
{
std::array<double, 10> get_vsop2013_mus();
std::vector<expression> stub_vsop2013(std::uint32_t, expression time, double thresh);
template <typename... KW>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t i, const KW &...k)
{
    return stub_vsop2013(i, kw::get<expression>(kw::time_expr, expression(0.), k...), kw::get<double>(kw::thresh, 1e-9, k...));
}
} // namespace heyoka::model
