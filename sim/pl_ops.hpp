// Planets.
#pragma once
#include "h.hpp"
namespace h
{
void pl_exec(const Plan &, const std::vector<Blob> &, int);
bool pl_needs_ref(const Plan &, std::size_t);
// arguments of a planet: I = type, sub   D = below
enum PlType : long { PT_NULL, PT_KEP_RV, PT_KEP_EL, PT_JPL, PT_VSOP, PT_MIN, PT_MU, PT_FULL, PT_N };
constexpr std::size_t PD_T0 = 0, PD_RV = 1, PD_MU = 7, PD_SELF = 8, PD_RAD = 9, PD_SAFE = 10, PD_X = 11, PD_N = 12;
constexpr long NQ_PL = 15;
constexpr long NT_PL = 12;
} // namespace h
