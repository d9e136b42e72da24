// Integrator caches, Stark problems and high fidelity legs.
#pragma once
#include "h.hpp"
#include <array>
namespace h
{
void ta_exec(const Plan &, const std::vector<Blob> &, int);
void stark_exec(const Plan &, const std::vector<Blob> &, int);
void hf_exec(const Plan &, const std::vector<Blob> &, int);
bool ta_needs_ref(const Plan &, std::size_t);
void ta_alloc_exec(const Plan &, const std::vector<Blob> &, int);
void ta_stor_exec(const Plan &, const std::vector<Blob> &, int);

// high fidelity leg arguments: D = rvms(7) rvmf(7) tof thrust isp mu cut tol throttles...
constexpr std::size_t HF_TOF = 14, HF_THRUST = 15, HF_ISP = 16, HF_MU = 17, HF_CUT = 18, HF_TOL = 19, HF_TH = 20;
constexpr long NQ_HF = 12, NQ_STARK = 5;
} // namespace h
