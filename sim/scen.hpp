// Scenarios shared by several properties.
#pragma once
#include "h.hpp"
#include "kinds.hpp"
#include <exception>

namespace h
{
using OpExec = void (*)(const Op &, Blob &);
// kinds executed by a free function (stateless as far as the caller can see)
void add_exec(int kind, OpExec f);
OpExec find_exec(int kind);
bool is_def(const Op &);

// Concurrent scenario.  Definitions (thr -1) are built first; then the ops of
// thr 0, then one simulated thread per worker, then the ops of thr 100.
bool conc_needs_ref(const Plan &, std::size_t i);
void conc_ref(const Plan &, std::size_t i, Blob &);
void conc_exec(const Plan &, const std::vector<Blob> &, int inc);

// an operation of a history that stands alone, whatever was done before: compared
// with the same call in a fresh process
bool pure_needs_ref(const Plan &, std::size_t i);
void pure_op(const Plan &, const std::vector<Blob> &, std::size_t i);

// Storage scenario.
int stor_incarnations(const Plan &);
void stor_exec(const Plan &, const std::vector<Blob> &, int inc);

// Allocation failure scenario.
void alloc_exec(const Plan &, const std::vector<Blob> &, int inc);

// runs f(thr) on simulated threads for every worker id used in [from, to) of the plan's ops
void each(const Plan &, int thr, void (*f)(void *ctx, std::size_t op), void *ctx, std::size_t from = 0,
          std::size_t to = static_cast<std::size_t>(-1));
void run_workers(const Plan &, std::size_t from, std::size_t to, void (*f)(void *ctx, std::size_t op), void *ctx);
// which allocation of this call is to fail; FAIL_REL and up: relative to how many
// allocations the reference made
constexpr u32 FAIL_REL = 0x40000000;
u32 fail_at(const Op &, const Blob &ref);
void rec_exc(Blob &b, const std::exception &e);
void mismatch(const char *cls, const char *what, const Plan &p, std::size_t i, const Blob &want, const Blob &got);
} // namespace h
