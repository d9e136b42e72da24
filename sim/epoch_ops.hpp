// Epoch scenarios.
#pragma once
#include "h.hpp"
namespace h
{
void epoch_exec(const Plan &, const std::vector<Blob> &, int);
// sub-operations of K_EPOCH_OP (second integer of the operation)
enum EpochSub : long {
    ES_DEFAULT = 0, // slot
    ES_DAYS,        // slot, sub, type(0..2, 3: no such type)      D: days
    ES_CAL,         // slot, sub, y, mon, d, h, min, s, ms, us
    ES_STR,         // slot, sub, y, mon, d, h, min, s, us, length, corruption
    ES_TP,          // slot, sub, microseconds
    ES_ADD,         // slot, sub, unit, count                        D: count for the floating units
    ES_SUB,
    ES_PLUS,  // slot, sub, unit, count, source slot
    ES_MINUS, // slot, sub, unit, count, source slot
    ES_DIFF,  // slot, sub, other
    ES_CMP,   // slot, sub, other
    ES_JD,
    ES_PRINT, // slot, sub, how
    ES_COPY,  // slot, sub, other, how
    ES_N
};
} // namespace h
