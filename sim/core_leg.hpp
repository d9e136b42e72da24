#pragma once
#include "h.hpp"
namespace h
{
void leghist_exec(const Plan &p, const std::vector<Blob> &, int);
}
