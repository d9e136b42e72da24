#pragma once
namespace h
{
enum K : int {
#define K(x) K_##x,
#include "kinds.def"
#undef K
    K_COUNT
};
}
