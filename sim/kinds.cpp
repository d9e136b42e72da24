#include "kinds.hpp"
#include "h.hpp"
namespace h
{
static const char *const names[] = {
#define K(x) #x,
#include "kinds.def"
#undef K
};
const char *kind_name(int k)
{
    return k >= 0 && k < K_COUNT ? names[k] : "?";
}
int kind_of(const std::string &s)
{
    for (int i = 0; i < K_COUNT; ++i) {
        if (s == names[i]) {
            return i;
        }
    }
    return -1;
}
} // namespace h
