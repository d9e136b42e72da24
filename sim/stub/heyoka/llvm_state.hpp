// Stand-in for heyoka's JIT: compiled functions are slots of a table, alive as long
// as the llvm_state that owns them; calling one afterwards is reported.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <heyoka/expression.hpp>

namespace heyoka
{
class llvm_state
{
public:
    llvm_state();
    llvm_state(const llvm_state &);
    llvm_state(llvm_state &&) noexcept;
    llvm_state &operator=(const llvm_state &);
    llvm_state &operator=(llvm_state &&) noexcept;
    ~llvm_state();
    void compile();
    bool is_compiled() const
    {
        return m_slot >= 0;
    }
    std::uintptr_t jit_lookup(const std::string &name) const;
    void stub_add(const std::string &name, const std::vector<expression> &, const std::vector<expression> &vars);

private:
    std::string m_name; // one function per state is enough here
    std::string m_text;
    int m_slot = -1;
    void swap(llvm_state &) noexcept;
    friend class boost::serialization::access;
    template <typename A>
    void save(A &ar, unsigned) const
    {
        const bool c = is_compiled();
        ar << m_name;
        ar << m_text;
        ar << c;
    }
    template <typename A>
    void load(A &ar, unsigned)
    {
        llvm_state n;
        bool c = false;
        try {
            ar >> n.m_name;
            ar >> n.m_text;
            ar >> c;
            if (c) {
                n.compile();
            }
        } catch (...) {
            *this = llvm_state{};
            throw;
        }
        swap(n);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
};
template <typename T, typename... KW>
void add_cfunc(llvm_state &s, const std::string &name, const std::vector<expression> &fn, const std::vector<expression> &vars, const KW &...)
{
    s.stub_add(name, fn, vars);
}
} // namespace heyoka
