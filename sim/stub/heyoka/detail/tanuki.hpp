// Minimal stand-in for the tanuki type-erasure library: value semantics, heap
// storage only.
#pragma once
#include <concepts>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <array>
#include <string>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/assume_abstract.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/tracking.hpp>

#define TANUKI_WITH_BOOST_S11N

namespace tanuki
{
enum class wrap_ctor { always_explicit, ref_implicit, always_implicit };
enum class wrap_semantics { value, reference };
struct no_ref_iface {
    template <typename>
    struct impl {
    };
};
template <typename Def = void, typename Ref = no_ref_iface>
struct config {
    using default_value_type = Def;
    using ref_iface = Ref;
    std::size_t static_size = 48;
    std::size_t static_align = alignof(std::max_align_t);
    bool pointer_interface = true;
    wrap_ctor explicit_ctor = wrap_ctor::always_explicit;
    wrap_semantics semantics = wrap_semantics::value;
    bool copyable = true;
    bool movable = true;
    bool swappable = true;
};

template <typename IFace>
struct value_iface : IFace {
    virtual value_iface *_clone() const = 0;
    virtual std::type_index _type() const noexcept = 0;
    virtual void *_ptr() noexcept = 0;
    virtual const void *_cptr() const noexcept = 0;

private:
    friend class boost::serialization::access;
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
template <typename T, typename IFace>
struct holder;
template <typename T, typename IFace>
using impl_base = typename IFace::template impl<value_iface<IFace>, holder<T, IFace>, T>;

template <typename T, typename IFace>
struct holder final : impl_base<T, IFace> {
    T m_value;
    holder() : m_value() {}
    explicit holder(const T &v) : m_value(v) {}
    explicit holder(T &&v) : m_value(std::move(v)) {}
    value_iface<IFace> *_clone() const final
    {
        return new holder(m_value);
    }
    std::type_index _type() const noexcept final
    {
        return typeid(T);
    }
    void *_ptr() noexcept final
    {
        return std::addressof(m_value);
    }
    const void *_cptr() const noexcept final
    {
        return std::addressof(m_value);
    }

private:
    friend class boost::serialization::access;
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &boost::serialization::base_object<value_iface<IFace>>(*this);
        ar &m_value;
    }
};
template <typename H, typename B>
const auto &getval(const B *b) noexcept
{
    return static_cast<const H *>(b)->m_value;
}
template <typename H, typename B>
auto &getval(B *b) noexcept
{
    return static_cast<std::conditional_t<std::is_const_v<B>, const H, H> *>(b)->m_value;
}
template <typename H, typename B>
auto &getval(B &b) noexcept
{
    return getval<H>(std::addressof(b));
}

template <typename IFace, auto Cfg>
class wrap;
template <typename T>
inline constexpr bool is_wrap_v = false;
template <typename IFace, auto Cfg>
inline constexpr bool is_wrap_v<wrap<IFace, Cfg>> = true;

template <typename IFace, auto Cfg>
class wrap : public decltype(Cfg)::ref_iface::template impl<wrap<IFace, Cfg>>
{
    using def_t = typename decltype(Cfg)::default_value_type;
    std::unique_ptr<value_iface<IFace>> m_p;

public:
    wrap() : m_p(new holder<def_t, IFace>()) {}
    template <typename T>
        requires(!is_wrap_v<std::remove_cvref_t<T>>)
                && requires { typename impl_base<std::remove_cvref_t<T>, IFace>; } && std::copy_constructible<std::remove_cvref_t<T>>
    explicit wrap(T &&x) : m_p(new holder<std::remove_cvref_t<T>, IFace>(std::forward<T>(x)))
    {
    }
    wrap(const wrap &o) : decltype(Cfg)::ref_iface::template impl<wrap<IFace, Cfg>>(), m_p(o.m_p ? o.m_p->_clone() : nullptr) {}
    wrap(wrap &&) noexcept = default;
    wrap &operator=(const wrap &o)
    {
        if (this != &o) {
            m_p.reset(o.m_p ? o.m_p->_clone() : nullptr);
        }
        return *this;
    }
    wrap &operator=(wrap &&) noexcept = default;
    template <typename T>
        requires(!is_wrap_v<std::remove_cvref_t<T>>)
    wrap &operator=(T &&x)
    {
        return *this = wrap(std::forward<T>(x));
    }
    friend void swap(wrap &a, wrap &b) noexcept
    {
        std::swap(a.m_p, b.m_p);
    }
    value_iface<IFace> *_get() const noexcept
    {
        return m_p.get();
    }

private:
    friend class boost::serialization::access;
    template <typename A>
    void save(A &ar, unsigned) const
    {
        const value_iface<IFace> *p = m_p.get();
        ar << p;
    }
    template <typename A>
    void load(A &ar, unsigned)
    {
        value_iface<IFace> *p = nullptr;
        ar >> p;
        m_p.reset(p);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
};
template <typename IFace, auto Cfg>
const IFace *iface_ptr(const wrap<IFace, Cfg> &w) noexcept
{
    return w._get();
}
template <typename IFace, auto Cfg>
IFace *iface_ptr(wrap<IFace, Cfg> &w) noexcept
{
    return w._get();
}
template <typename IFace, auto Cfg>
bool is_valid(const wrap<IFace, Cfg> &w) noexcept
{
    return w._get() != nullptr;
}
template <typename IFace, auto Cfg>
bool is_invalid(const wrap<IFace, Cfg> &w) noexcept
{
    return w._get() == nullptr;
}
template <typename IFace, auto Cfg>
std::type_index value_type_index(const wrap<IFace, Cfg> &w) noexcept
{
    return w._get()->_type();
}
template <typename T, typename IFace, auto Cfg>
T *value_ptr(wrap<IFace, Cfg> &w) noexcept
{
    return w._get()->_type() == typeid(T) ? static_cast<T *>(w._get()->_ptr()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
const T *value_ptr(const wrap<IFace, Cfg> &w) noexcept
{
    return w._get()->_type() == typeid(T) ? static_cast<const T *>(w._get()->_cptr()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
T &value_ref(wrap<IFace, Cfg> &w)
{
    T *p = value_ptr<T>(w);
    return p ? *p : throw std::bad_cast{};
}
template <typename T, typename IFace, auto Cfg>
const T &value_ref(const wrap<IFace, Cfg> &w)
{
    const T *p = value_ptr<T>(w);
    return p ? *p : throw std::bad_cast{};
}
template <typename T, typename IFace, auto Cfg>
bool value_isa(const wrap<IFace, Cfg> &w) noexcept
{
    return w._get()->_type() == typeid(T);
}
} // namespace tanuki

namespace boost::serialization
{
template <typename T, typename IFace>
struct tracking_level<tanuki::holder<T, IFace>> {
    typedef mpl::integral_c_tag tag;
    typedef mpl::int_<track_never> type;
    BOOST_STATIC_CONSTANT(int, value = track_never);
};
template <typename IFace>
struct tracking_level<tanuki::value_iface<IFace>> {
    typedef mpl::integral_c_tag tag;
    typedef mpl::int_<track_never> type;
    BOOST_STATIC_CONSTANT(int, value = track_never);
};
template <typename IFace>
struct is_abstract<tanuki::value_iface<IFace>> : mpl::true_ {
};
} // namespace boost::serialization

#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <typename KSW = Wrap, typename... KSA>                                                                    \
    auto name(KSA &&...a) const->decltype(::tanuki::iface_ptr(*static_cast<const KSW *>(this))->name(std::forward<KSA>(a)...)) \
    {                                                                                                                  \
        return ::tanuki::iface_ptr(*static_cast<const KSW *>(this))->name(std::forward<KSA>(a)...);                     \
    }

#define TANUKI_S11N_WRAP_EXPORT_KEY(ud, ...)                                                                           \
    namespace boost::serialization                                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct guid_defined<tanuki::holder<ud, __VA_ARGS__>> : boost::mpl::true_ {                                         \
    };                                                                                                                 \
    template <>                                                                                                        \
    inline const char *guid<tanuki::holder<ud, __VA_ARGS__>>()                                                         \
    {                                                                                                                  \
        return "tanuki::wrap<" #__VA_ARGS__ ">@" #ud;                                                                  \
    }                                                                                                                  \
    }
#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(ud, ...)                                                                     \
    namespace boost::archive::detail::extra_detail                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct init_guid<tanuki::holder<ud, __VA_ARGS__>> {                                                                \
        static guid_initializer<tanuki::holder<ud, __VA_ARGS__>> const &g;                                             \
    };                                                                                                                 \
    guid_initializer<tanuki::holder<ud, __VA_ARGS__>> const &init_guid<tanuki::holder<ud, __VA_ARGS__>>::g             \
        = boost::serialization::singleton<guid_initializer<tanuki::holder<ud, __VA_ARGS__>>>::get_mutable_instance()   \
              .export_guid();                                                                                          \
    }
#define TANUKI_S11N_WRAP_EXPORT(ud, ...)                                                                               \
    TANUKI_S11N_WRAP_EXPORT_KEY(ud, __VA_ARGS__)                                                                       \
    TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(ud, __VA_ARGS__)
