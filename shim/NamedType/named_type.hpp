// Minimal stand-in for the (absent, offline) vendor/NamedType submodule.
// It reproduces only the strong-typedef interface SIREN uses: explicit construction,
// get(), and the skills Callable (implicit conversion to the wrapped type / ->),
// Comparable, BinaryAddable, Subtractable.  No SIREN behaviour lives here.
#pragma once
#include <type_traits>
#include <utility>
#include <memory>

#define FLUENT_NODISCARD
#define FLUENT_CONSTEXPR17
#define FLUENT_EBCO

namespace fluent {

template <typename T, template <typename> class crtpType>
struct crtp {
    constexpr T & underlying() { return static_cast<T &>(*this); }
    constexpr T const & underlying() const { return static_cast<T const &>(*this); }
};

template <typename T, typename Parameter, template <typename> class... Skills>
class NamedType : public Skills<NamedType<T, Parameter, Skills...>>... {
public:
    using UnderlyingType = T;
    using ref = NamedType<T &, Parameter, Skills...>;
    constexpr NamedType() = default;
    explicit constexpr NamedType(T const & value) : value_(value) {}
    explicit constexpr NamedType(T && value) : value_(std::move(value)) {}
    constexpr T & get() { return value_; }
    constexpr std::remove_reference_t<T> const & get() const { return value_; }
private:
    T value_;
};

template <typename T> struct Incrementable : crtp<T, Incrementable> {};
template <typename T> struct BinaryAddable : crtp<T, BinaryAddable> {
    constexpr T operator+(T const & o) const { return T(this->underlying().get() + o.get()); }
    T & operator+=(T const & o) { this->underlying().get() += o.get(); return this->underlying(); }
};
template <typename T> struct BinarySubtractable : crtp<T, BinarySubtractable> {
    constexpr T operator-(T const & o) const { return T(this->underlying().get() - o.get()); }
    T & operator-=(T const & o) { this->underlying().get() -= o.get(); return this->underlying(); }
};
template <typename T> struct UnarySubtractable : crtp<T, UnarySubtractable> {
    constexpr T operator-() const { return T(-this->underlying().get()); }
};
template <typename T> struct Subtractable : crtp<T, Subtractable> {
    constexpr T operator-(T const & o) const { return T(this->underlying().get() - o.get()); }
    constexpr T operator-() const { return T(-this->underlying().get()); }
    T & operator-=(T const & o) { this->underlying().get() -= o.get(); return this->underlying(); }
};
template <typename T> struct Comparable : crtp<T, Comparable> {
    constexpr bool operator<(T const & o) const { return this->underlying().get() < o.get(); }
    constexpr bool operator>(T const & o) const { return o.get() < this->underlying().get(); }
    constexpr bool operator<=(T const & o) const { return !(o < this->underlying()); }
    constexpr bool operator>=(T const & o) const { return !(*this < o); }
    constexpr bool operator==(T const & o) const { return this->underlying().get() == o.get(); }
    constexpr bool operator!=(T const & o) const { return !(*this == o); }
};
template <typename T> struct Callable;
template <typename T, typename P, template <typename> class... S>
struct Callable<NamedType<T, P, S...>> : crtp<NamedType<T, P, S...>, Callable> {
    operator T const &() const { return this->underlying().get(); }
    operator T &() { return this->underlying().get(); }
    std::remove_reference_t<T> const * operator->() const { return std::addressof(this->underlying().get()); }
    std::remove_reference_t<T> * operator->() { return std::addressof(this->underlying().get()); }
};

} // namespace fluent
