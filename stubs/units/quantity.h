// Stand-in for mp-units 0.8 (not installed here): enough for /repo's headers to type-check.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <optional>
#include <ratio>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <variant>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <format>
#include <ostream>
#include <string_view>
#include <type_traits>
#include <utility>

namespace units {
template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1] = {};
    using value_type = CharT;
    constexpr basic_fixed_string() = default;
    constexpr basic_fixed_string(const CharT (&txt)[N + 1]) noexcept { for (std::size_t i = 0; i < N; ++i) data_[i] = txt[i]; }
    constexpr explicit(false) basic_fixed_string(CharT ch) noexcept { data_[0] = ch; }
    constexpr bool empty() const noexcept { return N == 0; }
    constexpr std::size_t size() const noexcept { return N; }
    constexpr const CharT *data() const noexcept { return data_; }
    constexpr const CharT *c_str() const noexcept { return data_; }
    constexpr CharT operator[](std::size_t i) const noexcept { return data_[i]; }
    constexpr operator std::basic_string_view<CharT>() const noexcept { return { data_, N }; }
    constexpr bool operator==(const basic_fixed_string &o) const { return std::basic_string_view<CharT>(data_, N) == std::basic_string_view<CharT>(o.data_, N); }
    template<std::size_t M> constexpr bool operator==(const basic_fixed_string<CharT, M> &) const { return false; }
    constexpr auto operator<=>(const basic_fixed_string &) const = default;
};
template<typename CharT, std::size_t N> basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<typename CharT> basic_fixed_string(CharT) -> basic_fixed_string<CharT, 1>;
template<std::size_t N> using fixed_string = basic_fixed_string<char, N>;

template<typename A, typename B> inline constexpr bool is_same_v = std::is_same_v<A, B>;

namespace detail {
template<typename T, template<typename...> typename Type> struct is_spec : std::false_type {};
template<typename... P, template<typename...> typename Type> struct is_spec<Type<P...>, Type> : std::true_type {};
template<template<typename...> typename Type, typename... P> void to_base_specialization_of(const volatile Type<P...> *);
}
template<typename T, template<typename...> typename Type> inline constexpr bool is_specialization_of = detail::is_spec<T, Type>::value;
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = requires(T *t) { detail::to_base_specialization_of<Type>(t); };

template<typename T>
concept scalable_ = std::is_arithmetic_v<T>;
template<typename T>
concept Representation = std::is_arithmetic_v<T> && !std::is_same_v<T, void>;

namespace detail { struct stub_text { fixed_string<1> t{ "1" }; constexpr auto ascii() const { return fixed_string<0>{ "" }; } }; }
struct dim_one {}; struct one {};
template<typename D, typename U, typename Rep = double>
struct quantity;
template<typename T> inline constexpr bool is_quantity_stub = false;
template<typename D, typename U, typename R> inline constexpr bool is_quantity_stub<quantity<D, U, R>> = true;
template<typename T> concept Quantity = is_quantity_stub<T>;
template<typename T> concept QuantityLike = requires { typename T::units_stub_quantity_like; };
template<typename T> concept wrapped_quantity_ = requires { typename T::value_type; } && Quantity<typename T::value_type>;

template<typename D, typename U, typename Rep>
struct quantity {
    using dimension = D; using unit = U; using rep = Rep;
    Rep number_{};
    constexpr quantity() = default;
    constexpr quantity(const quantity &) = default;
    constexpr quantity(quantity &&) = default;
    template<typename V> requires std::is_arithmetic_v<V>
    constexpr explicit(false) quantity(const V &v) : number_(static_cast<Rep>(v)) {}
    template<typename R2, typename P2>
    constexpr explicit(false) quantity(std::chrono::duration<R2, P2> d) : number_(static_cast<Rep>(std::chrono::duration_cast<std::chrono::microseconds>(d).count())) {}
    template<typename R2> constexpr explicit(false) quantity(const quantity<D, U, R2> &o) : number_(static_cast<Rep>(o.number())) {}
    constexpr quantity &operator=(const quantity &) = default;
    constexpr quantity &operator=(quantity &&) = default;
    [[nodiscard]] constexpr Rep &number() & noexcept { return number_; }
    [[nodiscard]] constexpr const Rep &number() const & noexcept { return number_; }
    [[nodiscard]] constexpr Rep &&number() && noexcept { return std::move(number_); }
    [[nodiscard]] static constexpr quantity zero() noexcept { return quantity(Rep{ 0 }); }
    constexpr auto operator<=>(const quantity &) const = default;
    constexpr quantity &operator+=(const quantity &o) { number_ += o.number_; return *this; }
    constexpr quantity &operator-=(const quantity &o) { number_ -= o.number_; return *this; }
    friend constexpr quantity operator+(const quantity &a, const quantity &b) { return quantity(a.number_ + b.number_); }
    friend constexpr quantity operator-(const quantity &a, const quantity &b) { return quantity(a.number_ - b.number_); }
    friend constexpr quantity operator*(const quantity &a, const Rep &b) { return quantity(a.number_ * b); }
    friend constexpr quantity operator/(const quantity &a, const Rep &b) { return quantity(a.number_ / b); }
};
template<typename U, typename Rep = double> using dimensionless = quantity<dim_one, U, Rep>;
namespace detail { template<typename D, typename U> constexpr auto unit_text() { return stub_text{}; } }
template<typename D, typename U, typename R> std::ostream &operator<<(std::ostream &os, const quantity<D, U, R> &q) { return os << q.number(); }
template<typename To, typename D, typename U, typename R> constexpr To quantity_cast(const quantity<D, U, R> &q) { return To(q.number()); }

namespace isq {
struct dim_time {}; struct dim_length {}; struct dim_thermodynamic_temperature {}; struct dim_speed {}; struct dim_electric_current {}; struct dim_energy {}; struct dim_mass {}; struct dim_frequency {};
template<typename T> inline constexpr bool is_time_stub = false;
template<typename U, typename R> inline constexpr bool is_time_stub<quantity<dim_time, U, R>> = true;
template<typename U, typename R> std::true_type time_test(const quantity<dim_time, U, R> *);
template<typename T> concept Time = requires(std::remove_cvref_t<T> *t) { time_test(t); };
namespace si {
struct second {}; struct microsecond {}; struct nanosecond {}; struct millisecond {}; struct metre {}; struct kelvin {}; struct metre_per_second {}; struct ampere {}; struct electronvolt {}; struct kilogram {}; struct hertz {}; struct volt {};
template<typename U, typename R = double> using time = quantity<dim_time, U, R>;
template<typename U, typename R = double> using length = quantity<dim_length, U, R>;
template<typename U, typename R = double> using speed = quantity<dim_speed, U, R>;
template<typename U, typename R = double> using thermodynamic_temperature = quantity<dim_thermodynamic_temperature, U, R>;
template<typename U, typename R = double> using electric_current = quantity<dim_electric_current, U, R>;
template<typename U, typename R = double> using energy = quantity<dim_energy, U, R>;
template<typename U, typename R = double> using mass = quantity<dim_mass, U, R>;
template<typename U, typename R = double> using frequency = quantity<dim_frequency, U, R>;
} // namespace si
} // namespace isq
namespace aliases {}
} // namespace units
template<typename D, typename U, typename R>
struct std::formatter<units::quantity<D, U, R>> : std::formatter<R> {
    template<typename C> auto format(const units::quantity<D, U, R> &q, C &ctx) const { return std::formatter<R>::format(q.number(), ctx); }
};
