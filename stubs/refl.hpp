// Stand-in for refl-cpp (which is not installed here): just enough of its interface for
// /repo's headers to type-check, so that they can be analysed.  Not used to run anything.
#pragma once
#include <array>
#include <cstddef>
#include <string_view>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <ostream>

namespace refl {
namespace util {
template<std::size_t N>
struct const_string {
    static constexpr std::size_t size = N;
    char data[N + 1]{};
    constexpr const_string() = default;
    constexpr const_string(const const_string &) = default;
    constexpr explicit const_string(const char (&d)[N + 1]) { for (std::size_t i = 0; i <= N; ++i) data[i] = d[i]; }
    constexpr explicit operator std::string_view() const noexcept { return { data, N }; }
    constexpr const char *c_str() const noexcept { return data; }
    std::string str() const { return std::string(data, N); }
    constexpr char operator[](std::size_t i) const { return data[i]; }
    constexpr bool empty() const { return N == 0; }
    template<std::size_t Pos, std::size_t Cnt = static_cast<std::size_t>(-1)>
    constexpr auto substr() const noexcept {
        constexpr std::size_t n = std::min(Cnt, N - Pos);
        const_string<n> r;
        for (std::size_t i = 0; i < n; ++i) r.data[i] = data[Pos + i];
        return r;
    }
};
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const const_string<M> &b) { return std::string_view(a.data, N) == std::string_view(b.data, M); }
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const char (&b)[M]) { return std::string_view(a.data, N) == std::string_view(b, M - 1); }
template<std::size_t N>
constexpr bool operator==(const const_string<N> &a, std::string_view b) { return std::string_view(a.data, N) == b; }
template<std::size_t N>
std::ostream &operator<<(std::ostream &os, const const_string<N> &s) { return os << std::string_view(s.data, N); }
template<std::size_t N>
constexpr const_string<N - 1> make_const_string(const char (&s)[N]) { return const_string<N - 1>(s); }

template<typename... Ts>
struct type_list {
    static constexpr std::size_t size = sizeof...(Ts);
    static constexpr bool empty = size == 0;
};
namespace impl {
template<typename F, typename T>
constexpr void call(F &f, T t, std::size_t i) {
    if constexpr (std::is_invocable_v<F &, T, std::size_t>) f(t, i); else f(t);
}
}
template<typename F, typename... Ts>
constexpr void for_each(type_list<Ts...>, F &&f) {
    std::size_t i = 0;
    (impl::call(f, Ts{}, i++), ...);
    (void) i;
}
template<typename R, typename F, typename... Ts>
constexpr std::array<R, sizeof...(Ts)> map_to_array(type_list<Ts...>, F &&f) {
    std::size_t i = 0;
    if constexpr ((std::is_invocable_v<F &, Ts, std::size_t> && ...)) return { { R(f(Ts{}, i++))... } };
    else return { { R(f(Ts{}))... } };
}
template<typename F, typename... Ts>
constexpr bool contains(type_list<Ts...>, F &&f) { return (false || ... || f(Ts{})); }
template<typename T, typename... Ts>
constexpr bool contains(type_list<Ts...>) { return (false || ... || std::is_same_v<T, Ts>); }
} // namespace util
using util::const_string;
using util::for_each;
using util::contains;
using util::map_to_array;
using util::type_list;

template<typename T> struct refl_meta { using no_meta = void; };

namespace trait {
template<typename T, typename = void> struct is_reflectable : std::false_type {};
template<typename T> struct is_reflectable<T, std::enable_if_t<(refl_meta<std::remove_cv_t<std::remove_reference_t<T>>>::count >= 0)>> : std::true_type {};
template<typename T> inline constexpr bool is_reflectable_v = is_reflectable<T>::value;
}
template<typename T> constexpr bool is_reflectable() { return trait::is_reflectable_v<T>; }
template<typename T> constexpr bool is_reflectable(const T &) { return trait::is_reflectable_v<T>; }

namespace descriptor {
template<typename T> struct type_descriptor;
template<typename T, std::size_t I>
struct field_descriptor {
    using info = typename refl_meta<T>::template member<I>;
    using declaring_type = T;
    static constexpr auto name = info::name;
    static constexpr type_descriptor<T> declarator{};
    using value_type = typename info::value_type;
    static constexpr bool is_field = true;
    static constexpr bool is_function = false;
    static constexpr bool is_static = false;
    static constexpr bool is_writable = !std::is_const_v<value_type>;
    template<typename U> constexpr decltype(auto) operator()(U &&obj) const { return (std::forward<U>(obj).*(info::pointer())); }
    template<typename U, typename V> constexpr decltype(auto) operator()(U &&obj, V &&v) const { return (std::forward<U>(obj).*(info::pointer()) = std::forward<V>(v)); }
};
template<typename T, typename S> struct mk;
template<typename T, std::size_t... I> struct mk<T, std::index_sequence<I...>> { using type = util::type_list<field_descriptor<T, I>...>; };
template<typename T>
struct type_descriptor {
    using type = T;
    static constexpr auto name = refl_meta<T>::name;
    static constexpr typename mk<T, std::make_index_sequence<static_cast<std::size_t>(refl_meta<T>::count)>>::type members{};
};
template<typename T, std::size_t I> constexpr bool is_field(field_descriptor<T, I>) { return true; }
template<typename T, std::size_t I> constexpr bool is_function(field_descriptor<T, I>) { return false; }
template<typename T, std::size_t I> constexpr bool is_static(field_descriptor<T, I>) { return false; }
template<typename T, std::size_t I> constexpr bool is_writable(field_descriptor<T, I>) { return field_descriptor<T, I>::is_writable; }
template<typename T, std::size_t I> constexpr bool is_readable(field_descriptor<T, I>) { return true; }
template<typename T, std::size_t I> constexpr auto get_name(field_descriptor<T, I> d) { return d.name; }
template<typename T, std::size_t I> constexpr const char *get_display_name(field_descriptor<T, I> d) { return d.name.data; }
template<typename T, std::size_t I> constexpr const char *get_debug_name(field_descriptor<T, I> d) { return d.name.data; }
template<typename T> constexpr auto get_name(type_descriptor<T> d) { return d.name; }
template<typename T> constexpr auto get_members(type_descriptor<T> d) { return d.members; }
template<typename T, std::size_t I> std::ostream &operator<<(std::ostream &os, field_descriptor<T, I> d) { return os << d.name; }
} // namespace descriptor
using descriptor::is_field;
using descriptor::get_name;

template<typename T> constexpr descriptor::type_descriptor<std::remove_cv_t<std::remove_reference_t<T>>> reflect() { return {}; }
template<typename T> constexpr descriptor::type_descriptor<std::remove_cv_t<std::remove_reference_t<T>>> reflect(const T &) { return {}; }

namespace runtime {}

#define REFL_STUB_BUILTIN(T) template<> struct refl_meta<T> { static constexpr auto name = util::make_const_string(#T); static constexpr int count = 0; };
// refl-cpp reflects std::string/std::string_view & friends (name starts with std::)
template<typename C, typename Tr, typename A> struct refl_meta<std::basic_string<C, Tr, A>> { static constexpr auto name = util::make_const_string("std::basic_string"); static constexpr int count = 0; };
template<typename C, typename Tr> struct refl_meta<std::basic_string_view<C, Tr>> { static constexpr auto name = util::make_const_string("std::basic_string_view"); static constexpr int count = 0; };
} // namespace refl

#define REFL_DETAIL_STR_IMPL(...) #__VA_ARGS__
#define REFL_DETAIL_STR(...) REFL_DETAIL_STR_IMPL(__VA_ARGS__)
#define REFL_DETAIL_FIRST(X, ...) X

#define REFL_TYPE(TypeName, ...) \
    template<> struct refl::refl_meta<TypeName> { \
        using self = TypeName; \
        static constexpr auto name = ::refl::util::make_const_string(REFL_DETAIL_STR(TypeName)); \
        template<std::size_t I, typename Unused = void> struct member; \
        static constexpr int counter_base = __COUNTER__ + 1;
#define REFL_FIELD(FieldName, ...) \
        template<typename Unused> struct member<static_cast<std::size_t>(__COUNTER__ - counter_base), Unused> { \
            static constexpr auto name = ::refl::util::make_const_string(#FieldName); \
            using value_type = decltype(self::FieldName); \
            static constexpr auto pointer() { return &self::FieldName; } \
        };
#define REFL_DETAIL_EX_1_field(X, ...) REFL_FIELD(X)
#define REFL_END static constexpr int count = __COUNTER__ - counter_base; };
#define REFL_END_ REFL_END

#define REFL_STUB_PARENS ()
#define REFL_STUB_EXPAND(...) REFL_STUB_EXPAND3(REFL_STUB_EXPAND3(REFL_STUB_EXPAND3(REFL_STUB_EXPAND3(__VA_ARGS__))))
#define REFL_STUB_EXPAND3(...) REFL_STUB_EXPAND2(REFL_STUB_EXPAND2(REFL_STUB_EXPAND2(REFL_STUB_EXPAND2(__VA_ARGS__))))
#define REFL_STUB_EXPAND2(...) REFL_STUB_EXPAND1(REFL_STUB_EXPAND1(REFL_STUB_EXPAND1(REFL_STUB_EXPAND1(__VA_ARGS__))))
#define REFL_STUB_EXPAND1(...) __VA_ARGS__
#define REFL_DETAIL_FOR_EACH(macro, ...) __VA_OPT__(REFL_STUB_EXPAND(REFL_STUB_FE(macro, __VA_ARGS__)))
#define REFL_STUB_FE(macro, a, ...) macro(a) __VA_OPT__(REFL_STUB_FE_AGAIN REFL_STUB_PARENS (macro, __VA_ARGS__))
#define REFL_STUB_FE_AGAIN() REFL_STUB_FE
#define REFL_AUTO(...)
