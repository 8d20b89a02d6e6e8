// Force-included before a driver: replaces the (unrolled) libstdc++ search algorithms by their textbook loops, so
// that the analyses see one loop per algorithm.  Semantics are those of the standard.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <charconv>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <format>
#include <functional>
#include <iomanip>
#include <iterator>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <utility>
#include <vector>
namespace std {
template<class I, class P> constexpr bool vf_all_of(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return false; return true; }
template<class I, class P> constexpr bool vf_any_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return true; return false; }
template<class I, class P> constexpr bool vf_none_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return false; return true; }
template<class I, class P> constexpr I vf_find_if(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return f; return l; }
template<class I, class P> constexpr I vf_find_if_not(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return f; return l; }
template<class I, class P> constexpr P vf_for_each(I f, I l, P p) { for (; f != l; ++f) p(*f); return p; }
namespace ranges {
template<class I, class S, class P> constexpr void vf_for_each(I f, S l, P p) { for (; f != l; ++f) p(*f); }
template<class R, class P> constexpr void vf_for_each(R &&r, P p) { for (auto &&x : r) p(x); }
template<class R, class P> constexpr bool vf_all_of(R &&r, P p) { for (auto &&x : r) if (!p(x)) return false; return true; }
template<class R, class P> constexpr bool vf_any_of(R &&r, P p) { for (auto &&x : r) if (p(x)) return true; return false; }
template<class R, class P> constexpr bool vf_none_of(R &&r, P p) { for (auto &&x : r) if (p(x)) return false; return true; }
template<class R, class P> constexpr auto vf_find_if(R &&r, P p) { auto f = r.begin(); for (; f != r.end(); ++f) if (p(*f)) return f; return f; }
template<class R, class P> constexpr auto vf_find_if_not(R &&r, P p) { auto f = r.begin(); for (; f != r.end(); ++f) if (!p(*f)) return f; return f; }
} // namespace ranges
} // namespace std
#define for_each vf_for_each
#define all_of vf_all_of
#define any_of vf_any_of
#define none_of vf_none_of
#define find_if vf_find_if
#define find_if_not vf_find_if_not
