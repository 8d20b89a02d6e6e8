#include <cstdint>
#include <type_traits>
#include <utility>
#include <ReaderWriterLock.hpp>
using L = opencmw::ReaderWriterLock;
using enum opencmw::ReaderWriterLockType;
extern "C" {
std::int64_t vf_lock_read(L &l) { return l.lock<READ>(); }
std::int64_t vf_lock_write(L &l) { return l.lock<WRITE>(); }
std::int64_t vf_trylock_read(L &l) { return l.tryLock<READ>(); }
std::int64_t vf_trylock_write(L &l) { return l.tryLock<WRITE>(); }
std::int64_t vf_unlock_read(L &l) { return l.unlock<READ>(); }
std::int64_t vf_unlock_write(L &l) { return l.unlock<WRITE>(); }
std::int64_t vf_value(const L &l) { return l.value(); }
void vf_body();
void vf_guard_read(L &l) { auto g = l.scopedGuard<READ>(); vf_body(); }
void vf_guard_write(L &l) { auto g = l.scopedGuard<WRITE>(); vf_body(); }
}
namespace vfi {
// a guard type that can be copied or moved must stay balanced when that is used
template<auto K> void vft_copy(L &l) {
    auto g = l.scopedGuard<K>();
    if constexpr (std::is_copy_constructible_v<decltype(g)>) { auto h = g; vf_body(); } else vf_body();
}
template<auto K> void vft_move(L &l) {
    auto g = l.scopedGuard<K>();
    if constexpr (std::is_move_constructible_v<decltype(g)>) { auto h = std::move(g); vf_body(); } else vf_body();
}
template<auto K> void vft_assign(L &l) {
    auto g = l.scopedGuard<K>();
    auto h = l.scopedGuard<K>();
    if constexpr (std::is_copy_assignable_v<decltype(g)>) h = g;
    if constexpr (std::is_move_assignable_v<decltype(g)>) h = std::move(g);
    vf_body();
}
}
using namespace vfi;
extern "C" {
void vf_gcopy_read(L &l) { vft_copy<READ>(l); }
void vf_gmove_read(L &l) { vft_move<READ>(l); }
void vf_gassign_read(L &l) { vft_assign<READ>(l); }
void vf_gcopy_write(L &l) { vft_copy<WRITE>(l); }
void vf_gmove_write(L &l) { vft_move<WRITE>(l); }
void vf_gassign_write(L &l) { vft_assign<WRITE>(l); }
}
