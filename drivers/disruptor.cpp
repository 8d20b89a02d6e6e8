#include <cassert>
#include <cstddef>
#include <array>
#include <disruptor/RingBuffer.hpp>
using namespace opencmw::disruptor;
using Deps = std::vector<std::shared_ptr<Sequence>>;
template<std::size_t N, typename W> using S = SingleThreadedStrategy<N, W>;
template<std::size_t N, typename W> using M = MultiThreadedStrategy<N, W>;
// layout of the fields the inductive invariants speak about (-1: not there under this name)
#define VF_OFF(fn, T, f) namespace vfi { template<typename X> long off_##fn() { if constexpr (requires(X *p) { p->f; }) return static_cast<long>(__builtin_offsetof(X, f)); else return -1; } } extern "C" long fn() { return vfi::off_##fn<T>(); }
#define VF_STRAT(tag, T) \
    extern "C" std::int64_t vf_##tag##_next(T &s, const Deps &d, std::int32_t n) { return s.next(d, n); } \
    extern "C" std::int64_t vf_##tag##_trynext(T &s, const Deps &d, std::int32_t n) { return s.tryNext(d, n); } \
    extern "C" bool         vf_##tag##_has(const T &s, const Deps &d, std::int32_t n, std::int64_t c) { return s.hasAvailableCapacity(d, n, c); } \
    extern "C" std::int64_t vf_##tag##_remain(const T &s, const Deps &d) { return s.getRemainingCapacity(d); } \
    extern "C" void         vf_##tag##_publish(T &s, std::int64_t q) { s.publish(q); } \
    extern "C" bool         vf_##tag##_avail(const T &s, std::int64_t q) { return s.isAvailable(q); } \
    extern "C" std::int64_t vf_##tag##_highest(const T &s, std::int64_t lo, std::int64_t hi) { return s.getHighestPublishedSequence(lo, hi); } \
    extern "C" void         vf_##tag##_ctor(T *s, Sequence &c, std::remove_reference_t<decltype(s->_waitStrategy)> &w) { new (s) T(c, w); } \
    VF_OFF(vf_##tag##_off_cursor, T, _cursor) VF_OFF(vf_##tag##_off_wait, T, _waitStrategy)
#define VF_S(tag, T) VF_STRAT(tag, T) VF_OFF(vf_##tag##_off_next, T, _nextValue) VF_OFF(vf_##tag##_off_cached, T, _cachedValue)
#define VF_M(tag, T) VF_STRAT(tag, T) VF_OFF(vf_##tag##_off_cache, T, _gatingSequenceCache) VF_OFF(vf_##tag##_off_buf, T, _availableBuffer)
using S8 = S<8, NoWaitStrategy>; using S8B = S<8, BlockingWaitStrategy>; using S1024 = S<1024, NoWaitStrategy>;
using M8 = M<8, NoWaitStrategy>; using M8B = M<8, BlockingWaitStrategy>; using M1024 = M<1024, NoWaitStrategy>;
VF_S(s8, S8) VF_S(s8b, S8B) VF_S(s1k, S1024)
VF_M(m8, M8) VF_M(m8b, M8B) VF_M(m1k, M1024)
extern "C" std::int64_t vf_min(const Deps &d, std::int64_t m) { return detail::getMinimumSequence(d, m); }
// Sequence
extern "C" std::int64_t vf_seq_value(const Sequence &s) { return s.value(); }
extern "C" void         vf_seq_set(Sequence &s, std::int64_t v) { s.setValue(v); }
extern "C" bool         vf_seq_cas(Sequence &s, std::int64_t e, std::int64_t v) { return s.compareAndSet(e, v); }
extern "C" std::int64_t vf_seq_inc(Sequence &s) { return s.incrementAndGet(); }
extern "C" std::int64_t vf_seq_add(Sequence &s, std::int64_t v) { return s.addAndGet(v); }
extern "C" void         vf_seq_ctor(Sequence *s) { new (s) Sequence(); }
extern "C" void         vf_seq_ctor_v(Sequence *s, std::int64_t v) { new (s) Sequence(v); }
