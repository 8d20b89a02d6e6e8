#include <cassert>
#include <cstddef>
#include <array>
#include <disruptor/RingBuffer.hpp>
using namespace opencmw::disruptor;
#define VF_OFF(fn, T, f) namespace vfi { template<typename X> long off_##fn() { if constexpr (requires(X *p) { p->f; }) return static_cast<long>(__builtin_offsetof(X, f)); else return -1; } } extern "C" long fn() { return vfi::off_##fn<T>(); }
using RS = RingBuffer<long, 8, NoWaitStrategy, SingleThreadedStrategy>;
using RM = RingBuffer<long, 8, NoWaitStrategy, MultiThreadedStrategy>;
using RK = RingBuffer<long, 1024, NoWaitStrategy, MultiThreadedStrategy>;
using PS = EventPoller<long, 8, NoWaitStrategy, SingleThreadedStrategy>;
using PM = EventPoller<long, 8, NoWaitStrategy, MultiThreadedStrategy>;
extern "C" bool vf_handler(long &e, std::int64_t s, bool last);
extern "C" void vf_handler_v(long &e, std::int64_t s, bool last);
extern "C" void vf_translate(long &e, std::int64_t s);
namespace vfi {
struct H { bool operator()(long &e, std::int64_t s, bool last) const { return vf_handler(e, s, last); } };
struct HV { void operator()(long &e, std::int64_t s, bool last) const { vf_handler_v(e, s, last); } };
struct T { void operator()(long &&e, std::int64_t s) const { vf_translate(e, s); } };
}
#define VF_P(tag, P) \
    extern "C" int vf_##tag##_poll(P &p) { return static_cast<int>(p.poll(vfi::H{})); } \
    extern "C" int vf_##tag##_pollv(P &p) { return static_cast<int>(p.poll(vfi::HV{})); } \
    VF_OFF(vf_##tag##_off_data, P, _dataProvider) VF_OFF(vf_##tag##_off_seq, P, _sequence) VF_OFF(vf_##tag##_off_gate, P, _gatingSequences) VF_OFF(vf_##tag##_off_last, P, _lastAvailableSequence)
extern "C" int vf_state_processing() { return static_cast<int>(PollState::Processing); }
extern "C" int vf_state_gating() { return static_cast<int>(PollState::Gating); }
extern "C" int vf_state_idle() { return static_cast<int>(PollState::Idle); }
VF_P(ps, PS) VF_P(pm, PM)
#define VF_R(tag, R) \
    extern "C" void vf_##tag##_pub(R &r) { r.publishEvent(vfi::T{}); } \
    extern "C" bool vf_##tag##_trypub(R &r) { return r.tryPublishEvent(vfi::T{}); } \
    extern "C" long *vf_##tag##_at(R &r, std::int64_t s) { return &r.R::operator[](s); } \
    extern "C" bool vf_##tag##_has(R &r, std::int32_t n) { return r.R::hasAvailableCapacity(n); } \
    extern "C" std::int64_t vf_##tag##_next(R &r, std::int32_t n) { return r.R::next(n); } \
    extern "C" std::int64_t vf_##tag##_trynext(R &r, std::int32_t n) { return r.R::tryNext(n); } \
    extern "C" std::int64_t vf_##tag##_remain(R &r) { return r.R::getRemainingCapacity(); } \
    extern "C" void vf_##tag##_publish(R &r, std::int64_t s) { r.R::publish(s); } \
    extern "C" bool vf_##tag##_avail(R &r, std::int64_t s) { return r.R::isAvailable(s); } \
    extern "C" bool vf_##tag##_ispub(R &r, std::int64_t s) { return r.R::isPublished(s); } \
    extern "C" std::int64_t vf_##tag##_highest(R &r, std::int64_t a, std::int64_t b) { return r.R::getHighestPublishedSequence(a, b); } \
    extern "C" std::int64_t vf_##tag##_cursor(R &r) { return r.R::cursor(); } \
    extern "C" std::int64_t vf_##tag##_mingate(R &r) { return r.R::getMinimumGatingSequence(); } \
    extern "C" std::int32_t vf_##tag##_size(R &r) { return r.R::bufferSize(); } \
    extern "C" long vf_##tag##_entries_size() { return sizeof(static_cast<R *>(nullptr)->_entries); } \
    VF_OFF(vf_##tag##_off_entries, R, _entries) VF_OFF(vf_##tag##_off_gate, R, _gatingSequences) VF_OFF(vf_##tag##_off_cursor, R, _cursor) VF_OFF(vf_##tag##_off_claim, R, _claimStrategy) VF_OFF(vf_##tag##_off_wait, R, _waitStrategy)
VF_R(rs, RS) VF_R(rm, RM) VF_R(rk, RK)
extern "C" void vf_use(void *) ;
void vf_instances() { vf_use(new RS); vf_use(new RM); vf_use(new RK); }
