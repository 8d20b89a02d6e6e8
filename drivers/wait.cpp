#include <cassert>
#include <cstddef>
#include <array>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
using namespace opencmw::disruptor;
#define VF_OFF(fn, T, f) namespace vfi { template<typename X> long off_##fn() { if constexpr (requires(X *p) { p->f; }) return static_cast<long>(__builtin_offsetof(X, f)); else return -1; } } extern "C" long fn() { return vfi::off_##fn<T>(); }
using Deps = std::vector<std::shared_ptr<Sequence>>;
#define VF_W(tag, W) extern "C" std::int64_t vf_w_##tag(W &w, std::int64_t s, const Sequence &c, const Deps &d, ISequenceBarrier &b) { return w.waitFor(s, c, d, b); }
VF_W(blocking, BlockingWaitStrategy) VF_W(busy, BusySpinWaitStrategy) VF_W(sleep, SleepingWaitStrategy) VF_W(spin, SpinWaitWaitStrategy) VF_W(timeout, TimeoutBlockingWaitStrategy) VF_W(yield, YieldingWaitStrategy)
extern "C" void vf_sig_blocking(BlockingWaitStrategy &w) { w.signalAllWhenBlocking(); }
extern "C" void vf_sig_timeout(TimeoutBlockingWaitStrategy &w) { w.signalAllWhenBlocking(); }
using RM = RingBuffer<long, 8, BlockingWaitStrategy, MultiThreadedStrategy>;
using RS = RingBuffer<long, 8, BusySpinWaitStrategy, SingleThreadedStrategy>;
using BM = ProcessingSequenceBarrier<long, 8, BlockingWaitStrategy, MultiThreadedStrategy>;
using BS = ProcessingSequenceBarrier<long, 8, BusySpinWaitStrategy, SingleThreadedStrategy>;
#define VF_B(tag, B) \
    extern "C" std::int64_t vf_##tag##_wait(B &b, std::int64_t s) { return b.B::waitFor(s); } \
    extern "C" std::int64_t vf_##tag##_cursor(B &b) { return b.B::cursor(); } \
    extern "C" bool vf_##tag##_is(B &b) { return b.B::isAlerted(); } \
    extern "C" void vf_##tag##_alert(B &b) { b.B::alert(); } \
    extern "C" void vf_##tag##_clear(B &b) { b.B::clearAlert(); } \
    extern "C" void vf_##tag##_check(B &b) { b.B::checkAlert(); } \
    VF_OFF(vf_##tag##_off_alert, B, _alerted) VF_OFF(vf_##tag##_off_deps, B, _dependentSequences) VF_OFF(vf_##tag##_off_cursor, B, _cursorSequence) VF_OFF(vf_##tag##_off_prov, B, _sequenceProvider) \
    VF_OFF(vf_##tag##_off_wait, B, _waitStrategy) VF_OFF(vf_##tag##_off_pref, B, _sequenceProviderRef) VF_OFF(vf_##tag##_off_wref, B, _waitStrategyRef)
VF_B(bm, BM) VF_B(bs, BS)
extern "C" void vf_bm_ctor(void *m, const std::shared_ptr<EventStore<long>> &p, const std::shared_ptr<BlockingWaitStrategy> &w, const std::shared_ptr<Sequence> &c, const Deps &d) { new (m) BM(p, w, c, d); }
extern "C" void vf_bs_ctor(void *m, const std::shared_ptr<EventStore<long>> &p, const std::shared_ptr<BusySpinWaitStrategy> &w, const std::shared_ptr<Sequence> &c, const Deps &d) { new (m) BS(p, w, c, d); }
extern "C" long vf_bool_size() { return sizeof(bool); }
extern "C" void vf_use(void *);
void vf_instances(const std::shared_ptr<EventStore<long>> &p, const std::shared_ptr<BlockingWaitStrategy> &w, const std::shared_ptr<BusySpinWaitStrategy> &w2, const std::shared_ptr<Sequence> &c, const Deps &d) {
    vf_use(new BM(p, w, c, d)); vf_use(new BS(p, w2, c, d)); vf_use(new RM); vf_use(new RS);
}
