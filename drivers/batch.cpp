#include <cassert>
#include <cstddef>
#include <array>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
#include <disruptor/BatchEventProcessor.hpp>
using namespace opencmw::disruptor;
#define VF_OFF(fn, T, f) namespace vfi { template<typename X> long off_##fn() { if constexpr (requires(X *p) { p->f; }) return static_cast<long>(__builtin_offsetof(X, f)); else return -1; } } extern "C" long fn() { return vfi::off_##fn<T>(); }
extern "C" void vf_user();
namespace vfi {
struct Handler final : IEventHandler<long>, ITimeoutHandler, ILifecycleAware {
    void onEvent(long &, std::int64_t, bool) override { vf_user(); } void onTimeout(std::int64_t) override { vf_user(); } void onStart() override { vf_user(); } void onShutdown() override { vf_user(); } };
struct Timeout final : ITimeoutHandler { void onTimeout(std::int64_t) override { vf_user(); } };
struct Life final : ILifecycleAware { void onStart() override { vf_user(); } void onShutdown() override { vf_user(); } };
struct Exc final : IExceptionHandler<long> {
    void handleEventException(const std::exception &, std::int64_t, long &) override { vf_user(); } void handleOnStartException(const std::exception &) override { vf_user(); } void handleOnShutdownException(const std::exception &) override { vf_user(); } void handleOnTimeoutException(const std::exception &, std::int64_t) override { vf_user(); } };
}
using P = BatchEventProcessor<long>;
using RS = RingBuffer<long, 8, BusySpinWaitStrategy, SingleThreadedStrategy>;
using BS = ProcessingSequenceBarrier<long, 8, BusySpinWaitStrategy, SingleThreadedStrategy>;
extern "C" void vf_bp_run(P &p) { p.P::run(); }
extern "C" void vf_bp_halt(P &p) { p.P::halt(); }
extern "C" bool vf_bp_is(P &p) { return p.P::isRunning(); }
VF_OFF(vf_bp_off_running, P, _running) VF_OFF(vf_bp_off_data, P, _dataProvider) VF_OFF(vf_bp_off_dataref, P, _dataProviderRef) VF_OFF(vf_bp_off_bar, P, _sequenceBarrier) VF_OFF(vf_bp_off_barref, P, _sequenceBarrierRef)
VF_OFF(vf_bp_off_hand, P, _eventHandler) VF_OFF(vf_bp_off_handref, P, _eventHandlerRef) VF_OFF(vf_bp_off_seq, P, _sequence) VF_OFF(vf_bp_off_seqref, P, _sequenceRef) VF_OFF(vf_bp_off_tout, P, _timeoutHandler) VF_OFF(vf_bp_off_exc, P, _exceptionHandler)
extern "C" void vf_use(void *);
void vf_instances(const std::shared_ptr<EventStore<long>> &p, const std::shared_ptr<BusySpinWaitStrategy> &w2, const std::shared_ptr<Sequence> &c, const std::vector<std::shared_ptr<Sequence>> &d) {
    vf_use(new BS(p, w2, c, d)); vf_use(new RS); vf_use(new vfi::Handler); vf_use(new vfi::Timeout); vf_use(new vfi::Life); vf_use(new vfi::Exc);
}
