#include <cstddef>
#include <cstdint>
#include <memory>
#include <vector>
#include <disruptor/AggregateEventHandler.hpp>
using namespace opencmw::disruptor;
extern "C" void vf_user();
namespace vfi {
struct Handler final : IEventHandler<long> { void onEvent(long &, std::int64_t, bool) override { vf_user(); } };
struct Life final : ILifecycleAware { void onStart() override { vf_user(); } void onShutdown() override { vf_user(); } };
template<typename X> long off() { if constexpr (requires(X *p) { p->_eventHandlers; }) return static_cast<long>(__builtin_offsetof(X, _eventHandlers)); else return -1; }
}
using A = AggregateEventHandler<long>;
extern "C" {
long vf_off() { return vfi::off<A>(); }
void vf_event(A &a, long &d, std::int64_t s, bool e) { a.A::onEvent(d, s, e); }
void vf_start(A &a) { a.A::onStart(); }
void vf_shut(A &a) { a.A::onShutdown(); }
void vf_use(void *);
}
void vf_instances() { vf_use(new vfi::Handler); vf_use(new vfi::Life); }
