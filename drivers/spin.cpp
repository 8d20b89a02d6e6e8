#include <chrono>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <SpinWait.hpp>
using S = opencmw::SpinWait<>;
extern "C" {
bool vf_cond() noexcept;
void vf_body();
}
namespace vfi {
struct Cond { bool operator()() const noexcept { return vf_cond(); } };
}
using vfi::Cond;
using M0 = opencmw::AtomicMutex<>;
using M1 = opencmw::AtomicMutex<S>;
extern "C" {
bool vf_until(const S &s, std::int64_t t) { return s.spinUntil(Cond{}, t); }
bool vf_until_forever(const S &s) { return s.spinUntil(Cond{}); }
void vf_once(S &s) { s.spinOnce(); }
void vf_reset(S &s) { s.reset(); }
int vf_count(const S &s) { return s.count(); }
bool vf_yields(const S &s) { return s.nextSpinWillYield(); }
std::int64_t vf_tick() { return S::getTickCount(); }
void vf_mlock0(M0 &m) { m.lock(); }
void vf_munlock0(M0 &m) { m.unlock(); }
void vf_mlock1(M1 &m) { m.lock(); }
void vf_munlock1(M1 &m) { m.unlock(); }
}
