#include <array>
#include <cstddef>
#include <utility>
#include <BasicSetting.hpp>
struct Obj;
extern "C" { void vf_def(Obj *); void vf_int(Obj *, int); void vf_copy(Obj *, const Obj *); void vf_move(Obj *, Obj *); void vf_assign(Obj *, const Obj *); void vf_massign(Obj *, Obj *); void vf_dtor(Obj *) noexcept; void vf_body(const Obj *); }
// an arbitrary copyable value: its special members are opaque to the analysis
struct Obj {
    long v[2];
    Obj() { vf_def(this); }
    explicit Obj(int x) { vf_int(this, x); }
    Obj(const Obj &o) { vf_copy(this, &o); }
    Obj(Obj &&o) { vf_move(this, &o); }
    Obj &operator=(const Obj &o) { vf_assign(this, &o); return *this; }
    Obj &operator=(Obj &&o) { vf_massign(this, &o); return *this; }
    ~Obj() { vf_dtor(this); }
};
using namespace opencmw;
using N = detail::NonRealtimeMutable<Obj>;
using R = detail::RealtimeMutable<Obj>;
using SN = BasicSetting<Obj, MutableOption::NonRealTimeMutable>;
using SR = BasicSetting<Obj, MutableOption::RealTimeMutable>;
constexpr auto RT = AccessType::RealTime; constexpr auto NRT = AccessType::NonRealTime;
#define OFF(C, name, f) namespace vfi { template<typename X> long off_##name() { if constexpr (requires(X *p) { p->f; }) return static_cast<long>(__builtin_offsetof(X, f)); else return -1; } } extern "C" long vf_off_##name() { return vfi::off_##name<C>(); }
OFF(N, storage, _storage) OFF(N, ptr, _storagePtr) OFF(N, lock, _nonRealtimeLock) OFF(N, copy, _rtStorageCopy) OFF(N, rtptr, _rtStorageCopyPtr)
OFF(R, control, control) OFF(R, data, data) OFF(R, rcopy, realtimeCopy) OFF(R, rlock, nonRealtimeLock)
extern "C" {
long vf_size() { return sizeof(Obj); }
void vf_n_new(N *p) { new (p) N(); }
void vf_n_newc(N *p, const Obj &o) { new (p) N(o); }
void vf_n_newm(N *p, Obj &o) { new (p) N(std::move(o)); }
void vf_n_del(N *p) { p->~N(); }
const Obj *vf_n_rtacq(SN &s) { return &s.acquire<RT>(); }
void vf_n_rtrel(SN &s) { s.release<RT>(); }
const Obj *vf_n_acq(N &s) { return &s.nonRealtimeAcquire(); }
const Obj *vf_n_sacq(SN &s) { return &s.acquire<NRT>(); }
void vf_n_rel(SN &s) { s.release<NRT>(); }
void vf_n_rep(SN &s, int x) { s.replace<NRT>(x); }
void vf_n_grt(SN &s) { auto g = s.accessGuard<RT>(); const Obj &o = g; vf_body(&o); }
void vf_n_gnrt(SN &s) { auto g = s.accessGuard<NRT>(); const Obj &o = g; vf_body(&o); }
void vf_n_grt2(SN &s) { auto g = s.realTimeAccessGuard(); vf_body(g.operator->()); }
void vf_n_gnrt2(SN &s) { auto g = s.nonRealTimeAccessGuard(); vf_body(g.operator->()); }
void vf_n_gset(SN &s, const Obj &x) { auto g = s.accessGuard<NRT>(); g = x; }
void vf_n_gget(SN &s) { const auto g = s.accessGuard<NRT>(); vf_body(&g.get()); }
void vf_r_new(R *p) { new (p) R(); }
void vf_r_newc(R *p, const Obj &o) { new (p) R(o); }
void vf_r_del(R *p) { p->~R(); }
Obj *vf_r_rtacq(SR &s) { return &s.acquire<RT>(); }
void vf_r_rtrel(SR &s) { s.release<RT>(); }
void vf_r_rtrep(SR &s, int x) { s.replace<RT>(x); }
const Obj *vf_r_acq(SR &s) { return &s.acquire<NRT>(); }
void vf_r_rel(SR &s) { s.release<NRT>(); }
void vf_r_grt(SR &s) { auto g = s.accessGuard<RT>(); const Obj &o = g; vf_body(&o); }
void vf_r_gnrt(SR &s) { auto g = s.accessGuard<NRT>(); const Obj &o = g; vf_body(&o); }
void vf_r_gset(SR &s, const Obj &x) { auto g = s.accessGuard<RT>(); g = x; }
}
