#include <array>
#include <ThreadAffinity.hpp>
using namespace opencmw::thread;
using Map = std::array<bool, 4>;
extern "C" {
void vf_get_name(std::string *r, std::thread &t) { *r = getThreadName(t); }
void vf_get_name0(std::string *r) { *r = getThreadName(); }
void vf_set_name(const std::string_view &n, std::thread &t) { setThreadName(n, t); }
void vf_set_name0(const std::string_view &n) { setThreadName(n); }
void vf_get_aff(std::thread &t) { (void) getThreadAffinity(t); }
void vf_get_aff0() { (void) getThreadAffinity(); }
void vf_set_aff(const Map &m, std::thread &t) { setThreadAffinity(m, t); }
void vf_set_aff0(const Map &m) { setThreadAffinity(m); }
void vf_get_paff(int pid) { (void) getProcessAffinity(pid); }
bool vf_set_paff(const Map &m, int pid) { return setProcessAffinity(m, pid); }
void vf_get_sched(SchedulingParameter *r, std::thread &t) { const auto s = getThreadSchedulingParameter(t); r->policy = s.policy; r->priority = s.priority; }
void vf_get_sched0(SchedulingParameter *r) { const auto s = getThreadSchedulingParameter(); r->policy = s.policy; r->priority = s.priority; }
void vf_set_sched(int p, int prio, std::thread &t) { setThreadSchedulingParameter(static_cast<Policy>(p), prio, t); }
void vf_set_sched0(int p, int prio) { setThreadSchedulingParameter(static_cast<Policy>(p), prio); }
void vf_get_psched(SchedulingParameter *r, int pid) { const auto s = getProcessSchedulingParameter(pid); r->policy = s.policy; r->priority = s.priority; }
void vf_set_psched(int p, int prio, int pid) { setProcessSchedulingParameter(static_cast<Policy>(p), prio, pid); }
void vf_get_pname(std::string *r, int pid) { *r = getProcessName(pid); }
void vf_set_pname(const std::string_view &n, int pid) { setProcessName(n, pid); }
int vf_policy(int p) { return static_cast<int>(detail::getEnumPolicy(p)); }
int vf_uninit() { return THREAD_UNINITIALISED; }
long vf_off_policy() { return __builtin_offsetof(SchedulingParameter, policy); }
long vf_off_prio() { return __builtin_offsetof(SchedulingParameter, priority); }
}
