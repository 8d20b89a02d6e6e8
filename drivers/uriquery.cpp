#include <new>
#include <URI.hpp>
using S = opencmw::URI<opencmw::STRICT>;
using R = opencmw::URI<opencmw::RELAXED>;
using OptS = std::optional<std::string>;
// observations: declared, never defined
extern "C" {
void vf_obs(int which, const OptS &v) noexcept;
void vf_obs_port(const std::optional<std::uint16_t> &v) noexcept;
void vf_obs_str(const std::string &v) noexcept;
void vf_obs_map(const std::unordered_map<std::string, OptS> &m) noexcept;
void vf_mark(int k) noexcept;
}
namespace vfi {
template<class U> void query(const std::string &s) { U u(s); vf_mark(1); vf_obs_map(u.queryParamMap()); }
template<class U> void queryTwice(const std::string &s) {
    U u(s);
    vf_mark(1);
    try { (void) u.queryParamMap(); } catch (...) { }
    vf_obs_map(u.queryParamMap());
}
template<class U> void queryCopy(const std::string &s, const std::string &t) {
    U u(s); U v(t);
    vf_mark(1);
    (void) u.queryParamMap(); (void) v.queryParamMap();
    v = static_cast<const U &>(u);
    vf_obs_map(v.queryParamMap());
}
template<class U> void queryMove(const std::string &s, const std::string &t) {
    U u(s); U v(t);
    vf_mark(1);
    (void) u.queryParamMap(); (void) v.queryParamMap();
    v = std::move(u);
    vf_obs_map(v.queryParamMap());
}
}
extern "C" {
void vf_query_s(const std::string &s) { vfi::query<S>(s); }
void vf_query_r(const std::string &s) { vfi::query<R>(s); }
void vf_query2_s(const std::string &s) { vfi::queryTwice<S>(s); }
void vf_query2_r(const std::string &s) { vfi::queryTwice<R>(s); }
void vf_queryc_s(const std::string &s, const std::string &t) { vfi::queryCopy<S>(s, t); }
void vf_queryc_r(const std::string &s, const std::string &t) { vfi::queryCopy<R>(s, t); }
void vf_querym_s(const std::string &s, const std::string &t) { vfi::queryMove<S>(s, t); }
void vf_querym_r(const std::string &s, const std::string &t) { vfi::queryMove<R>(s, t); }
}
