#include <new>
#include <URI.hpp>
using S = opencmw::URI<opencmw::STRICT>;
using R = opencmw::URI<opencmw::RELAXED>;
using OptS = std::optional<std::string>;
// observations: declared, never defined
extern "C" {
void vf_obs(int which, const OptS &v) noexcept;
void vf_obs_port(const std::optional<std::uint16_t> &v) noexcept;
void vf_obs_str(const std::string &v) noexcept;
void vf_obs_map(const std::unordered_map<std::string, OptS> &m) noexcept;
void vf_mark(int k) noexcept;
}
namespace vfi {
template<class U> void observe(const U &u) {
    vf_obs_str(u.str());
    vf_obs(0, u.scheme());
    vf_obs(1, u.authority());
    vf_obs(2, u.path());
    vf_obs(3, u.queryParam());
    vf_obs(4, u.fragment());
}
template<class U> void observeAuth(const U &u) {
    vf_obs(5, u.user());
    vf_obs(6, u.password());
    vf_obs(7, u.hostName());
}
template<class U> void parse(const std::string &s) { U u(s); vf_mark(0); observe(u); }
template<class U> void parsemv(std::string &s) { U u(std::move(s)); vf_mark(0); observe(u); }
template<class U> void auth(const std::string &s) { U u(s); vf_obs(1, u.authority()); observeAuth(u); vf_obs_port(u.port()); }
template<class U> void auth2(const std::string &s) { U u(s); vf_obs_port(u.port()); vf_obs(7, u.hostName()); vf_obs(6, u.password()); vf_obs(5, u.user()); vf_obs(1, u.authority()); vf_obs(7, u.hostName()); vf_obs(5, u.user()); }
}
extern "C" {
void vf_parse_s(const std::string &s) { vfi::parse<S>(s); }
void vf_parse_r(const std::string &s) { vfi::parse<R>(s); }
void vf_parsemv_s(std::string &s) { vfi::parsemv<S>(s); }
void vf_parsemv_r(std::string &s) { vfi::parsemv<R>(s); }
void vf_auth_s(const std::string &s) { vfi::auth<S>(s); }
void vf_auth_r(const std::string &s) { vfi::auth<R>(s); }
void vf_auth2_s(const std::string &s) { vfi::auth2<S>(s); }
void vf_auth2_r(const std::string &s) { vfi::auth2<R>(s); }
void vf_encode(std::string *out, const std::string_view &s) { new (out) std::string(S::encode(s)); }
void vf_decode_s(std::string *out, const std::string_view &s) { new (out) std::string(S::decode(s)); }
void vf_decode_r(std::string *out, const std::string_view &s) { new (out) std::string(R::decode(s)); }
}
