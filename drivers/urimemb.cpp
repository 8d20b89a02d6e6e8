#include <new>
#include <URI.hpp>
using S = opencmw::URI<opencmw::STRICT>;
using R = opencmw::URI<opencmw::RELAXED>;
using OptS = std::optional<std::string>;
// observations: declared, never defined
extern "C" {
void vf_obs(int which, const OptS &v) noexcept;
void vf_obs_port(const std::optional<std::uint16_t> &v) noexcept;
void vf_obs_str(const std::string &v) noexcept;
void vf_obs_map(const std::unordered_map<std::string, OptS> &m) noexcept;
void vf_mark(int k) noexcept;
void *vf_same(void *p) noexcept;
}
namespace vfi {
template<class U> void observe(const U &u) {
    vf_obs_str(u.str());
    vf_obs(0, u.scheme());
    vf_obs(1, u.authority());
    vf_obs(2, u.path());
    vf_obs(3, u.queryParam());
    vf_obs(4, u.fragment());
}
template<class U> void observeAuth(const U &u) {
    vf_obs(5, u.user());
    vf_obs(6, u.password());
    vf_obs(7, u.hostName());
}
template<class U> void parse(const std::string &s) { U u(s); vf_mark(0); observe(u); }
template<class U> void parsemv(std::string &s) { U u(std::move(s)); vf_mark(0); observe(u); }
template<class U> void auth(const std::string &s) { U u(s); vf_obs(1, u.authority()); observeAuth(u); vf_obs_port(u.port()); }
template<class U> void auth2(const std::string &s) { U u(s); vf_obs_port(u.port()); vf_obs(7, u.hostName()); vf_obs(6, u.password()); vf_obs(5, u.user()); vf_obs(1, u.authority()); vf_obs(7, u.hostName()); vf_obs(5, u.user()); }
}
extern "C" {
}
namespace vfi {
template<class U> void observeAll(const U &u) { observe(u); observeAuth(u); vf_obs_port(u.port()); }
template<class U, bool touch> void copyCtor(const std::string &s) {
    U *u = new U(s);
    if (touch) vf_obs(5, u->user());
    U v(*u);
    delete u;
    vf_mark(1);
    observeAll(v);
}
template<class U, bool touch> void copyAssign(const std::string &s, const std::string &t) {
    U *u = new U(s);
    U v(t);
    if (touch) { vf_obs(5, u->user()); vf_obs(5, v.user()); }
    v = static_cast<const U &>(*u);
    delete u;
    vf_mark(1);
    observeAll(v);
}
template<class U, bool touch> void moveCtor(const std::string &s) {
    U *u = new U(s);
    if (touch) vf_obs(5, u->user());
    U v(std::move(*u));
    delete u;
    vf_mark(1);
    observeAll(v);
}
template<class U, bool touch> void moveAssign(const std::string &s, const std::string &t) {
    U *u = new U(s);
    U v(t);
    if (touch) { vf_obs(5, u->user()); vf_obs(5, v.user()); }
    v = std::move(*u);
    delete u;
    vf_mark(1);
    observeAll(v);
}
template<class U, bool touch> void movedFrom(const std::string &s, const std::string &t) {
    U u(s);
    U *v = new U(t);
    if (touch) { vf_obs(5, u.user()); vf_obs(5, v->user()); }
    *v = std::move(u);
    delete v;
    vf_mark(2);
    observeAll(u);
}
template<class U, bool touch> void selfAssign(const std::string &s) {
    U u(s);
    if (touch) vf_obs(5, u.user());
    u = *static_cast<const U *>(vf_same(&u));
    u = std::move(*static_cast<U *>(vf_same(&u)));
    vf_mark(1);
    observeAll(u);
}
}
#define VF_MEMB(P, U) \
    void vf_cc_##P(const std::string &s) { vfi::copyCtor<U, false>(s); } \
    void vf_cct_##P(const std::string &s) { vfi::copyCtor<U, true>(s); } \
    void vf_ca_##P(const std::string &s, const std::string &t) { vfi::copyAssign<U, false>(s, t); } \
    void vf_cat_##P(const std::string &s, const std::string &t) { vfi::copyAssign<U, true>(s, t); } \
    void vf_mc_##P(const std::string &s) { vfi::moveCtor<U, false>(s); } \
    void vf_mct_##P(const std::string &s) { vfi::moveCtor<U, true>(s); } \
    void vf_ma_##P(const std::string &s, const std::string &t) { vfi::moveAssign<U, false>(s, t); } \
    void vf_mat_##P(const std::string &s, const std::string &t) { vfi::moveAssign<U, true>(s, t); } \
    void vf_mf_##P(const std::string &s, const std::string &t) { vfi::movedFrom<U, false>(s, t); } \
    void vf_mft_##P(const std::string &s, const std::string &t) { vfi::movedFrom<U, true>(s, t); } \
    void vf_sa_##P(const std::string &s) { vfi::selfAssign<U, false>(s); } \
    void vf_sat_##P(const std::string &s) { vfi::selfAssign<U, true>(s); }
extern "C" {
VF_MEMB(s, S)
VF_MEMB(r, R)
}
