#include <majordomo/Rbac.hpp>
using namespace opencmw::majordomo;
extern "C" {
void vf_role(std::string_view *r, const char *p, std::size_t n) { *r = parse_rbac::role(std::string_view(p, n)); }
void vf_hash(std::string_view *r, const char *p, std::size_t n) { *r = parse_rbac::hash(std::string_view(p, n)); }
void vf_both(std::string_view *r, const char *p, std::size_t n) { auto x = parse_rbac::roleAndHash(std::string_view(p, n)); r[0] = x.first; r[1] = x.second; }
}
