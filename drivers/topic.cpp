#include <Topic.hpp>
using opencmw::mdp::Topic;
extern "C" {
void vf_obs_sv(const char *p, std::size_t n) noexcept;
bool vf_valid(const char *p, std::size_t n) { return opencmw::mdp::isValidServiceName(std::string_view(p, n)); }
void vf_topic(const char *p, std::size_t n) { const Topic t = Topic::fromString(std::string_view(p, n)); const std::string_view s = t.service(); vf_obs_sv(s.data(), s.size()); }
void vf_zmq(const char *p, std::size_t n) { const Topic t = Topic::fromZmqTopic(std::string_view(p, n)); const std::string_view s = t.service(); vf_obs_sv(s.data(), s.size()); }
}
