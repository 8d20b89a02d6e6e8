#include <majordomo/base64pp.hpp>
extern "C" {
void vf_encode(std::string *out, const std::uint8_t *p, std::size_t n) { new (out) std::string(base64pp::encode(std::span<const std::uint8_t>(p, n))); }
void vf_decode(std::optional<std::vector<std::uint8_t>> *out, const char *p, std::size_t n) { new (out) std::optional<std::vector<std::uint8_t>>(base64pp::decode(std::string_view(p, n))); }
}
