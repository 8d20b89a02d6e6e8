#include <cassert>
#include <cstring>
#include <functional>
#include <IoBuffer.hpp>
using opencmw::IoBuffer;
#define VF_OFF(fn, T, f) namespace vfi { template<typename X> long off_##fn() { if constexpr (requires(X *p) { p->f; }) return static_cast<long>(__builtin_offsetof(X, f)); else return -1; } } extern "C" long fn() { return vfi::off_##fn<T>(); }
VF_OFF(vf_off_alloc, IoBuffer, _allocator) VF_OFF(vf_off_buf, IoBuffer, _buffer) VF_OFF(vf_off_pos, IoBuffer, _position) VF_OFF(vf_off_size, IoBuffer, _size) VF_OFF(vf_off_cap, IoBuffer, _capacity)
// appending
extern "C" void vf_put_bool(IoBuffer &b, const bool &v) { b.put(v); }
extern "C" void vf_put_i8(IoBuffer &b, const std::int8_t &v) { b.put(v); }
extern "C" void vf_put_i16(IoBuffer &b, const std::int16_t &v) { b.put(v); }
extern "C" void vf_put_i32(IoBuffer &b, const std::int32_t &v) { b.put(v); }
extern "C" void vf_put_i64(IoBuffer &b, const std::int64_t &v) { b.put(v); }
extern "C" void vf_put_f32(IoBuffer &b, const float &v) { b.put(v); }
extern "C" void vf_put_f64(IoBuffer &b, const double &v) { b.put(v); }
extern "C" void vf_put_str(IoBuffer &b, const std::string_view &v) { b.put(v); }
extern "C" void vf_put_raw(IoBuffer &b, const std::string_view &v) { b.put<IoBuffer::WITHOUT>(v); }
extern "C" void vf_put_vi8(IoBuffer &b, const std::vector<std::int8_t> &v) { b.put(v); }
extern "C" void vf_put_vi32(IoBuffer &b, const std::vector<std::int32_t> &v) { b.put(v); }
extern "C" void vf_put_vf64(IoBuffer &b, const std::vector<double> &v) { b.put(v); }
extern "C" void vf_put_af32(IoBuffer &b, const std::array<float, 5> &v) { b.put(v); }
// size and storage management
extern "C" void vf_reserve(IoBuffer &b, std::size_t n) { b.reserve(n); }
extern "C" void vf_spare(IoBuffer &b, std::size_t n) { b.reserve_spare(n); }
extern "C" void vf_resize(IoBuffer &b, std::size_t n) { b.resize(n); }
extern "C" void vf_shrink(IoBuffer &b) { b.shrink_to_fit(); }
extern "C" void vf_clear(IoBuffer &b) { b.clear(); }
extern "C" void vf_reset(IoBuffer &b) { b.reset(); }
extern "C" void vf_dtor(IoBuffer &b) { b.~IoBuffer(); }
extern "C" void vf_ctor_n(IoBuffer *b, std::size_t n) { new (b) IoBuffer(n); }
extern "C" void vf_ctor_data(IoBuffer *b, const char *d, std::size_t n) { new (b) IoBuffer(d, n); }
extern "C" void vf_ctor_span(IoBuffer *b, std::uint8_t *d, std::size_t n) { new (b) IoBuffer(std::span<std::uint8_t>(d, n)); }
extern "C" void vf_copy(IoBuffer *b, const IoBuffer &o) { new (b) IoBuffer(o); }
extern "C" void vf_move(IoBuffer *b, IoBuffer &o) { new (b) IoBuffer(std::move(o)); }
extern "C" void vf_copyassign(IoBuffer &b, const IoBuffer &o) { b = o; }
extern "C" void vf_moveassign(IoBuffer &b, IoBuffer &o) { b = std::move(o); }
// reading
extern "C" bool vf_get_bool(const IoBuffer &b) { return b.get<bool>(); }
extern "C" std::int8_t vf_get_i8(const IoBuffer &b) { return b.get<std::int8_t>(); }
extern "C" std::int16_t vf_get_i16(const IoBuffer &b) { return b.get<std::int16_t>(); }
extern "C" std::int32_t vf_get_i32(const IoBuffer &b) { return b.get<std::int32_t>(); }
extern "C" std::int64_t vf_get_i64(const IoBuffer &b) { return b.get<std::int64_t>(); }
extern "C" float vf_get_f32(const IoBuffer &b) { return b.get<float>(); }
extern "C" double vf_get_f64(const IoBuffer &b) { return b.get<double>(); }
extern "C" void vf_get_sv(std::string_view *r, const IoBuffer &b) { *r = b.get<std::string_view>(); }
extern "C" void vf_get_str(std::string *r, const IoBuffer &b) { new (r) std::string(b.get<std::string>()); }
extern "C" void vf_get_vi32(const IoBuffer &b, std::vector<std::int32_t> &v) { b.getArray(v); }
extern "C" void vf_get_vf64(const IoBuffer &b, std::vector<double> &v) { b.getArray(v); }
extern "C" void vf_skip(IoBuffer &b, int n) { b.skip(n); }
extern "C" std::uint8_t *vf_at(IoBuffer &b, std::size_t n) { return &b.at<std::uint8_t>(n); }
extern "C" std::int32_t *vf_at4(IoBuffer &b, std::size_t n) { return &b.at<std::int32_t>(n); }
extern "C" void vf_asstring(std::string_view *r, const IoBuffer &b, std::size_t n, int z) { *r = b.asString(n, z); }
