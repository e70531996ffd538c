// entry points over the public interface; T is the class under contract
#define VF_ENTRY(T, tag) \
extern "C" void vf_ctor_##tag(T* s) { new (s) T(); } \
extern "C" void vf_add_##tag(T* s, const uint8_t* p, size_t n) { s->add(std::span<const uint8_t>(p, n)); } \
extern "C" void vf_addsv_##tag(T* s, const char* p, size_t n) { s->add(std::string_view(p, n)); } \
extern "C" void vf_ctor1_##tag(T* s, const uint8_t* p, size_t n) { new (s) T(std::span<const uint8_t>(p, n)); } \
extern "C" void vf_ctor2_##tag(T* s, const char* p, size_t n, const uint8_t* q, size_t m) { new (s) T(std::string_view(p, n), std::span<const uint8_t>(q, m)); } \
extern "C" void vf_data_##tag(const T* s, uint8_t* out) { auto d = s->data(); memcpy(out, d.data(), d.size()); } \
extern "C" void vf_conv_##tag(const T* s, uint8_t* out) { std::array<uint8_t, T::hashsize> d = *s; memcpy(out, d.data(), d.size()); } \
extern "C" void vf_str_##tag(const T* s, std::string* out) { new (out) std::string(*s); } \
extern "C" size_t vf_size_##tag() { return T::hashsize; }
