#include <caligo_src/aes.cpp>
#define VF(N) \
extern "C" void vf_sched##N(Caligo::AesKeySchedule<N>* s, const uint8_t* k, size_t n) { new (s) Caligo::AesKeySchedule<N>(std::span<const uint8_t>(k, n)); } \
extern "C" void vf_enc##N(const Caligo::AesKeySchedule<N>* s, const uint8_t* in, uint8_t* out) { \
  _mm_storeu_si128((__m128i*)out, Caligo::AES<N>::Encrypt(*s, _mm_loadu_si128((const __m128i*)in))); }
VF(128)
VF(256)
