#include <caligo/ghash.h>
using namespace Caligo;
static __m128i ld(const uint8_t* p) { return _mm_loadu_si128((const __m128i*)p); }
static void sto(uint8_t* p, __m128i v) { _mm_storeu_si128((__m128i*)p, v); }
extern "C" void vf_reflect(const uint8_t* a, const uint8_t*, const uint8_t*, uint8_t* o) { sto(o, reflect(ld(a))); }
extern "C" void vf_mul(const uint8_t* a, const uint8_t* b, const uint8_t*, uint8_t* o) { sto(o, reflect(galoisMultiply(reflect(ld(a)), reflect(ld(b))))); }
extern "C" void vf_block(const uint8_t* a, const uint8_t* b, const uint8_t* y, uint8_t* o) { sto(o, reflect(ghash_block(reflect(ld(a)), reflect(ld(b)), reflect(ld(y))))); }
