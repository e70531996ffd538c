#include <cstring>
#include <caligo/random.h>
#include <caligo/bignum.h>
using namespace Caligo;
extern "C" {
void vf_fill8(uint8_t* p, size_t n) { generate_random(std::span<uint8_t>(p, n)); }
void vf_fill16(uint16_t* p, size_t n) { generate_random(std::span<uint16_t>(p, n)); }
void vf_fill32(uint32_t* p, size_t n) { generate_random(std::span<uint32_t>(p, n)); }
void vf_fill64(uint64_t* p, size_t n) { generate_random(std::span<uint64_t>(p, n)); }
}
#define BN(K) extern "C" void vf_bn##K(bignum<K>* o) { new (o) bignum<K>(bignum<K>::random()); }
BN(32) BN(64) BN(96) BN(160) BN(256) BN(1024) BN(2048) BN(4096)
