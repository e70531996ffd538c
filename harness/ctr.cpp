#include <caligo/aes.h>
#include <array>
#include <stdexcept>
#include <vector>
#include <caligo/ctr.h>
using namespace Caligo;
using V = std::vector<uint8_t>;
using S = std::span<const uint8_t>;
#define VF(N) \
using C##N = CTR<AES<N>>; \
extern "C" void vf_ctor##N(C##N* g, const uint8_t* k, size_t kn, const uint8_t* i, size_t in) { new (g) C##N(key_iv_pair<AES<N>>(S(k, kn), S(i, in))); } \
extern "C" void vf_ks##N(C##N* g, size_t n, V* out) { auto r = g->GenerateKeystream(n); new (out) V(std::move(r)); } \
extern "C" void vf_enc##N(C##N* g, uint8_t* p, size_t pn) { g->Encrypt(std::span<uint8_t>(p, pn)); } \
extern "C" void vf_dec##N(C##N* g, uint8_t* p, size_t pn) { g->Decrypt(std::span<uint8_t>(p, pn)); }
VF(128)
VF(256)
