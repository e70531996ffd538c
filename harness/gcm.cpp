#include <caligo/aes.h>
#include <array>
#include <vector>
#include <caligo/gcm.h>
using namespace Caligo;
using V = std::vector<uint8_t>;
using S = std::span<const uint8_t>;
#define VF(N) \
using G##N = GCM<AES<N>>; \
extern "C" void vf_ctor##N(G##N* g, const uint8_t* k, size_t kn, const uint8_t* i, size_t in) { new (g) G##N(key_iv_pair<AES<N>>(S(k, kn), S(i, in))); } \
extern "C" void vf_ghash##N(G##N* g, const uint8_t* c, size_t cn, const uint8_t* a, size_t an, uint8_t* out) { auto r = g->ghash(S(c, cn), S(a, an)); memcpy(out, r.data(), 16); } \
extern "C" void vf_enc##N(G##N* g, const uint8_t* p, size_t pn, const uint8_t* a, size_t an, V* out, uint8_t* tag) { \
  auto r = g->Encrypt(S(p, pn), S(a, an)); new (out) V(std::move(r.first)); memcpy(tag, r.second.data(), 16); } \
extern "C" bool vf_dec##N(G##N* g, const uint8_t* p, size_t pn, const uint8_t* a, size_t an, const uint8_t* tag, V* out) { \
  std::array<uint8_t, 16> t; memcpy(t.data(), tag, 16); auto r = g->Decrypt(S(p, pn), S(a, an), t); new (out) V(std::move(r.first)); return r.second; }
VF(128)
VF(256)
