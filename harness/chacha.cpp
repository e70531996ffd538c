#include <array>
#include <stdexcept>
#include <vector>
#include <caligo/chacha20.h>
using S = std::span<const uint8_t>;
extern "C" void vf_ctor(ChaCha20* g, const uint8_t* k, size_t kn, const uint8_t* i, size_t in) { new (g) ChaCha20(S(k, kn), S(i, in)); }
extern "C" void vf_block(ChaCha20* g) { g->GenerateBlock(); }
extern "C" void vf_enc(ChaCha20* g, uint8_t* p, size_t pn) { g->Encrypt(std::span<uint8_t>(p, pn)); }
extern "C" void vf_dec(ChaCha20* g, uint8_t* p, size_t pn) { g->Decrypt(std::span<uint8_t>(p, pn)); }
