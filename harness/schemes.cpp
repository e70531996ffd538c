#include <caligo_src/X509Certificate.cpp>
using namespace Caligo;
bool vf_validate(const RsaPubkey* k, uint32_t type, const uint8_t* m, size_t n, const uint8_t* s, size_t sn) { return k->RsaPubkey::validateSignature((Tls13SignatureScheme)type, std::span<const uint8_t>(m, n), std::span<const uint8_t>(s, sn)); }
void vf_sign(const RsaPrivateKey* k, uint32_t type, const uint8_t* m, size_t n, std::vector<uint8_t>* out) { new (out) std::vector<uint8_t>(k->RsaPrivateKey::sign((Tls13SignatureScheme)type, std::span<const uint8_t>(m, n))); }
