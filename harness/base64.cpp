#include <caligo_src/base64.cpp>
using namespace Caligo;
extern "C" {
void vf_enc(const uint8_t* p, size_t n, bool nl, bool omit, int cs, std::string* out) { new (out) std::string(base64(std::span<const uint8_t>(p, n), nl, omit, (Base64CharSet)cs)); }
void vf_dec(const char* p, size_t n, std::vector<uint8_t>* out) { new (out) std::vector<uint8_t>(base64d(std::string_view(p, n))); }
}
