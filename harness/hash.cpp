#include <caligo_src/hash.cpp>
using namespace Caligo;
extern "C" void vf_ctor(Hash* h, const char* n, size_t k) { new (h) Hash(std::string_view(n, k)); }
extern "C" void vf_add(Hash* h, const uint8_t* d, size_t k) { h->add(std::span<const uint8_t>(d, k)); }
extern "C" void vf_addsv(Hash* h, const uint8_t* d, size_t k) { h->add(std::string_view((const char*)d, k)); }
extern "C" size_t vf_size(Hash* h) { return h->hashsize(); }
extern "C" size_t vf_max(Hash* h) { return h->MaxLength(); }
extern "C" void vf_data(const Hash* h, std::vector<uint8_t>* o) { new (o) std::vector<uint8_t>(h->data()); }
extern "C" void vf_conv(const Hash* h, std::vector<uint8_t>* o) { new (o) std::vector<uint8_t>(*h); }
extern "C" void vf_str(const Hash* h, std::string* o) { new (o) std::string(*h); }
extern "C" void vf_asn1(Hash* h, std::vector<uint8_t>* o) { new (o) std::vector<uint8_t>(h->getAsn1Id()); }
extern "C" void vf_dtor(Hash* h) { h->~Hash(); }
