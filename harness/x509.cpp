#include <caligo_src/X509Certificate.cpp>
using namespace Caligo;
using S = std::span<const uint8_t>;
struct Elem { asn1_id id; S s; };
void vf_view(asn1_view* v, const uint8_t* p, size_t n) { new (v) asn1_view(S(p, n)); }
void vf_read(asn1_view* v, Elem* e) { auto [i, s] = v->read(); e->id = i; e->s = s; }
uint32_t vf_peek(asn1_view* v) { return (uint32_t)v->peek(); }
bool vf_empty(asn1_view* v) { return v->empty(); }
uint64_t vf_date(asn1_view* v) { return parseDer<x509date>(*v); }
int vf_int(asn1_view* v) { return parseDer<int>(*v); }
void vf_str(asn1_view* v, std::string* s) { new (s) std::string(parseDer<std::string>(*v)); }
void vf_bn32(asn1_view* v, bignum<32>* b) { new (b) bignum<32>(parseBignumDer<32>(*v)); }
void vf_bn128(asn1_view* v, bignum<128>* b) { new (b) bignum<128>(parseBignumDer<128>(*v)); }
void vf_bn4096(asn1_view* v, bignum<4096>* b) { new (b) bignum<4096>(parseBignumDer<4096>(*v)); }
bool vf_oideq(const object_id* a, const object_id* b) { return *a == *b; }
void vf_oid(object_id* o, const uint8_t* p, size_t n) { new (o) object_id(S(p, n)); }
bool vf_verify(x509certificate* c, x509certificate* i) { return c->verify(*i); }
