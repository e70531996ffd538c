#include <caligo_src/Truststore.cpp>
using namespace Caligo;
bool vf_trust(Truststore* s, std::vector<x509certificate>* c, uint64_t now) { return s->trust(*c, now); }
void vf_add(Truststore* s, x509certificate* c) { s->addCertificate(std::move(*c)); }
