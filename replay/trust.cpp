#include <unistd.h>
#include <cstring>
#include <map>
#include "util.h"
#include <caligo/Truststore.h>
using namespace Caligo;
using A = std::vector<std::string>;
static x509certificate cert(const std::string& h) {
  Exact e(unhex(h));
  return parseCertificate(e.span());
}
// an empty store: the constructor of the real one reads the system's certificates
template <typename S> struct Store {
  alignas(S) unsigned char raw[sizeof(S)] = {};
  S* s = nullptr;
  Store() { if constexpr (requires (S x) { x.trusted_certs.clear(); }) { s = reinterpret_cast<S*>(raw); using M = decltype(S::trusted_certs); new (&s->trusted_certs) M(); } }
  ~Store() { if constexpr (requires (S x) { x.trusted_certs.clear(); }) { using M = decltype(S::trusted_certs); s->trusted_certs.~M(); } }
};
static std::string go(A& a) {
  auto st = std::make_unique<Store<Truststore>>();
  if (!st->s) return "NOCOUNTER";
  size_t t = std::stoul(a[2]);
  for (size_t n = 0; n < t; n++) st->s->addCertificate(cert(a[3 + n]));
  if (a[0] == "get") {
    Bytes b = unhex(a[1]);
    auto r = st->s->get(std::string((const char*)b.data(), b.size()));
    if (!r) return "none";
    return std::to_string((*r)->serialNumber[0]) + " " + hex((*r)->derCert);
  }
  std::vector<x509certificate> c;
  for (size_t n = 3 + t; n < a.size(); n++) c.push_back(cert(a[n]));
  return st->s->trust(c, std::stoull(a[1])) ? "1" : "0";
}
int main() {
  FILE* q = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 2;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    A a; std::string w;
    while (is >> w) a.push_back(w);
    std::string out;
    try { out = go(a); } catch (std::exception&) { out = "EXC"; }
    fprintf(q, "%s\n", out.c_str()); fflush(q);
  }
}
