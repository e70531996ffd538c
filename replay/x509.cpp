#include <unistd.h>
#include <cstring>
#include <sstream>
#include "util.h"
#include <caligo_src/X509Certificate.cpp>
using namespace Caligo;
using A = std::vector<std::string>;
template <size_t W> std::string str(const bignum<W>& x) {
  std::string s;
  for (size_t n = 0; n < bignum<W>::N; n++) { char b[10]; snprintf(b, 10, "%08x", x.v[bignum<W>::N - 1 - n]); s += b; }
  size_t p = s.find_first_not_of('0');
  return p == s.npos ? "0" : s.substr(p);
}
static std::string show(x509certificate& x) {
  std::ostringstream o;
  o << hex(x.subject) << " " << hex(x.issuer) << " " << x.validity_start << " " << x.validity_end << " " << str(x.serialNumber) << " " << !!x.pubkey << " " << hex(x.derCert);
  return o.str();
}
static std::string value(A& a) {
  Exact e(unhex(a[1]));
  asn1_view v(e.span());
  if (a[0] == "read") {
    std::string r;
    try {
      while (!v.empty()) {
        uint32_t p = (uint32_t)v.peek();
        auto [i, s] = v.read();
        r += std::to_string((uint32_t)i) + (p == (uint32_t)i ? ":" : "?") + hex(s) + " ";
      }
      r += ".";
    } catch (std::exception&) { r += "X"; }
    return r;
  }
  if (a[0] == "date") return std::to_string(parseDer<x509date>(v));
  if (a[0] == "int") return std::to_string((uint32_t)parseDer<int>(v));
  if (a[0] == "str") return hex(parseDer<std::string>(v));
  if (a[0] == "bn32") return str(parseBignumDer<32>(v));
  if (a[0] == "bn128") return str(parseBignumDer<128>(v));
  if (a[0] == "bn4096") return str(parseBignumDer<4096>(v));
  return "?";
}
static std::string cert(A& a) {
  Exact e(unhex(a[2]));
  auto x = parseCertificate(e.span(), a[1] == "pem" ? DataFormat::Pem : DataFormat::Der);
  return show(x);
}
static std::string applies(A& a) {
  Exact e(unhex(a[1]));
  auto x = parseCertificate(e.span());
  Bytes n = unhex(a[2]);
  return x.appliesTo(std::string((const char*)n.data(), n.size())) ? "1" : "0";
}
static std::string pems(A& a) {
  Exact e(unhex(a[1]));
  std::string r;
  for (auto& x : parseCertificatesPem(e.span())) r += str(x.serialNumber) + "/" + hex(x.subject) + " ";
  return r + ".";
}
static std::string verify(A& a) {
  Exact e(unhex(a[1])), f(unhex(a[2]));
  auto x = parseCertificate(e.span()), y = parseCertificate(f.span());
  return x.verify(y) ? "1" : "0";
}
static std::string priv(A& a) {
  Exact e(unhex(a[2])), m(unhex(a[3]));
  auto k = parsePrivateKey(e.span(), a[1] == "pem" ? DataFormat::Pem : DataFormat::Der);
  return k ? hex(k->sign(rsa_pkcs1_sha256, m.span())) : "none";
}
int main() {
  // FAIL() prints on stdout; answers go to the original one
  FILE* q = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 2;
  std::string line;
  std::map<std::string, Cmd> cmds{{"read", value}, {"date", value}, {"int", value}, {"str", value}, {"bn32", value}, {"bn128", value}, {"bn4096", value}, {"cert", cert}, {"applies", applies}, {"pems", pems}, {"verify", verify}, {"priv", priv}};
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    A a; std::string w;
    while (is >> w) a.push_back(w);
    std::string out;
    try { out = cmds.at(a[0])(a); } catch (std::exception&) { out = "EXC"; }
    fprintf(q, "%s\n", out.c_str()); fflush(q);
  }
}
