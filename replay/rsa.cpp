#include <cstring>
#include <array>
#include <memory>
#include <algorithm>
#include "util.h"
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/rsa.h>
#include <caligo/X509Certificate.h>
using namespace Caligo;
using A = std::vector<std::string>;
template <size_t W> bignum<W> num(const std::string& s) {
  bignum<W> r;
  for (size_t i = 0; i < s.size() && i < 8 * bignum<W>::N; i++) {
    char c = s[s.size() - 1 - i];
    uint32_t d = c <= '9' ? c - '0' : c - 'a' + 10;
    r.v[i / 8] |= d << (4 * (i % 8));
  }
  return r;
}
template <size_t W> std::string str(const bignum<W>& x) {
  std::string s;
  for (size_t n = 0; n < bignum<W>::N; n++) { char b[10]; snprintf(b, 10, "%08x", x.v[bignum<W>::N - 1 - n]); s += b; }
  size_t p = s.find_first_not_of('0');
  return p == s.npos ? "0" : s.substr(p);
}
static std::string yes(bool b) { return b ? "1" : "0"; }
template <typename H> struct Use {
  static std::string hash(A& a) {
    Exact x(unhex(a[3]));
    if (a[0] == "mgf") return hex(MGF1<H>::MGF(x.span(), std::stoul(a[4])));
    if (a[0] == "pkcs1") return hex(PKCS1<H>(x.span(), std::stoul(a[4])));
    Exact s(unhex(a[4]));
    return hex(generatePssData<H>(x.span(), s.span(), std::stoul(a[5])));
  }
  // op hash width n exponent ...
  template <size_t W, typename M> static std::string pss(A& a) {
    Exact m(unhex(a[5])), s(unhex(a[6]));
    if (a[0] == "signpss") return hex(rsa_private_key<W>(num<W>(a[3]), num<W>(a[4])).template signPssSignature<H, M>(m.span(), s.span()));
    return yes(rsa_public_key<W>(num<W>(a[3]), num<W>(a[4])).template validatePssSignature<H, M>(m.span(), s.span()));
  }
  template <size_t W> static std::string run(A& a) {
    if (a[0] == "sign15") return hex(rsa_private_key<W>(num<W>(a[3]), num<W>(a[4])).template signPkcs1_5Signature<H>(Exact(unhex(a[5])).span()));
    if (a[0] == "ver15") { Exact m(unhex(a[5])), s(unhex(a[6])); return yes(rsa_public_key<W>(num<W>(a[3]), num<W>(a[4])).template validatePkcs1_5Signature<H>(m.span(), s.span())); }
    return a[7] == "20" ? pss<W, MGF1<SHA1>>(a) : pss<W, MGF1<H>>(a);
  }
  static std::string go(A& a) {
    switch (std::stoi(a[2])) {
      case 0: return hash(a);
      case 1024: return run<1024>(a);
      case 2048: return run<2048>(a);
      case 4096: return run<4096>(a);
    }
    return "?";
  }
};
static std::string go(A& a) {
  if (a[1] == "md5") return Use<MD5>::go(a);
  if (a[1] == "sha1") return Use<SHA1>::go(a);
  if (a[1] == "sha224") return Use<SHA2<224>>::go(a);
  if (a[1] == "sha256") return Use<SHA2<256>>::go(a);
  if (a[1] == "sha384") return Use<SHA2<384>>::go(a);
  if (a[1] == "sha512") return Use<SHA2<512>>::go(a);
  return "?";
}
template <size_t W> std::string prim(A& a) {
  if (a[0] == "ep") return str(rsa_public_key<W>(num<W>(a[2]), num<W>(a[3])).rsaep(num<W>(a[4])));
  return str(rsa_private_key<W>(num<W>(a[2]), num<W>(a[3])).rsadp(num<W>(a[4])));
}
static std::string primitive(A& a) {
  switch (std::stoi(a[1])) {
    case 32: return prim<32>(a);
    case 64: return prim<64>(a);
    case 1024: return prim<1024>(a);
    case 2048: return prim<2048>(a);
    case 4096: return prim<4096>(a);
  }
  return "?";
}
// through the key classes: sign and validate with a TLS signature scheme
static std::string facade(A& a) {
  auto sch = (Tls13SignatureScheme)std::stoi(a[1], nullptr, 16);
  Exact m(unhex(a[4]));
  if (a[0] == "sign") {
    std::unique_ptr<PrivateKey> k = std::make_unique<RsaPrivateKey>(rsa_private_key<4096>(num<4096>(a[2]), num<4096>(a[3])));
    if (a.size() > 5) { testValues.clear(); for (size_t n = a.size(); n --> 5;) testValues.push_back(std::stoull(a[n], nullptr, 16)); }
    std::string r = hex(k->sign(sch, m.span()));
    testValues.clear();
    return r;
  }
  std::unique_ptr<PublicKey> k = std::make_unique<RsaPubkey>(rsa_public_key<4096>(num<4096>(a[2]), num<4096>(a[3])));
  return yes(k->validateSignature(sch, m.span(), Exact(unhex(a[5])).span()));
}
int main() {
  return serve({{"mgf", go}, {"pkcs1", go}, {"pssenc", go}, {"signpss", go}, {"verpss", go}, {"sign15", go}, {"ver15", go}, {"ep", primitive}, {"dp", primitive}, {"sign", facade}, {"validate", facade}});
}
