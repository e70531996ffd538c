#include <cstring>
#include <array>
#include "util.h"
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/aes.h>
#include <caligo/hkdf.h>
using namespace Caligo;
template <typename H> struct U {
  static secret<H> sec(const std::string& s) { secret<H> r; Bytes b = unhex(s); memcpy(r.data.data(), b.data(), r.data.size()); return r; }
  static std::string run(std::vector<std::string>& a) {
    const std::string& op = a[1];
    if (op == "hmac") { Exact x(unhex(a[2])), k(unhex(a[3])); return hex(HMAC<H>(x.span(), k.span())); }
    if (op == "extract") { Exact x(unhex(a[2])), k(unhex(a[3])); return hex(HKDF_Extract<H>(x.span(), k.span())); }
    if (op == "expand") { Exact x(unhex(a[2])), k(unhex(a[3])); return hex(HKDF_Expand<H>(x.span(), k.span(), std::stoull(a[4]))); }
    if (op == "label") { Exact x(unhex(a[2])), c(unhex(a[4])); Bytes l = unhex(a[3]); return hex(HKDF_Expand_Label<H>(x.span(), std::string(l.begin(), l.end()), c.span(), std::stoull(a[5]))); }
#ifdef TLS
    if (op == "handshake") { Exact x(unhex(a[2])); return hex(HKDF_HandshakeSecret<H>(x.span()).data); }
    if (op == "master") return hex(HKDF_MasterSecret<H>(sec(a[2])).data);
    if (op == "update") return hex(HKDF_UpdateSecret<H>(sec(a[2])).data);
    auto s = sec(a[2]);
    Exact h(unhex(a[3]));
    if (op == "exporter") return hex(exporter_master<H>(s, h.span()));
    if (op == "resumption") return hex(resumption_master<H>(s, h.span()));
    bool c = a[4] == "1", hs = a[5] == "1";
    if (op == "traffic") return hex(s.get_traffic_secret(h.span(), c, hs));
    if (op == "finished") return hex(s.get_finished_key(h.span(), c));
    if (op == "keyiv128") { auto r = s.template get_key_iv<AES<128>>(h.span(), c, hs); return hex(r.key) + "/" + hex(r.iv); }
    if (op == "keyiv256") { auto r = s.template get_key_iv<AES<256>>(h.span(), c, hs); return hex(r.key) + "/" + hex(r.iv); }
#endif
    return "?";
  }
};
int main() {
  return serve({{"md5", U<MD5>::run}, {"sha1", U<SHA1>::run}, {"sha224", U<SHA2<224>>::run}, {"sha256", U<SHA2<256>>::run}, {"sha384", U<SHA2<384>>::run},
                {"sha512", U<SHA2<512>>::run}, {"sha3_224", U<SHA3<224>>::run}, {"sha3_256", U<SHA3<256>>::run}, {"sha3_384", U<SHA3<384>>::run}, {"sha3_512", U<SHA3<512>>::run}});
}
