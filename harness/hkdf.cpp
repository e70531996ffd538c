#include <array>
#include <string>
#include <vector>
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/aes.h>
#include <caligo/hkdf.h>
using namespace Caligo;
using V = std::vector<uint8_t>;
using S = std::span<const uint8_t>;
template <typename H> struct Use {
  static void hmac(const uint8_t* tx, size_t tn, const uint8_t* k, size_t kn, uint8_t* out) { auto r = HMAC<H>(S(tx, tn), S(k, kn)); memcpy(out, r.data(), r.size()); }
  static void extract(const uint8_t* s, size_t sn, const uint8_t* k, size_t kn, uint8_t* out) { auto r = HKDF_Extract<H>(S(s, sn), S(k, kn)); memcpy(out, r.data(), r.size()); }
  static void expand(const uint8_t* k, size_t kn, const uint8_t* i, size_t in, size_t len, V* out) { new (out) V(HKDF_Expand<H>(S(k, kn), S(i, in), len)); }
  static void label(const uint8_t* k, size_t kn, const std::string* l, const uint8_t* c, size_t cn, size_t len, V* out) { new (out) V(HKDF_Expand_Label<H>(S(k, kn), *l, S(c, cn), len)); }
#ifdef VF_TLS
  static void traffic(secret<H>* s, const uint8_t* h, size_t hn, bool client, bool hs, V* out) { new (out) V(s->get_traffic_secret(S(h, hn), client, hs)); }
  static void finished(secret<H>* s, const uint8_t* h, size_t hn, bool client, V* out) { new (out) V(s->get_finished_key(S(h, hn), client)); }
  template <size_t N> static void keyiv(secret<H>* s, const uint8_t* h, size_t hn, bool client, bool hs, V* k, V* iv) {
    auto r = s->template get_key_iv<AES<N>>(S(h, hn), client, hs); new (k) V(std::move(r.key)); new (iv) V(std::move(r.iv)); }
  static void handshake(const uint8_t* p, size_t n, uint8_t* out) { auto r = HKDF_HandshakeSecret<H>(S(p, n)); memcpy(out, r.data.data(), r.data.size()); }
  static void master(const secret<H>* s, uint8_t* out) { auto r = HKDF_MasterSecret<H>(*s); memcpy(out, r.data.data(), r.data.size()); }
  static void update(const secret<H>* s, uint8_t* out) { auto r = HKDF_UpdateSecret<H>(*s); memcpy(out, r.data.data(), r.data.size()); }
  static void exporter(secret<H>* s, const uint8_t* h, size_t hn, V* out) { new (out) V(exporter_master<H>(*s, S(h, hn))); }
  static void resumption(secret<H>* s, const uint8_t* h, size_t hn, V* out) { new (out) V(resumption_master<H>(*s, S(h, hn))); }
#endif
};
#define A(n) __attribute__((used)) void* vf_keep_##n[]
#define ALL(T) (void*)&T::hmac, (void*)&T::extract, (void*)&T::expand, (void*)&T::label
#ifdef VF_TLS
#define TLS(T) , (void*)&T::traffic, (void*)&T::finished, (void*)&T::template keyiv<128>, (void*)&T::template keyiv<256>, (void*)&T::handshake, (void*)&T::master, (void*)&T::update, (void*)&T::exporter, (void*)&T::resumption
#else
#define TLS(T)
#endif
A(md5) = {ALL(Use<MD5>)}; A(sha1) = {ALL(Use<SHA1>)};
A(s224) = {ALL(Use<SHA2<224>>)}; A(s256) = {ALL(Use<SHA2<256>>) TLS(Use<SHA2<256>>)};
A(s384) = {ALL(Use<SHA2<384>>) TLS(Use<SHA2<384>>)}; A(s512) = {ALL(Use<SHA2<512>>) TLS(Use<SHA2<512>>)};
A(k224) = {ALL(Use<SHA3<224>>)}; A(k256) = {ALL(Use<SHA3<256>>)}; A(k384) = {ALL(Use<SHA3<384>>)}; A(k512) = {ALL(Use<SHA3<512>>)};
