#include <array>
#include <string>
#include <vector>
#include <algorithm>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/rsa.h>
using namespace Caligo;
using V = std::vector<uint8_t>;
using S = std::span<const uint8_t>;
template <typename H> struct Use {
  static void mgf(const uint8_t* s, size_t n, size_t len, V* out) { new (out) V(MGF1<H>::MGF(S(s, n), len)); }
  static void pssenc(const uint8_t* d, size_t dn, const uint8_t* s, size_t sn, size_t len, V* out) { new (out) V(generatePssData<H>(S(d, dn), S(s, sn), len)); }
  static void pkcs1(const uint8_t* d, size_t dn, size_t len, V* out) { new (out) V(PKCS1<H>(S(d, dn), len)); }
  static void salt20(const uint8_t* d, size_t n, V* out) { new (out) V(getSalt<H, 20>(S(d, n))); }
  static void saltH(const uint8_t* d, size_t n, V* out) { new (out) V(getSalt<H, H::hashsize>(S(d, n))); }
};
template <typename H, size_t W> struct Key {
  static bool verify20(const rsa_public_key<W>* k, const uint8_t* m, size_t n, const uint8_t* s, size_t sn) { return k->template validatePssSignature<H, MGF1<SHA1>>(S(m, n), S(s, sn)); }
  static bool verifyH(const rsa_public_key<W>* k, const uint8_t* m, size_t n, const uint8_t* s, size_t sn) { return k->template validatePssSignature<H, MGF1<H>>(S(m, n), S(s, sn)); }
  static bool ver15(const rsa_public_key<W>* k, const uint8_t* m, size_t n, const uint8_t* s, size_t sn) { return k->template validatePkcs1_5Signature<H>(S(m, n), S(s, sn)); }
  static void signpss(const rsa_private_key<W>* k, const uint8_t* m, size_t n, const uint8_t* s, size_t sn, V* out) { new (out) V(k->template signPssSignature<H, MGF1<H>>(S(m, n), S(s, sn))); }
  static void sign15(const rsa_private_key<W>* k, const uint8_t* m, size_t n, V* out) { new (out) V(k->template signPkcs1_5Signature<H>(S(m, n))); }
};
template <size_t W> struct Prim {
  static void ep(const rsa_public_key<W>* k, const bignum<W>* m, bignum<W>* o) { new (o) bignum<W>(k->rsaep(*m)); }
  static void dp(const rsa_private_key<W>* k, const bignum<W>* m, bignum<W>* o) { new (o) bignum<W>(k->rsadp(*m)); }
  static void priv(const bignum<W>* n, const bignum<W>* d, rsa_private_key<W>* o) { new (o) rsa_private_key<W>(*n, *d); }
  static void pub(const bignum<W>* n, const bignum<W>* e, rsa_public_key<W>* o) { new (o) rsa_public_key<W>(*n, *e); }
};
#define A(n) __attribute__((used)) void* vf_keep_##n[]
#define U(T) (void*)&Use<T>::mgf, (void*)&Use<T>::pssenc, (void*)&Use<T>::pkcs1, (void*)&Use<T>::salt20, (void*)&Use<T>::saltH
#define K(T) (void*)&T::verify20, (void*)&T::verifyH, (void*)&T::ver15, (void*)&T::signpss, (void*)&T::sign15
#define KW(n, T) A(n) = {K(T<1024>), K(T<2048>), K(T<4096>)}
template <size_t W> using K1 = Key<SHA1, W>;
template <size_t W> using K256 = Key<SHA2<256>, W>;
template <size_t W> using K384 = Key<SHA2<384>, W>;
template <size_t W> using K512 = Key<SHA2<512>, W>;
A(u) = {U(SHA1), U(SHA2<224>), U(SHA2<256>), U(SHA2<384>), U(SHA2<512>)};
KW(k1, K1); KW(k256, K256); KW(k384, K384); KW(k512, K512);
#define P(W) (void*)&Prim<W>::ep, (void*)&Prim<W>::dp, (void*)&Prim<W>::priv, (void*)&Prim<W>::pub
A(p) = {P(1024), P(2048), P(4096)};
