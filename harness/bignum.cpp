#include <cstring>
#include <array>
#include <caligo/bignum.h>
using namespace Caligo;
template <size_t W> struct Use {
  using B = bignum<W>;
  static constexpr size_t N = B::N;
  static bool add(const B* a, const B* b, B* o) { auto [c, r] = *a + *b; *o = r; return c; }
  static bool sub(const B* a, const B* b, B* o) { auto [c, r] = *a - *b; *o = r; return c; }
  static bool addto(B* a, const B* b) { return a->add(b->v); }
  static bool subfrom(B* a, const B* b) { return a->sub(b->v); }
  static void mul(const B* a, const B* b, bignum<2 * W>* o) { *o = *a * *b; }
  static void square(const B* a, bignum<2 * W>* o) { *o = a->square(); }
  static void mulw(const B* a, uint32_t b, bignum<W + 32>* o) { *o = *a * b; }
  static bool lt(const B* a, const B* b) { return *a < *b; }
  static bool eq(const B* a, const B* b) { return *a == *b; }
  static void shr1(B* a) { a->shr1(); }
  static void shlw(B* a, size_t k) { a->shl_word(k); }
  static void neg(B* a) { a->neg(); }
  static void bxor(const B* a, const B* b, B* o) { *o = *a ^ *b; }
  static void xoreq(B* a, const B* b) { *a ^= *b; }
  static void andeq(B* a, const B* b) { *a &= *b; }
  static int bit(const B* a, size_t n) { return a->bit(n); }
  static void setbit(B* a, size_t n) { a->set_bit(n); }
  static void clrbit(B* a, size_t n) { a->clear_bit(n); }
  static void swap(bool s, B* a, B* b) { ctime_swap(s, *a, *b); }
  static void assign(B* a, uint32_t w) { *a = w; }
  static void make(B* a, uint32_t w) { new (a) B(w); }
  static void bytes(const uint8_t* p, size_t n, B* o) { new (o) B(std::span<const uint8_t>(p, n)); }
  static void words(const uint32_t* p, B* o) { new (o) B(std::span<const uint32_t>(p, N)); }
  static void out(const B* a, std::vector<uint8_t>* o) { new (o) std::vector<uint8_t>(a->as_bytes()); }
};
template <size_t W, size_t K> struct Conv {
  static void conv(const bignum<K>* a, bignum<W>* o) { new (o) bignum<W>(*a); }
};
template <size_t W, size_t K> struct Slice {
  static void slice(const bignum<W>* a, size_t s, bignum<K>* o) { bignum<W> x = *a; new (o) bignum<K>(x.template slice<K>(s)); }
};
#define KEEP(n) __attribute__((used)) void* vf_keep_##n[]
#define U(W) (void*)&Use<W>::add, (void*)&Use<W>::sub, (void*)&Use<W>::addto, (void*)&Use<W>::subfrom, (void*)&Use<W>::mul, (void*)&Use<W>::square, (void*)&Use<W>::mulw, (void*)&Use<W>::lt, (void*)&Use<W>::eq, (void*)&Use<W>::shr1, \
  (void*)&Use<W>::shlw, (void*)&Use<W>::neg, (void*)&Use<W>::bxor, (void*)&Use<W>::xoreq, (void*)&Use<W>::andeq, (void*)&Use<W>::bit, (void*)&Use<W>::setbit, (void*)&Use<W>::clrbit, (void*)&Use<W>::swap, (void*)&Use<W>::assign, \
  (void*)&Use<W>::make, (void*)&Use<W>::bytes, (void*)&Use<W>::words, (void*)&Use<W>::out
KEEP(u) = {U(32), U(64), U(160), U(256), U(512), U(1024), U(2048), U(4096)};
KEEP(c) = {(void*)&Conv<64, 32>::conv, (void*)&Conv<32, 64>::conv, (void*)&Conv<513, 256>::conv, (void*)&Conv<256, 513>::conv, (void*)&Conv<256, 512>::conv, (void*)&Conv<64, 33>::conv, (void*)&Conv<8193, 4096>::conv, (void*)&Conv<4096, 8193>::conv,
  (void*)&Conv<2048, 1024>::conv, (void*)&Conv<100, 100>::conv, (void*)&Conv<100, 70>::conv};
KEEP(s) = {(void*)&Slice<512, 256>::slice, (void*)&Slice<288, 256>::slice, (void*)&Slice<64, 32>::slice, (void*)&Slice<8192, 4096>::slice, (void*)&Slice<256, 128>::slice};
