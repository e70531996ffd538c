#include <cstring>
#include <array>
#include <caligo/bignum.h>
#include <caligo/mont.h>
using namespace Caligo;
template <size_t W, size_t K> struct Red {
  static void reduce(const bignum<W>* a, const bignum<K>* p, bignum<K>* o) { new (o) bignum<K>(a->template naive_reduce<K>(*p)); }
};
template <size_t K> struct Mont {
  using S = MontgomeryState<K>;
  using V = MontgomeryValue<K>;
  using B = bignum<K>;
  static void inv(const B* a, B* o) { new (o) B(RecursiveInverseModPower2<K>(*a)); }
  static void redc(const S* s, const bignum<2 * K>* v, B* o) { new (o) B(s->REDC(*v)); }
  static void state(const B* n, S* s) { new (s) S(*n); }
  static void value(const S* s, const B* x, V* o) { new (o) V(*s, *x); }
  static void add(const V* a, const V* b, V* o) { new (o) V(*a + *b); }
  static void mul(const V* a, const V* b, V* o) { new (o) V(*a * *b); }
  static void square(const V* a, V* o) { new (o) V(a->square()); }
  static void expw(const V* a, uint32_t e, V* o) { new (o) V(a->exp(e)); }
  static void expb(const V* a, const B* e, V* o) { new (o) V(a->exp(*e)); }
  static void out(const V* a, B* o) { new (o) B((B)*a); }
};
#define KEEP(n) __attribute__((used)) void* vf_keep_##n[]
#define M(K) (void*)&Mont<K>::inv, (void*)&Mont<K>::redc, (void*)&Mont<K>::state, (void*)&Mont<K>::value, (void*)&Mont<K>::add, (void*)&Mont<K>::mul, (void*)&Mont<K>::square, (void*)&Mont<K>::expw, (void*)&Mont<K>::expb, (void*)&Mont<K>::out
KEEP(m) = {M(32), M(64), M(96), M(160), M(256), M(1024), M(2048), M(4096)};
KEEP(r) = {(void*)&Red<32, 32>::reduce, (void*)&Red<64, 32>::reduce, (void*)&Red<128, 64>::reduce, (void*)&Red<65, 32>::reduce, (void*)&Red<129, 64>::reduce, (void*)&Red<193, 96>::reduce, (void*)&Red<321, 160>::reduce, (void*)&Red<513, 256>::reduce, (void*)&Red<2049, 1024>::reduce, (void*)&Red<4097, 2048>::reduce, (void*)&Red<8193, 4096>::reduce};
