#include <cstring>
#include <array>
#include <algorithm>
#include <caligo/random_prime.h>
using namespace Caligo;
template <size_t K> struct Prime {
  using S = MontgomeryState<K>;
  using V = MontgomeryValue<K>;
  using B = bignum<K>;
  static bool once(const S* s, const V* d, uint64_t r, uint64_t a, const B* m1) { return miller_rabin_one_loop<K>(*s, *d, r, a, *m1); }
  static bool test(const B* n) { return miller_rabin_is_probably_prime<K>(*n); }
  static void gen(B* o) { new (o) B(random_prime<K>()); }
  static void genf(B* o) { new (o) B(random_prime<K, true>()); }
  static void rnd(B* o) { new (o) B(B::random()); }
};
#define KEEP(n) __attribute__((used)) void* vf_keep_##n[]
#define M(K) (void*)&Prime<K>::once, (void*)&Prime<K>::test, (void*)&Prime<K>::gen, (void*)&Prime<K>::genf, (void*)&Prime<K>::rnd
KEEP(m) = {M(32), M(64), M(96), M(128), M(256), M(1024), M(2048)};
