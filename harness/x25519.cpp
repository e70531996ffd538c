#include <cstring>
#include <array>
#include <iostream>
#include <caligo/bignum.h>
#include <caligo/x25519.h>
using namespace Caligo;
using E = ec_value;
extern "C" {
void vf_add(const E* a, const E* b, E* o) { new (o) E(*a + *b); }
void vf_sub(const E* a, const E* b, E* o) { new (o) E(*a - *b); }
void vf_mul(const E* a, const E* b, E* o) { new (o) E(*a * *b); }
void vf_mulw(const E* a, uint32_t b, E* o) { new (o) E(*a * b); }
void vf_square(const E* a, E* o) { new (o) E(a->square()); }
void vf_inverse(const E* a, E* o) { new (o) E(inverse(*a)); }
bool vf_eq(const E* a, const E* b) { return *a == *b; }
bool vf_ne(E* a, E* b) { return *a != *b; }
bool vf_lt(const E* a, const E* b) { return *a < *b; }
void vf_canon(E* a) { a->applyModulus(); }
void vf_clamp(E* a) { a->normalize(); }
void vf_swap(bool s, E* a, E* b) { ctime_swap(s, *a, *b); }
void vf_x25519(const E* k, const E* u, E* o) { new (o) E(X25519(*k, *u)); }
}
