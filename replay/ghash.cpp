#include "util.h"
#include <caligo/ghash.h>
using namespace Caligo;
static __m128i ld(const Bytes& b) { return _mm_loadu_si128((const __m128i*)b.data()); }
static std::string st(__m128i v) { Bytes o(16); _mm_storeu_si128((__m128i*)o.data(), v); return hex(o); }
int main() {
  return serve({{"reflect", [](std::vector<std::string>& a) { return st(reflect(ld(unhex(a[1])))); }},
                {"mul", [](std::vector<std::string>& a) { return st(reflect(galoisMultiply(reflect(ld(unhex(a[1]))), reflect(ld(unhex(a[2])))))); }},
                {"block", [](std::vector<std::string>& a) { return st(reflect(ghash_block(reflect(ld(unhex(a[1]))), reflect(ld(unhex(a[2]))), reflect(ld(unhex(a[3])))))); }}});
}
