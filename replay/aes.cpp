#include "util.h"
#include <caligo_src/aes.cpp>
template <size_t N> std::string enc(std::vector<std::string>& a) {
  Exact k(unhex(a[1]));
  Caligo::AesKeySchedule<N> s(k.span());
  std::string out;
  for (size_t i = 2; i < a.size(); i++) {
    Exact p(unhex(a[i]));
    __m128i b = Caligo::AES<N>::Encrypt(s, _mm_loadu_si128((const __m128i*)p.p.get()));
    Bytes o(16); _mm_storeu_si128((__m128i*)o.data(), b);
    out += hex(o);
  }
  return out;
}
int main() { return serve({{"aes128", enc<128>}, {"aes256", enc<256>}}); }
