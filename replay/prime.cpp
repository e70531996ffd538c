#include <cstring>
#include <array>
#include <algorithm>
#include "util.h"
#include <caligo/random_prime.h>
using namespace Caligo;
using A = std::vector<std::string>;
template <size_t W> bignum<W> num(const std::string& s) {
  bignum<W> r;
  for (size_t i = 0; i < s.size() && i < 8 * bignum<W>::N; i++) {
    char c = s[s.size() - 1 - i];
    uint32_t d = c <= '9' ? c - '0' : c - 'a' + 10;
    r.v[i / 8] |= d << (4 * (i % 8));
  }
  return r;
}
template <size_t W> std::string str(const bignum<W>& x) {
  std::string s;
  for (size_t n = 0; n < bignum<W>::N; n++) { char b[10]; snprintf(b, 10, "%08x", x.v[bignum<W>::N - 1 - n]); s += b; }
  size_t p = s.find_first_not_of('0');
  return p == s.npos ? "0" : s.substr(p);
}
template <size_t W> std::string run(A& a) {
  if (a[0] == "test") return miller_rabin_is_probably_prime<W>(num<W>(a[2])) ? "1" : "0";
  testValues.clear();
  for (size_t i = a.size() - 1; i >= 3; i--) testValues.push_back(std::stoull(a[i], nullptr, 16));
  auto r = str(a[2] == "1" ? random_prime<W, true>() : random_prime<W>());
  return r + " " + std::to_string(testValues.size());
}
static std::string go(A& a) {
  switch (std::stoi(a[1])) {
    case 32: return run<32>(a);
    case 64: return run<64>(a);
    case 96: return run<96>(a);
    case 128: return run<128>(a);
    case 256: return run<256>(a);
    case 1024: return run<1024>(a);
    case 2048: return run<2048>(a);
  }
  return "?";
}
int main() { return serve({{"test", go}, {"gen", go}}); }
