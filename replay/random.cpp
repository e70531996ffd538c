#include <cstring>
#include "util.h"
#include <caligo/random.h>
#include <caligo/bignum.h>
using namespace Caligo;
using A = std::vector<std::string>;
template <typename T> std::string fill(size_t n) {
  std::unique_ptr<T[]> p(new T[n ? n : 1]);
  memset(p.get(), 0xa5, sizeof(T) * (n ? n : 1));
  generate_random(std::span<T>(p.get(), n));
  std::string s = hex(std::span<const uint8_t>((const uint8_t*)p.get(), n * sizeof(T)));
  return s + " " + std::to_string(testValues.size());
}
template <size_t W> std::string bn() {
  auto x = bignum<W>::random();
  return hex(std::span<const uint8_t>((const uint8_t*)x.v, sizeof(x.v))) + " " + std::to_string(testValues.size());
}
static std::string go(A& a) {
  testValues.clear();
  for (size_t i = a.size() - 1; i >= 3; i--) testValues.push_back(std::stoull(a[i], nullptr, 16));
  int b = std::stoi(a[1]);
  size_t n = std::stoul(a[2]);
  if (a[0] == "fill") return b == 8 ? fill<uint8_t>(n) : b == 16 ? fill<uint16_t>(n) : b == 32 ? fill<uint32_t>(n) : fill<uint64_t>(n);
  switch (b) {
    case 32: return bn<32>();
    case 64: return bn<64>();
    case 96: return bn<96>();
    case 160: return bn<160>();
    case 256: return bn<256>();
    case 1024: return bn<1024>();
    case 2048: return bn<2048>();
    case 4096: return bn<4096>();
  }
  return "?";
}
int main() { return serve({{"fill", go}, {"bn", go}}); }
