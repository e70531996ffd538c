#include "util.h"
#include <caligo/hash.h>
using namespace Caligo;
// hash <hexname> <hex> <split>
static std::string go(std::vector<std::string>& a) {
  Bytes nm = unhex(a[1]), d = unhex(a[2]);
  size_t k = std::stoul(a[3]);
  Exact ne(nm), e1(d.data(), k), e2(d.data() + k, d.size() - k);
  Hash h(ne.sv());
  h.add(e1.span());
  std::string mid = hex(h.data());
  h.add(e2.sv());
  std::vector<uint8_t> v = h;
  std::string s = h, s2 = h;
  return std::to_string(h.hashsize()) + "," + hex(h.getAsn1Id()) + "," + mid + "," + hex(v) + "," + hex(h.data()) + "," + s + "," + s2 + "," + std::to_string(h.MaxLength());
}
static std::string many(std::vector<std::string>& a) {
  Bytes nm = unhex(a[1]), d = unhex(a[2]);
  Exact ne(nm), e(d);
  Hash h(ne.sv(), e.span(), e.sv());
  return hex(h.data());
}
int main() { return serve({{"hash", go}, {"many", many}}); }
