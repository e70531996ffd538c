#include <cstring>
#include <array>
#include "util.h"
#include <caligo/bignum.h>
#include <caligo/mont.h>
using namespace Caligo;
using A = std::vector<std::string>;
// numbers are big-endian hexadecimal text
template <size_t W> bignum<W> num(const std::string& s) {
  bignum<W> r;
  for (size_t i = 0; i < s.size() && i < 8 * bignum<W>::N; i++) {
    char c = s[s.size() - 1 - i];
    uint32_t d = c <= '9' ? c - '0' : c - 'a' + 10;
    r.v[i / 8] |= d << (4 * (i % 8));
  }
  return r;
}
template <size_t W> std::string str(const bignum<W>& x) {
  std::string s;
  for (size_t n = 0; n < bignum<W>::N; n++) { char b[10]; snprintf(b, 10, "%08x", x.v[bignum<W>::N - 1 - n]); s += b; }
  size_t p = s.find_first_not_of('0');
  return p == s.npos ? "0" : s.substr(p);
}
template <size_t W> std::string run(A& a) {
  const std::string& op = a[0];
  auto x = num<W>(a[2]);
  auto y = a.size() > 3 ? num<W>(a[3]) : bignum<W>(0);
  auto fl = [](bool f, const bignum<W>& r) { return std::string(f ? "1 " : "0 ") + str(r); };
  if (op == "add") { auto [f, r] = x + y; return fl(f, r); }
  if (op == "sub") { auto [f, r] = x - y; return fl(f, r); }
  if (op == "addto") { bool f = x.add(y.v); return fl(f, x); }
  if (op == "subfrom") { bool f = x.sub(y.v); return fl(f, x); }
  if (op == "mul") return str(x * y);
  if (op == "square") return str(x.square());
  if (op == "mulw") return str(x * (uint32_t)y.v[0]);
  if (op == "lt") return x < y ? "1" : "0";
  if (op == "eq") return x == y ? "1" : "0";
  if (op == "shr1") { x.shr1(); return str(x); }
  if (op == "shlw") { x.shl_word(std::stoul(a[4])); return str(x); }
  if (op == "neg") { x.neg(); return str(x); }
  if (op == "xor") { auto z = x; z ^= y; return str(x ^ y) + " " + str(z); }
  if (op == "and") { x &= y; return str(x); }
  if (op == "bit") return std::to_string(x.bit(std::stoul(a[4])));
  if (op == "setbit") { x.set_bit(std::stoul(a[4])); return str(x); }
  if (op == "clrbit") { x.clear_bit(std::stoul(a[4])); return str(x); }
  if (op == "swap") { ctime_swap(a[4] == "1", x, y); return str(x) + " " + str(y); }
  if (op == "word") { bignum<W> z(y.v[0]); x = y.v[0]; return str(x) + " " + str(z); }
  if (op == "bytes") { Exact d(unhex(a[4])); bignum<W> z(d.span()); return str(z); }
  if (op == "out") return hex(x.as_bytes());
  if (op == "words") { std::vector<uint32_t> d(x.v, x.v + bignum<W>::N); bignum<W> z{std::span<const uint32_t>(d)}; return str(z); }
  if (op == "wide") { bignum<2 * W> z(x); bignum<W> b(z); bignum<2 * W + 1> q(x); return str(z) + " " + str(b) + " " + str(q); }
  if (op == "conv") { bignum<W> b(num<2 * W + 1>(a[2])); return str(b); }
  if (op == "slice") { auto z = num<2 * W>(a[2]); return str(z.template slice<W>(32 * std::stoul(a[4]))); }
  if (op == "mod") return str(num<2 * W + 1>(a[2]).template naive_reduce<W>(y));
  if (op == "mod1") return str(x.template naive_reduce<W>(y));
  if (op == "inv") return str(RecursiveInverseModPower2<W>(x));
  // modulus in a[2]
  MontgomeryState<W> s(x);
  if (op == "state") return str(s.N) + " " + str(s.Ninv) + " " + str(s.R1MN) + " " + str(s.R2MN) + " " + str(s.R3MN);
  if (op == "redc") return str(s.REDC(num<2 * W>(a[3])));
  MontgomeryValue<W> p(s, y);
  using B = bignum<W>;
  if (op == "mont") {
    auto z = num<W>(a[4]);
    MontgomeryValue<W> q(s, z);
    return str((B)p) + " " + str((B)(p + q)) + " " + str((B)(p * q)) + " " + str((B)p.square()) + " " + str(p.value) + " " + str((p + q).value);
  }
  if (op == "expw") return str((B)p.exp((uint32_t)std::stoul(a[4])));
  if (op == "expb") return str((B)p.exp(num<W>(a[4])));
  return "?";
}
static std::string go(A& a) {
  switch (std::stoi(a[1])) {
    case 32: return run<32>(a);
    case 64: return run<64>(a);
    case 96: return run<96>(a);
    case 160: return run<160>(a);
    case 256: return run<256>(a);
    case 1024: return run<1024>(a);
    case 2048: return run<2048>(a);
    case 4096: return run<4096>(a);
  }
  return "?";
}
int main() {
  return serve({{"add", go}, {"sub", go}, {"addto", go}, {"subfrom", go}, {"mul", go}, {"square", go}, {"mulw", go}, {"lt", go}, {"eq", go}, {"shr1", go}, {"shlw", go}, {"neg", go}, {"xor", go}, {"and", go}, {"bit", go},
                {"setbit", go}, {"clrbit", go}, {"swap", go}, {"word", go}, {"bytes", go}, {"out", go}, {"words", go}, {"wide", go}, {"conv", go}, {"slice", go}, {"mod", go}, {"mod1", go}, {"inv", go}, {"state", go},
                {"redc", go}, {"mont", go}, {"expw", go}, {"expb", go}});
}
