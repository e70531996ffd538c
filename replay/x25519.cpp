#include <cstring>
#include <array>
#include <iostream>
#include "util.h"
#include <caligo/bignum.h>
#include <caligo/x25519.h>
using namespace Caligo;
using A = std::vector<std::string>;
static ec_value num(const std::string& s) {
  bignum<256> r;
  for (size_t i = 0; i < s.size() && i < 64; i++) {
    char c = s[s.size() - 1 - i];
    uint32_t d = c <= '9' ? c - '0' : c - 'a' + 10;
    r.v[i / 8] |= d << (4 * (i % 8));
  }
  return ec_value(r);
}
static std::string raw(const ec_value& x) {
  std::string s;
  for (size_t n = 0; n < 8; n++) { char b[10]; snprintf(b, 10, "%08x", x.v.v[7 - n]); s += b; }
  size_t p = s.find_first_not_of('0');
  return p == s.npos ? "0" : s.substr(p);
}
static std::string str(ec_value x) { x.applyModulus(); return raw(x); }
static std::string go(A& a) {
  const std::string& op = a[0];
  ec_value x = num(a[1]), y = num(a.size() > 2 ? a[2] : "0");
  if (op == "add") return str(x + y);
  if (op == "sub") return str(x - y);
  if (op == "mul") return str(x * y);
  if (op == "mulw") return str(x * (uint32_t)y.v.v[0]);
  if (op == "square") return str(x.square());
  if (op == "inv") return str(inverse(x));
  if (op == "eq") return std::string(x == y ? "1" : "0") + (x != y ? "1" : "0") + (x < y ? "1" : "0");
  if (op == "canon") { x.applyModulus(); return raw(x); }
  if (op == "clamp") { x.normalize(); return raw(x); }
  if (op == "swap") { bool s = a[3] == "1"; ctime_swap(s, x, y); return raw(x) + " " + raw(y); }
  if (op == "x") return raw(X25519(x, y));
  if (op == "key") { ec_value k = ec_value::random_private_key(); ec_value c = k; c.normalize(); return raw(k) == raw(c) ? "ok" : raw(k); }
  return "?";
}
int main() {
  return serve({{"add", go}, {"sub", go}, {"mul", go}, {"mulw", go}, {"square", go}, {"inv", go}, {"eq", go}, {"canon", go}, {"clamp", go}, {"swap", go}, {"x", go}, {"key", go}});
}
