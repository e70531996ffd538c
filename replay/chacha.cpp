#include <cstring>
#include <stdexcept>
#include <array>
#include "util.h"
#include <caligo/chacha20.h>
// chacha key nonce { e data | d data | c counter }...
template <typename G> bool skip(G& g, uint32_t n) {
  if constexpr (requires { g.state[12] = n; g.GenerateBlock(); }) { g.state[12] = n; g.GenerateBlock(); return true; }
  return false;
}
std::string run(std::vector<std::string>& a) {
  Exact k(unhex(a[1])), iv(unhex(a[2]));
  ChaCha20 g(k.span(), iv.span());
  std::string out;
  for (size_t i = 3; i < a.size(); i += 2) {
    if (a[i] == "c") { if (!skip(g, (uint32_t)std::stoull(a[i + 1]))) return "NOCOUNTER"; continue; }
    Exact x(unhex(a[i + 1]));
    if (a[i] == "e") g.Encrypt(x.mspan()); else g.Decrypt(x.mspan());
    out += hex(x.span()) + " ";
  }
  return out;
}
int main() { return serve({{"chacha", run}}); }
