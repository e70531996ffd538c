#include <cstring>
#include <stdexcept>
#include <array>
#include "util.h"
#include <caligo/aes.h>
#include <caligo/ctr.h>
using namespace Caligo;
// ctr<bits> key iv { e data | d data | k size | n count }...
template <typename G> bool skip(G& g, uint64_t n) {
  if constexpr (requires { g.message_counter = n; }) { g.message_counter = n; return true; }
  return false;
}
template <size_t N> std::string run(std::vector<std::string>& a) {
  Exact k(unhex(a[1])), iv(unhex(a[2]));
  CTR<AES<N>> g(key_iv_pair<AES<N>>(k.span(), iv.span()));
  std::string out;
  for (size_t i = 3; i < a.size(); i += 2) {
    if (a[i] == "n") { if (!skip(g, std::stoull(a[i + 1]))) return "NOCOUNTER"; continue; }
    if (a[i] == "k") { out += hex(g.GenerateKeystream(std::stoull(a[i + 1]))) + " "; continue; }
    Exact x(unhex(a[i + 1]));
    if (a[i] == "e") g.Encrypt(x.mspan()); else g.Decrypt(x.mspan());
    out += hex(x.span()) + " ";
  }
  return out;
}
int main() { return serve({{"ctr128", run<128>}, {"ctr256", run<256>}}); }
