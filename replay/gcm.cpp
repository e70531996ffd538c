#include <cstring>
#include <stdexcept>
#include <array>
#include "util.h"
#include <caligo/aes.h>
#include <caligo/gcm.h>
using namespace Caligo;
// gcm<bits> key iv { e plain aad | d cipher aad tag }...
// the number of messages already processed, for counts too large to reach by processing messages
template <typename G> bool skip(G& g, uint64_t n) {
  if constexpr (requires { g.message_counter = n; }) { g.message_counter = n; return true; }
  return false;
}
template <size_t N> std::string run(std::vector<std::string>& a) {
  Exact k(unhex(a[1])), iv(unhex(a[2]));
  GCM<AES<N>> g(key_iv_pair<AES<N>>(k.span(), iv.span()));
  std::string out;
  for (size_t i = 3; i < a.size();) {
    if (a[i] == "n") { if (!skip(g, std::stoull(a[i + 1]))) return "NOCOUNTER"; i += 2; continue; }
    Exact x(unhex(a[i + 1])), d(unhex(a[i + 2]));
    if (a[i] == "e") {
      auto r = g.Encrypt(x.span(), d.span());
      out += hex(r.first) + "/" + hex(r.second) + " ";
      i += 3;
    } else {
      Bytes t = unhex(a[i + 3]);
      std::array<uint8_t, 16> tag; memcpy(tag.data(), t.data(), 16);
      auto r = g.Decrypt(x.span(), d.span(), tag);
      out += r.second ? hex(r.first) + "/1 " : std::string("0 ");
      i += 4;
    }
  }
  return out;
}
int main() { return serve({{"gcm128", run<128>}, {"gcm256", run<256>}}); }
