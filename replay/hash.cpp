#include "util.h"
#ifdef FAM_SHA2
#include <caligo_src/sha2.cpp>
#endif
#ifdef FAM_SHA1
#include <caligo_src/sha1.cpp>
#endif
#ifdef FAM_MD5
#include <caligo_src/md5.cpp>
#endif
#ifdef FAM_CRC
#include <caligo_src/crc.cpp>
#endif
#ifdef FAM_SHA3
#include <caligo_src/sha3.cpp>
#endif
// <alg> <ops> <hex>; ops: comma separated  K<n> (construct from n bytes), L<n> (construct from two pieces), s<n> v<n> (add n bytes), d (digest), S (hex string), c (copy)
template <typename T> std::string go(std::vector<std::string>& a) {
  Bytes data = unhex(a[2]);
  size_t pos = 0;
  std::unique_ptr<T> h;
  std::string out, op;
  std::istringstream is(a[1]);
  auto take = [&](size_t n) { Exact e(data.data() + pos, n); pos += n; return e; };
  while (std::getline(is, op, ',')) {
    size_t n = op.size() > 1 ? std::stoul(op.substr(1)) : 0;
    if (op[0] == 'K') { auto e = take(n); h.reset(new T(e.span())); continue; }
    if (op[0] == 'L') { auto e = take(n / 2); auto f = take(n - n / 2); h.reset(new T(e.sv(), f.span())); continue; }
    if (!h) h.reset(new T());
    if (op[0] == 's') { auto e = take(n); h->add(e.span()); }
    if (op[0] == 'v') { auto e = take(n); h->add(e.sv()); }
    if (op[0] == 'c') { T t = *h; h.reset(new T(t)); }
    if (op[0] == 'd') { out += hex(h->data()) + ","; }
    if (op[0] == 'S') { std::string s = *h; out += s + ","; }
  }
  if (!h) h.reset(new T());
  std::array<uint8_t, T::hashsize> d = *h; std::string s = *h;
  return out + hex(d) + "," + s;
}
// huge <alg> <bytes>: that many bytes, repeating a 1 MiB pattern
template <typename T> std::string huge(std::vector<std::string>& a) {
  size_t n = std::stoul(a[2]);
  Bytes z(1 << 20);
  for (size_t i = 0; i < z.size(); i++) z[i] = i * 31 + 7;
  T h;
  while (n) { size_t k = std::min(n, z.size()); h.add(std::span<const uint8_t>(z.data(), k)); n -= k; }
  return hex(h.data());
}
int main() {
  std::map<std::string, Cmd> m, hg;
#ifdef FAM_SHA2
  m["sha224"] = go<Caligo::SHA2<224>>; m["sha256"] = go<Caligo::SHA2<256>>; m["sha384"] = go<Caligo::SHA2<384>>; m["sha512"] = go<Caligo::SHA2<512>>;
  hg["sha224"] = huge<Caligo::SHA2<224>>; hg["sha256"] = huge<Caligo::SHA2<256>>; hg["sha384"] = huge<Caligo::SHA2<384>>; hg["sha512"] = huge<Caligo::SHA2<512>>;
#endif
#ifdef FAM_SHA1
  m["sha1"] = go<Caligo::SHA1>; hg["sha1"] = huge<Caligo::SHA1>;
#endif
#ifdef FAM_MD5
  m["md5"] = go<Caligo::MD5>; hg["md5"] = huge<Caligo::MD5>;
#endif
#ifdef FAM_CRC
  m["crc"] = go<Caligo::CRC32>; hg["crc"] = huge<Caligo::CRC32>;
#endif
#ifdef FAM_SHA3
  m["sha3_224"] = go<Caligo::SHA3<224>>; m["sha3_256"] = go<Caligo::SHA3<256>>; m["sha3_384"] = go<Caligo::SHA3<384>>; m["sha3_512"] = go<Caligo::SHA3<512>>;
  hg["sha3_224"] = huge<Caligo::SHA3<224>>; hg["sha3_256"] = huge<Caligo::SHA3<256>>; hg["sha3_384"] = huge<Caligo::SHA3<384>>; hg["sha3_512"] = huge<Caligo::SHA3<512>>;
#endif
  m["huge"] = [&](std::vector<std::string>& a) { return hg.at(a[1])(a); };
  return serve(m);
}
