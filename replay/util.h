#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdint>
#include <memory>
#include <cstdio>
#include <exception>
#include <functional>
#include <span>
#include <map>
using Bytes = std::vector<uint8_t>;
static inline Bytes unhex(const std::string& s) {
  Bytes r;
  if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
template <typename C> static inline std::string hex(const C& c) {
  static const char* t = "0123456789abcdef";
  std::string r;
  for (auto b : c) { r += t[((uint8_t)b) >> 4]; r += t[((uint8_t)b) & 15]; }
  return r.empty() ? "-" : r;
}
// exact-size heap copy, so that reading one byte too far is caught by AddressSanitizer
struct Exact {
  std::unique_ptr<uint8_t[]> p; size_t n;
  Exact(const uint8_t* q, size_t m) : p(new uint8_t[m ? m : 1]), n(m) { if (m) memcpy(p.get(), q, m); }
  Exact(const Bytes& b) : Exact(b.data(), b.size()) {}
  std::span<const uint8_t> span() const { return {p.get(), n}; }
  std::span<uint8_t> mspan() { return {p.get(), n}; }
  std::string_view sv() const { return {(const char*)p.get(), n}; }
};
using Cmd = std::function<std::string(std::vector<std::string>&)>;
static int serve(std::map<std::string, Cmd> cmds) {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::vector<std::string> a; std::string w;
    while (is >> w) a.push_back(w);
    if (a.empty()) continue;
    std::string out;
    try { out = cmds.at(a[0])(a); }
    catch (const std::exception& e) { out = std::string("EXC ") + e.what(); }
    catch (...) { out = "EXC ?"; }
    for (auto& c : out) if (c == '\n') c = ' ';
    fputs(out.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
  }
  return 0;
}
