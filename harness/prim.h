// Helpers of the drivers that use the library's classes directly.
#pragma once
#include <cstring>
#include <map>
#include "core.h"
namespace vf {
// A 64 bit pattern, often near a limit.
inline uint64_t edge(Rng& r) {
  switch (r.below(10)) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1ull << r.below(64);
    case 3: return (1ull << r.below(64)) - 1;
    case 4: return ~((1ull << r.below(64)) - 1);
    case 5: return r.below(300);
    case 6: return uint64_t(-int64_t(r.below(300)));
    case 7: return r.next() & 0xffffffffu;
    case 8: { static const uint64_t S[] = {0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffff80000000, 0x3f800000, 0x7f800000, 0x7fc00000, 0x7ff0000000000000, 0xfff8000000000001, 127, 128, 16383, 16384}; return S[r.below(sizeof S / sizeof *S)]; }
    default: return r.next();
  }
}
inline std::string some_bytes(uint64_t n, Rng& r) {
  std::string s(n, '\0');
  unsigned how = unsigned(r.below(4));
  for (auto& c : s) c = how == 0 ? char(r.next()) : how == 1 ? char('a' + r.below(26)) : how == 2 ? (r.chance(1, 3) ? '\0' : char(r.next())) : char(0x80 + r.below(128));
  return s;
}
// Bytes in a heap block of exactly their size.
struct ExactBytes {
  uint8_t* p;
  explicit ExactBytes(const std::string& s, bool nul = false) {
    size_t n = s.size() + (nul ? 1 : 0);
    p = static_cast<uint8_t*>(malloc(n ? n : 1));
    if (!s.empty()) memcpy(p, s.data(), s.size());
    if (nul) p[s.size()] = 0;
  }
  ~ExactBytes() { free(p); }
  ExactBytes(const ExactBytes&) = delete;
};
// A write buffer without limit.
struct VecWrite : EmbeddedProto::WriteBufferInterface {
  std::string d;
  void clear() override { d.clear(); }
  uint32_t get_size() const override { return uint32_t(d.size()); }
  uint32_t get_max_size() const override { return 0x7fffffff; }
  uint32_t get_available_size() const override { return 0x7fffffff - uint32_t(d.size()); }
  bool push(const uint8_t b) override { d += char(b); return true; }
  bool push(const uint8_t* p, const uint32_t n) override { d.append(reinterpret_cast<const char*>(p), n); return true; }
};
inline std::map<std::string, void (*)()>& properties() { static std::map<std::string, void (*)()> p; return p; }
struct Prop { Prop(const char* n, void (*f)()) { properties()[n] = f; } };
}  // namespace vf
