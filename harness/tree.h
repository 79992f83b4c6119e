// Encodings as trees of records, to change something at any nesting depth and put the lengths right again.
#pragma once
#include "core.h"
#include "gen.h"

namespace vf {

struct Rec {
  uint32_t num = 0;
  unsigned wt = 0;
  std::string payload;              // everything after the tag, or the whole text of a raw record
  bool raw = false;
  const MsgDesc* sub = nullptr;     // a sub-message: its records are in kids
  std::vector<Rec> kids;
};
inline bool get_varint(const std::string& b, size_t& p, uint64_t& v) {
  v = 0;
  for (int n = 0; n < 10; ++n) {
    if (p >= b.size()) return false;
    uint8_t x = uint8_t(b[p++]);
    v |= uint64_t(x & 0x7f) << (7 * n);
    if (!(x & 0x80)) return true;
  }
  return false;
}
// Only for valid encodings.
inline bool parse_tree(const MsgDesc* d, const std::string& b, std::vector<Rec>& out) {
  size_t p = 0;
  while (p < b.size()) {
    uint64_t tag, n;
    if (!get_varint(b, p, tag)) return false;
    Rec r;
    r.num = uint32_t(tag >> 3); r.wt = tag & 7;
    size_t s = p;
    switch (r.wt) {
      case 0: if (!get_varint(b, p, n)) return false; break;
      case 1: p += 8; break;
      case 5: p += 4; break;
      case 2: {
        if (!get_varint(b, p, n) || n > b.size() - p) return false;
        int fi = d ? d->find(r.num) : -1;
        if (fi >= 0 && d->fields[fi].kind == K_MSG) {
          r.sub = d->fields[fi].sub;
          if (!parse_tree(r.sub, b.substr(p, n), r.kids)) return false;
        }
        p += n;
        break;
      }
      default: return false;
    }
    if (p > b.size()) return false;
    r.payload = b.substr(s, p - s);
    out.push_back(std::move(r));
  }
  return true;
}
inline std::string emit(const std::vector<Rec>& t) {
  std::string s;
  for (auto& r : t) {
    if (r.raw) { s += r.payload; continue; }
    put_varint(s, uint64_t(r.num) << 3 | r.wt);
    if (r.sub) { std::string body = emit(r.kids); put_varint(s, body.size()); s += body; }
    else s += r.payload;
  }
  return s;
}
// A random list of records of the tree (the top level or that of a sub-message) with its message type.
struct Level { std::vector<Rec>* recs; const MsgDesc* d; int depth; };
inline void levels(std::vector<Rec>& t, const MsgDesc* d, int depth, std::vector<Level>& out) {
  out.push_back({&t, d, depth});
  for (auto& r : t) if (r.sub) levels(r.kids, r.sub, depth + 1, out);
}
inline Rec raw(const std::string& s) { Rec r; r.raw = true; r.payload = s; return r; }

}  // namespace vf
