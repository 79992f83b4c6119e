// Workload generators: message values, encodings of values, malformed data.
#pragma once
#include "core.h"

namespace vf {

inline uint64_t norm_num(Kind k, uint64_t v) {
  switch (k) {
    case K_INT32: case K_SINT32: case K_SFIXED32: case K_ENUM: return uint64_t(int64_t(int32_t(uint32_t(v))));
    case K_UINT32: case K_FIXED32: case K_FLOAT: return uint32_t(v);
    case K_BOOL: return v & 1;
    default: return v;
  }
}
inline uint64_t gen_num(Kind k, Rng& r) {
  if (k == K_BOOL) return r.below(2);
  if (k == K_FLOAT && r.chance(2, 3)) {
    static const uint32_t S[] = {0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7fc12345u, 0xffc00001u, 0x7fa00001u, 1u, 0x80000001u, 0x007fffffu, 0x7f7fffffu, 0xff7fffffu, 0x00800000u, 0x42280000u, 0x40490fdbu};
    return S[r.below(sizeof S / sizeof *S)];
  }
  if (k == K_DOUBLE && r.chance(2, 3)) {
    static const uint64_t S[] = {0x8000000000000000ull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff8000000012345ull, 0xfff8000000000001ull, 0x7ff4000000000001ull, 1ull, 0x8000000000000001ull, 0x000fffffffffffffull, 0x7fefffffffffffffull, 0x0010000000000000ull, 0x400921fb54442d18ull, 0x0000000100000000ull, 0x00000000ffffffffull};
    return S[r.below(sizeof S / sizeof *S)];
  }
  switch (r.below(5)) {
    case 0: return norm_num(k, r.below(4));
    case 1: { // around a power of two, where varints change length
      uint64_t b = 1ull << r.below(64);
      return norm_num(k, b + r.below(3) - 1);
    }
    case 2: { uint64_t b = 1ull << r.below(64); return norm_num(k, 0 - (b + r.below(3) - 1)); }
    case 3: { static const uint64_t S[] = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 127, 128, 300, uint64_t(-1), uint64_t(-2), uint64_t(-64), uint64_t(-65)};
              return norm_num(k, S[r.below(sizeof S / sizeof *S)]); }
    default: return norm_num(k, r.next() >> r.below(64));
  }
}
inline std::string gen_bytes(size_t n, Rng& r) {
  std::string s(n, '\0');
  unsigned how = r.below(4);
  for (auto& c : s) {
    switch (how) {
      case 0: c = char('a' + r.below(26)); break;
      case 1: c = char(r.below(256)); break;
      case 2: c = r.chance(1, 3) ? '\0' : char(1 + r.below(255)); break;
      default: c = char(0x80 | r.below(128)); break;
    }
  }
  return s;
}
inline size_t gen_len(size_t cap, Rng& r) {
  switch (r.below(6)) {
    case 0: return cap;
    case 1: return cap ? cap - 1 : 0;
    case 2: return cap ? 1 : 0;
    case 3: return 0;
    default: return r.below(cap + 1);
  }
}
struct GenOpt { unsigned present = 50; bool full = false; };   // percentage of fields that are set

MsgVal gen_value(const MsgDesc* d, Rng& r, GenOpt o);
inline void gen_field(const FieldDesc& f, FieldVal& v, Rng& r, GenOpt o) {
  v.clear();
  size_t n = 1;
  if (f.label == REPEATED) {
    n = o.full ? f.rep_cap : gen_len(f.rep_cap, r);
    if (!o.full && n > 12 && r.chance(2, 3)) n = r.below(12);
  }
  for (size_t i = 0; i < n; ++i) {
    if (is_num(f.kind)) { uint64_t x = gen_num(f.kind, r); if (r.chance(1, 8)) x = 0; v.nums.push_back(x); }
    else if (is_str(f.kind)) v.strs.push_back(gen_bytes(o.full ? f.str_cap : gen_len(f.str_cap, r), r));
    else v.msgs.push_back(gen_value(f.sub, r, o));
  }
}
// A value in normal form.
inline MsgVal gen_value(const MsgDesc* d, Rng& r, GenOpt o = GenOpt()) {
  MsgVal v(d);
  for (size_t i = 0; i < d->fields.size(); ++i) {
    const auto& f = d->fields[i];
    if (f.label == ONEOF || r.below(100) >= o.present) continue;
    gen_field(f, v.f[i], r, o);
  }
  for (size_t k = 0; k < d->oneofs.size(); ++k) {
    if (r.below(100) >= (o.present + 100) / 2) continue;
    std::vector<size_t> c;
    for (size_t i = 0; i < d->fields.size(); ++i) if (d->fields[i].label == ONEOF && d->fields[i].oneof == int(k)) c.push_back(i);
    size_t i = c[r.below(c.size())];
    gen_field(d->fields[i], v.f[i], r, o);
  }
  normalise(v);
  return v;
}
inline MsgVal gen_any(const MsgDesc* d, Rng& r) {
  GenOpt o;
  switch (r.below(8)) {
    case 0: o.present = 100; o.full = true; break;
    case 1: o.present = 100; break;
    case 2: o.present = 10; break;
    default: o.present = unsigned(20 + r.below(70)); break;
  }
  return gen_value(d, r, o);
}

// ---------------------------------------------------------------- encoding
inline void put_varint(std::string& s, uint64_t v, int pad = 0) {   // pad: number of superfluous bytes
  while (v >= 0x80) { s += char(v | 0x80); v >>= 7; }
  if (!pad) { s += char(v); return; }
  s += char(v | 0x80);
  while (--pad > 0) s += char(0x80);
  s += '\0';
}
inline int varint_len(uint64_t v) { int n = 1; while (v >= 0x80) { v >>= 7; ++n; } return n; }

struct EncOpt {
  bool pad = false;        // superfluous varint bytes
  bool wide = false;       // varints with more bits than the type has, and booleans other than one
  bool shuffle = false;    // order of fields
  bool repeat = false;     // earlier values of the same field, other oneof members, sub-messages in pieces
  bool split = false;      // repeated scalars in pieces, packed and not
  bool unknown = false;    // fields which are not in the schema
  unsigned unknown_chance = 4;  // one in this many places
};
class Enc {
 public:
  Enc(Rng& r, EncOpt o) : r_(r), o_(o) {}
  uint64_t n_unknown = 0, n_padded = 0, n_wide = 0, n_repeat = 0, n_unpacked = 0;
  void tag(std::string& s, uint32_t num, unsigned wt) {
    uint64_t t = uint64_t(num) << 3 | wt;
    put_varint(s, t, pad(t, 5));
  }
  void len(std::string& s, size_t n) { put_varint(s, n, pad(n, 5)); }
  void payload(std::string& s, Kind k, uint64_t v) {
    switch (wire_of(k)) {
      case 1: for (int i = 0; i < 8; ++i) s += char(v >> (8 * i)); break;
      case 5: for (int i = 0; i < 4; ++i) s += char(v >> (8 * i)); break;
      default: {
        uint64_t w = v;
        if (k == K_SINT32) w = uint32_t(uint32_t(v) << 1) ^ uint32_t(int32_t(uint32_t(v)) >> 31);
        if (k == K_SINT64) w = (v << 1) ^ uint64_t(int64_t(v) >> 63);
        if (k == K_UINT32) w = uint32_t(v);
        if (o_.wide && r_.chance(1, 3)) {
          uint64_t x = r_.next() >> r_.below(64);
          if (k == K_BOOL && w) { w = r_.chance(1, 3) ? 2 + r_.below(254) : r_.chance(1, 2) ? (x | 1) << 32 : x | 1ull << r_.below(64); ++n_wide; }
          if (k == K_INT32 || k == K_UINT32 || k == K_ENUM || k == K_SINT32) { w = uint32_t(w) | (x << 32); ++n_wide; }
        }
        put_varint(s, w, pad(w, 10));
      }
    }
  }
  std::string message(const MsgVal& v) {
    std::vector<std::vector<std::string>> fields;   // one sequence of records for each field or oneof
    std::vector<int> oneof_at(v.d->oneofs.size(), -1);
    for (size_t i = 0; i < v.f.size(); ++i) {
      const auto& f = v.d->fields[i];
      std::vector<std::string> recs;
      records(f, v.f[i], recs);
      if (f.label == ONEOF) {
        if (v.f[i].empty()) continue;
        // Members which are replaced later.
        if (o_.repeat && r_.chance(1, 2)) {
          std::vector<std::string> pre;
          for (unsigned k = unsigned(r_.below(3)); k-- > 0;) {
            size_t j = r_.below(v.f.size());
            const auto& g = v.d->fields[j];
            if (g.label != ONEOF || g.oneof != f.oneof || j == i) continue;
            FieldVal x;
            gen_field(g, x, r_, GenOpt());
            std::vector<std::string> rr;
            EncOpt keep = o_; o_.repeat = false; records(g, x, rr); o_ = keep;
            for (auto& s : rr) pre.push_back(s);
            ++n_repeat;
          }
          // A message or an earlier value of the member itself may come before a replaced member as well.
          recs.insert(recs.begin(), pre.begin(), pre.end());
        }
      }
      if (!recs.empty()) fields.push_back(std::move(recs));
    }
    std::string s;
    std::vector<size_t> at(fields.size(), 0);
    unknowns(s, v.d);
    if (!o_.shuffle) {
      for (auto& f : fields) for (auto& x : f) { s += x; unknowns(s, v.d); }
    } else {
      size_t left = 0;
      for (auto& f : fields) left += f.size();
      while (left) {
        size_t k = r_.below(fields.size());
        if (at[k] == fields[k].size()) continue;
        s += fields[k][at[k]++];
        --left;
        unknowns(s, v.d);
      }
    }
    return s;
  }
  std::string unknown_field(const MsgDesc* d) {
    std::string s;
    uint32_t num;
    do {
      switch (r_.below(5)) {
        case 0: num = 1 + uint32_t(r_.below(40)); break;
        case 1: num = 0x1fffffff - uint32_t(r_.below(3)); break;
        case 2: num = 2040 + uint32_t(r_.below(16)); break;
        default: num = 1 + uint32_t(r_.below(0x1fffffff)); break;
      }
      // a number whose low bits are those of a field of the schema
      if (!d->fields.empty() && r_.chance(1, 4)) num = (d->fields[r_.below(d->fields.size())].number + (256u << r_.below(16))) & 0x1fffffff;
    } while (num == 0 || d->find(num) >= 0);
    switch (r_.below(4)) {
      case 0: { tag(s, num, 0); uint64_t v = r_.next() >> r_.below(64); put_varint(s, v, pad(v, 10)); break; }
      case 1: { tag(s, num, 1); s += gen_bytes(8, r_); break; }
      case 2: { tag(s, num, 5); s += gen_bytes(4, r_); break; }
      default: {
        static const unsigned L[] = {0, 1, 2, 5, 127, 128, 129, 200, 255, 256, 300, 16384};
        unsigned n = r_.chance(1, 6) ? L[r_.below(12)] : unsigned(r_.below(12));
        if (r_.chance(1, 300)) n = 65534 + unsigned(r_.below(r_.chance(1, 2) ? 4 : 5000));
        tag(s, num, 2); len(s, n); s += gen_bytes(n, r_);
      }
    }
    ++n_unknown;
    return s;
  }
 private:
  Rng& r_;
  EncOpt o_;
  int pad(uint64_t v, int max) {
    if (!o_.pad || !r_.chance(1, 4)) return 0;
    int room = max - varint_len(v);
    if (room <= 0) return 0;
    ++n_padded;
    return int(r_.chance(1, 3) ? room : 1 + r_.below(room));
  }
  void unknowns(std::string& s, const MsgDesc* d) {
    if (!o_.unknown) return;
    while (r_.chance(1, o_.unknown_chance)) s += unknown_field(d);
  }
  void records(const FieldDesc& f, const FieldVal& v, std::vector<std::string>& out) {
    if (f.label != REPEATED && o_.repeat && !v.empty() && f.kind != K_MSG) {
      while (r_.chance(1, 3)) {   // values that are overwritten
        FieldVal x;
        gen_field(f, x, r_, GenOpt());
        record(f, x, 0, out);
        ++n_repeat;
      }
    }
    if (f.label == REPEATED && is_num(f.kind)) {
      size_t i = 0;
      if (o_.split && r_.chance(1, 5)) { std::string s; tag(s, f.number, 2); len(s, 0); out.push_back(s); }
      while (i < v.nums.size()) {
        size_t n = v.nums.size() - i;
        if (o_.split) n = 1 + r_.below(n);
        if (o_.split && r_.chance(1, 2)) {
          for (size_t k = 0; k < n; ++k) { std::string s; tag(s, f.number, unsigned(wire_of(f.kind))); payload(s, f.kind, v.nums[i + k]); out.push_back(s); }
          ++n_unpacked;
        } else {
          std::string body, s;
          for (size_t k = 0; k < n; ++k) payload(body, f.kind, v.nums[i + k]);
          tag(s, f.number, 2); len(s, body.size()); s += body;
          out.push_back(s);
        }
        i += n;
      }
      return;
    }
    for (size_t i = 0; i < v.size(); ++i) record(f, v, i, out);
  }
  void record(const FieldDesc& f, const FieldVal& v, size_t i, std::vector<std::string>& out) {
    std::string s;
    if (is_num(f.kind)) { tag(s, f.number, unsigned(wire_of(f.kind))); payload(s, f.kind, v.nums[i]); }
    else if (is_str(f.kind)) { tag(s, f.number, 2); len(s, v.strs[i].size()); s += v.strs[i]; }
    else {
      if (f.label != REPEATED && o_.repeat && r_.chance(1, 2)) {
        // In pieces: each field of the sub-message in one of several records; the pieces merge.
        size_t n = 2 + r_.below(2);
        std::vector<MsgVal> part(n, MsgVal(v.msgs[i].d));
        for (size_t k = 0; k < v.msgs[i].f.size(); ++k) {
          const auto& src = v.msgs[i].f[k];
          if (v.msgs[i].d->fields[k].label == REPEATED && is_num(v.msgs[i].d->fields[k].kind) && src.size() > 1 && r_.chance(1, 2)) {
            size_t cut = r_.below(src.size());
            auto &a = part[0].f[k], &b = part[n - 1].f[k];
            a.nums.assign(src.nums.begin(), src.nums.begin() + long(cut));
            b.nums.assign(src.nums.begin() + long(cut), src.nums.end());
          } else part[r_.below(n)].f[k] = src;
        }
        for (auto& p : part) { std::string t, body = message(p); tag(t, f.number, 2); len(t, body.size()); out.push_back(t + body); }
        ++n_repeat;
        return;
      }
      std::string body = message(v.msgs[i]);
      tag(s, f.number, 2); len(s, body.size()); s += body;
    }
    out.push_back(s);
  }
};
inline std::string encode(const MsgVal& v, Rng& r, EncOpt o = EncOpt()) { Enc e(r, o); return e.message(v); }
inline EncOpt random_enc(Rng& r, bool unknown) {
  EncOpt o;
  o.pad = r.chance(1, 2); o.wide = r.chance(1, 3); o.shuffle = r.chance(2, 3); o.repeat = r.chance(2, 3); o.split = r.chance(2, 3); o.unknown = unknown;
  if (unknown) o.unknown_chance = unsigned(2 + r.below(6));
  return o;
}

}  // namespace vf
