// Helpers of the message level drivers.
#pragma once
#include <unistd.h>
#include "core.h"
#include "bridge.h"
#include "gen.h"
#include "refdec.h"
#include "tree.h"

namespace vf {

inline const TypeEntry& pick_type(uint64_t i) { return registry()[i % registry().size()]; }
inline std::unique_ptr<IMsg> fresh(const TypeEntry& t, Rng& r) { return t.make(r.next()); }
inline std::string tname(const IMsg& m) { return m.d->inst_name; }
inline void harness_error(const std::string& s) {
  fprintf(stderr, "HARNESS ERROR: %s (case %s)\n", s.c_str(), R.current.c_str());
  fflush(stderr);
  _Exit(2);
}
inline MsgVal dump(const IMsg& m, Ctx& c) { return m.dump(c); }
// A key which is the same for all instances of a field, for reports.
inline std::string where(const MsgVal& a, const MsgVal& b) {
  for (size_t i = 0; i < a.f.size() && i < b.f.size(); ++i) if (a.f[i] != b.f[i]) return std::string(a.d->full_name) + "." + a.d->fields[i].name;
  return a.d->full_name;
}
// Presence and selectors as the accessors report them, as text.
inline std::string presence(const IMsg& m) {
  std::string s;
  for (size_t i = 0; i < m.d->fields.size(); ++i) { int h = m.has(int(i)); if (h > 0) s += std::to_string(m.d->fields[i].number) + ","; }
  for (size_t k = 0; k < m.d->oneofs.size(); ++k) s += "w" + std::to_string(m.which(int(k)));
  return s;
}
// The selector agrees with the has functions, and at most one member is set.
inline std::string oneof_problem(const IMsg& m) {
  for (size_t k = 0; k < m.d->oneofs.size(); ++k) {
    uint32_t w = m.which(int(k)), n = 0, seen = 0;
    for (size_t i = 0; i < m.d->fields.size(); ++i) {
      const auto& f = m.d->fields[i];
      if (f.label != ONEOF || f.oneof != int(k)) continue;
      if (m.has(int(i)) == 1) { ++n; seen = f.number; }
    }
    if (n > 1) return "several members of " + m.d->oneofs[k] + " are set";
    if (w != seen) return "selector of " + m.d->oneofs[k] + " is " + std::to_string(w) + " but the has functions say " + std::to_string(seen);
  }
  return "";
}

// A message in a state reached by the setters only, holding v.
inline std::unique_ptr<IMsg> holding(const TypeEntry& t, const MsgVal& v, Rng& r, Ctx& c) {
  auto m = fresh(t, r);
  if (r.chance(1, 3)) m->load(gen_any(t.d, r), c);
  m->load(v, c);
  return m;
}


// Structure of an encoding made by the library: "" or what is wrong with it.
inline std::string scan(const MsgDesc* d, const std::string& b, bool strict_form = true) {
  size_t p = 0;
  std::map<uint32_t, int> seen;
  std::map<int, int> one;
  auto minimal = [&](size_t s, size_t e, uint64_t v) { return int(e - s) == varint_len(v); };
  while (p < b.size()) {
    size_t s = p;
    uint64_t tag, n;
    if (!get_varint(b, p, tag)) return "bad tag";
    if (strict_form && !minimal(s, p, tag)) return "tag is not a minimal varint";
    uint32_t num = uint32_t(tag >> 3);
    unsigned wt = tag & 7;
    int fi = d->find(num);
    if (fi < 0) return "field number " + std::to_string(num) + " is not in the schema";
    const auto& f = d->fields[fi];
    std::string fn = std::string(d->full_name) + "." + f.name;
    bool packed = f.label == REPEATED && is_num(f.kind);
    unsigned want = packed ? 2 : unsigned(wire_of(f.kind));
    if (wt != want) return fn + ": wire type " + std::to_string(wt);
    if ((f.label != REPEATED || packed) && ++seen[num] > 1) return fn + " emitted more than once";
    if (f.label == ONEOF && ++one[f.oneof] > 1) return fn + ": second member of a oneof emitted";
    auto value = [&](const std::string& x, size_t& q, std::string& err) -> bool {   // one scalar; returns whether it is zero
      switch (wire_of(f.kind)) {
        case 0: {
          size_t s0 = q;
          if (!get_varint(x, q, n)) { err = fn + ": bad varint"; return false; }
          bool neg = (f.kind == K_INT32 || f.kind == K_ENUM) && (int32_t(uint32_t(n)) < 0);
          if (strict_form && !minimal(s0, q, n) && !neg) err = fn + ": value is not a minimal varint";
          if (strict_form && neg && q - s0 != 5 && q - s0 != 10) err = fn + ": negative value in " + std::to_string(q - s0) + " bytes";
          if (strict_form && (f.kind == K_UINT32 || f.kind == K_SINT32 || f.kind == K_BOOL) && q - s0 > 5) err = fn + ": value too long";
          if (strict_form && f.kind == K_BOOL && n > 1) err = fn + ": bool is not 0 or 1";
          return n == 0;
        }
        default: {
          size_t sz = wire_of(f.kind) == 1 ? 8 : 4;
          if (x.size() - q < sz) { err = fn + ": cut off"; return false; }
          bool z = true;
          for (size_t k = 0; k < sz; ++k) if (x[q + k]) z = false;
          q += sz;
          return z;
        }
      }
    };
    std::string err;
    if (wt == 2) {
      s = p;
      if (!get_varint(b, p, n)) return fn + ": bad length";
      if (strict_form && !minimal(s, p, n)) return fn + ": length is not a minimal varint";
      if (n > b.size() - p) return fn + ": length prefix beyond the data";
      std::string body = b.substr(p, n);
      p += n;
      if (packed) {
        if (body.empty()) return fn + ": empty packed record";
        size_t q = 0;
        while (q < body.size() && err.empty()) value(body, q, err);
        if (!err.empty()) return err;
      } else {
        if (body.empty() && f.label == IMPLICIT) return fn + ": default value emitted";
        if (f.kind == K_MSG) { err = scan(f.sub, body, strict_form); if (!err.empty()) return err; }
      }
    } else {
      bool z = value(b, p, err);
      if (!err.empty()) return err;
      if (z && f.label == IMPLICIT) return fn + ": default value emitted";
    }
  }
  return "";
}

// The reference result, from both reference decoders. False: not a valid encoding within the capacities.
inline bool reference(const MsgDesc* d, const std::string& bytes, MsgVal& out) {
  Ref ref = RefDec::decode(d, bytes);
  if (ref.st != Ref::OK) return false;
  MsgVal g(d);
  if (!g_parse(d, bytes, g)) harness_error("google refuses what the reference decoder accepts: " + hex(bytes));
  if (g != ref.v) harness_error("reference decoders disagree: " + diff(ref.v, g));
  out = std::move(g);
  return true;
}

// A damaged record of a field: its description, "" if there is none for the field.
inline std::string damaged(const FieldDesc& f, Rng& r, std::string& b) {
  b.clear();
  unsigned wt = unsigned(wire_of(f.kind));
  auto tag = [&](unsigned w) { put_varint(b, uint64_t(f.number) << 3 | w); };
  switch (r.below(4)) {
    case 0: {   // wrong wire type
      unsigned w;
      do { static const unsigned W[] = {0, 1, 2, 5}; w = W[r.below(4)]; } while (w == wt || (w == 2 && f.label == REPEATED && is_num(f.kind)));
      tag(w); b += std::string(10, '\1');
      return "wire type";
    }
    case 1: {   // ends inside the value
      tag(wt);
      if (wt == 0) b += std::string(1 + r.below(5), '\x85');
      else if (wt == 1) b += gen_bytes(r.below(8), r);
      else if (wt == 5) b += gen_bytes(r.below(4), r);
      else { std::string body = f.kind == K_MSG ? encode(gen_any(f.sub, r), r) : gen_bytes(r.below(f.str_cap + 1), r); put_varint(b, body.size() + 1 + r.below(5)); b += body; }
      return "cut off";
    }
    case 2: {
      if (wt == 0) { tag(0); b += std::string(11, '\x81'); return "overlong varint"; }
      if (!is_str(f.kind)) return "";
      tag(2);
      size_t n = f.str_cap + 1 + r.below(20);
      put_varint(b, n);
      b += gen_bytes(n, r);
      return "too long";
    }
    default: {
      if (f.kind != K_MSG) return "";
      std::string body = encode(gen_any(f.sub, r), r);
      switch (r.below(3)) { case 0: body += "\x07"; break; case 1: body += std::string(1, '\0'); break; default: body += std::string(6, '\xff'); }
      tag(2); put_varint(b, body.size()); b += body;
      return "damaged content";
    }
  }
}

// Properties register themselves.
inline std::map<std::string, void (*)()>& properties() { static std::map<std::string, void (*)()> p; return p; }
struct Prop { Prop(const char* n, void (*f)()) { properties()[n] = f; } };

}  // namespace vf
