// Reference decoder: what the proto3 wire format and the declared capacities prescribe for a sequence of bytes. Written
// from the specification; results are cross checked with google::protobuf by the drivers.
#pragma once
#include "core.h"

namespace vf {

struct Ref {
  enum Status { OK, ERR, AMBIGUOUS } st = OK;
  std::set<Error> allowed;   // for ERR: the documented errors that describe it (empty: any error)
  std::string reason;        // for ERR
  int depth = 0;             // nesting depth at which it went wrong
  MsgVal v;                  // for OK: the decoded value (normal form)
  size_t good_end = 0;       // number of leading bytes that were complete top level fields
  bool allows(Error e) const { return e != Error::NO_ERRORS && (allowed.empty() || allowed.count(e)); }
};

class RefDec {
 public:
  static Ref decode(const MsgDesc* d, const std::string& b) { return decode_into(MsgVal(d), b); }
  // Continue in an existing value, which has to be a raw (not normalised) or a normalised value.
  static Ref decode_into(MsgVal start, const std::string& b) {
    RefDec r(b);
    Ref out;
    out.v = std::move(start);
    r.res_ = &out;
    r.message(out.v.d, 0, b.size(), out.v, 0);
    if (out.st == Ref::OK) normalise(out.v);
    return out;
  }
 private:
  explicit RefDec(const std::string& b) : b_(b) {}
  const std::string& b_;
  Ref* res_;
  uint8_t at(size_t i) const { return uint8_t(b_[i]); }
  bool fail(const char* reason, std::set<Error> allowed, int depth) {
    res_->st = Ref::ERR; res_->reason = reason; res_->allowed = std::move(allowed); res_->depth = depth;
    return false;
  }
  bool ambiguous(const char* reason) { res_->st = Ref::AMBIGUOUS; res_->reason = reason; return false; }
  // 0: fine, 1: cut off, 2: too long, 3: bits beyond 64
  int varint(size_t& p, size_t end, uint64_t& v, int& n, int max) const {
    v = 0; n = 0;
    while (true) {
      if (n == max) return 2;
      if (p >= end) return 1;
      uint8_t x = at(p++);
      if (n == 9 && (x & 0x7f) > 1) { if (!(x & 0x80)) return 3; }
      if (n < 10) v |= n == 9 ? uint64_t(x & 1) << 63 : uint64_t(x & 0x7f) << (7 * n);
      ++n;
      if (!(x & 0x80)) return 0;
    }
  }
  bool length(size_t& p, size_t end, uint64_t& len, int depth) {
    int n;
    switch (varint(p, end, len, n, 10)) {
      case 1: return fail("TRUNC_LENGTH", n >= 5 ? std::set<Error>{Error::END_OF_BUFFER, Error::OVERLONG_VARINT} : std::set<Error>{Error::END_OF_BUFFER}, depth);
      case 2: return fail("OVERLONG_LENGTH", {Error::OVERLONG_VARINT}, depth);
      case 3: return ambiguous("LENGTH_BITS");
    }
    // More than there can be data; the bits above 32 must not be dropped.
    if (len > 0xffffffffull) return fail("HUGE_LENGTH", {Error::END_OF_BUFFER, Error::OVERLONG_VARINT, Error::ARRAY_FULL}, depth);
    if (n > 5) return ambiguous("LONG_LENGTH");
    return true;
  }
  static uint64_t convert(Kind k, uint64_t v) {
    switch (k) {
      case K_BOOL: return v ? 1 : 0;
      case K_UINT32: return uint32_t(v);
      case K_INT32: case K_ENUM: return uint64_t(int64_t(int32_t(uint32_t(v))));
      case K_SINT32: { uint32_t u = uint32_t(v); return uint64_t(int64_t(int32_t((u >> 1) ^ (0u - (u & 1))))); }
      case K_SINT64: return (v >> 1) ^ (0ull - (v & 1));
      case K_SFIXED32: return uint64_t(int64_t(int32_t(uint32_t(v))));
      default: return v;
    }
  }
  bool scalar(Kind k, size_t& p, size_t end, uint64_t& out, int depth) {
    int w = wire_of(k), n;
    if (w == 0) {
      uint64_t v;
      switch (varint(p, end, v, n, 10)) {
        case 1: return fail("TRUNC_VARINT", {Error::END_OF_BUFFER}, depth);
        case 2: return fail("OVERLONG_VARINT", {Error::OVERLONG_VARINT}, depth);
        case 3: return ambiguous("VARINT_BITS");
      }
      out = convert(k, v);
      return true;
    }
    size_t sz = w == 1 ? 8 : 4;
    if (end - p < sz) return fail("TRUNC_FIXED", {Error::END_OF_BUFFER}, depth);
    uint64_t v = 0;
    for (size_t i = 0; i < sz; ++i) v |= uint64_t(at(p + i)) << (8 * i);
    p += sz;
    out = convert(k, v);
    return true;
  }
  // Decode a record of a sub-message in s. `cut`: the record is longer than the data that is left.
  bool sub_record(const FieldDesc& f, size_t& p, size_t end, MsgVal& s, int depth, std::set<Error> extra, const char* extra_reason) {
    uint64_t len;
    if (!length(p, end, len, depth)) { if (res_->st == Ref::ERR) for (auto e : extra) res_->allowed.insert(e); return false; }
    bool cut = len > end - p;
    size_t e = cut ? end : p + size_t(len);
    bool ok = message(f.sub, p, e, s, depth + 1);
    if (!extra.empty()) {
      if (!ok && res_->st == Ref::AMBIGUOUS) return fail(extra_reason, {}, depth);
      std::set<Error> a = extra;
      if (!ok) a.insert(res_->allowed.begin(), res_->allowed.end());
      if (cut) a.insert(Error::END_OF_BUFFER);
      if (!ok && res_->allowed.empty()) a.clear();
      return fail(extra_reason, a, depth);
    }
    if (cut) {
      if (ok) return fail("TRUNC_MESSAGE", {Error::END_OF_BUFFER}, depth);
      if (res_->st == Ref::AMBIGUOUS) return fail("TRUNC_MESSAGE", {}, depth);
      if (res_->allowed.empty()) return false;
      res_->allowed.insert(Error::END_OF_BUFFER);
      return false;
    }
    p = e;
    return ok;
  }
  bool message(const MsgDesc* d, size_t p, size_t end, MsgVal& v, int depth) {
    while (p < end) {
      if (depth == 0) res_->good_end = p;
      uint64_t tag;
      int n;
      switch (varint(p, end, tag, n, 5)) {
        case 1: return fail("TRUNC_TAG", {}, depth);
        case 2: return fail("OVERLONG_TAG", {Error::OVERLONG_VARINT}, depth);
      }
      if (tag > 0xffffffffull) return ambiguous("TAG_BITS");
      uint32_t num = uint32_t(tag >> 3), wt = uint32_t(tag & 7);
      std::set<Error> a;
      if (wt >= 6) a.insert(Error::INVALID_WIRETYPE);
      if (num == 0) { a.insert(Error::INVALID_FIELD_ID); if (wt == 3 || wt == 4) a.insert(Error::INVALID_WIRETYPE); }
      if (!a.empty()) return fail(num == 0 ? "FIELD_ZERO" : "WIRETYPE", a, depth);
      int fi = d->find(num);
      if (wt == 3 || wt == 4) return fail(fi < 0 ? "GROUP_UNKNOWN" : "GROUP_KNOWN", {Error::INVALID_WIRETYPE}, depth);
      if (fi < 0) { if (!skip(wt, p, end, depth)) return false; continue; }
      const FieldDesc& f = d->fields[fi];
      FieldVal& o = v.f[fi];
      int w = wire_of(f.kind);
      bool packed = f.label == REPEATED && is_num(f.kind) && wt == 2;
      if (int(wt) != w && !packed) return fail("WIRETYPE_MISMATCH", {Error::INVALID_WIRETYPE}, depth);
      if (f.label == ONEOF)
        for (size_t k = 0; k < v.f.size(); ++k) if (int(k) != fi && d->fields[k].label == ONEOF && d->fields[k].oneof == f.oneof) v.f[k].clear();
      if (packed) {
        if (!packed_record(f, p, end, o, depth)) return false;
      } else if (is_num(f.kind)) {
        uint64_t x;
        if (!scalar(f.kind, p, end, x, depth)) {
          if (res_->st == Ref::ERR && f.label == REPEATED && o.size() >= f.rep_cap) res_->allowed.insert(Error::ARRAY_FULL);
          return false;
        }
        if (f.label == REPEATED) {
          if (o.size() >= f.rep_cap) return fail("ARRAY_SCALAR", {Error::ARRAY_FULL}, depth);
          o.nums.push_back(x);
        } else { o.nums.assign(1, x); }
      } else if (is_str(f.kind)) {
        bool full = f.label == REPEATED && o.size() >= f.rep_cap;
        uint64_t len;
        if (!length(p, end, len, depth)) { if (full && res_->st == Ref::ERR) res_->allowed.insert(Error::ARRAY_FULL); return false; }
        bool cut = len > end - p;
        if (full || len > f.str_cap) {
          std::set<Error> al{Error::ARRAY_FULL};
          if (cut) al.insert(Error::END_OF_BUFFER);
          return fail(full ? "ARRAY_STRING" : "STRING_LENGTH", al, depth);
        }
        if (cut) return fail("TRUNC_STRING", {Error::END_OF_BUFFER}, depth);
        std::string s = b_.substr(p, size_t(len));
        p += size_t(len);
        if (f.label == REPEATED) o.strs.push_back(s); else o.strs.assign(1, s);
      } else if (f.label == REPEATED) {
        MsgVal s(f.sub);
        bool full = o.size() >= f.rep_cap;
        if (!sub_record(f, p, end, s, depth, full ? std::set<Error>{Error::ARRAY_FULL} : std::set<Error>{}, "ARRAY_MESSAGE")) return false;
        o.msgs.push_back(std::move(s));
      } else {
        if (o.msgs.empty()) o.msgs.push_back(MsgVal(f.sub));
        if (!sub_record(f, p, end, o.msgs[0], depth, {}, "")) return false;
      }
    }
    if (depth == 0) res_->good_end = p;
    return true;
  }
  bool packed_record(const FieldDesc& f, size_t& p, size_t end, FieldVal& o, int depth) {
    uint64_t len;
    if (!length(p, end, len, depth)) return false;
    bool cut = len > end - p;
    size_t e = cut ? end : p + size_t(len);
    // Which of several problems of one packed record is reported first is not prescribed.
    std::set<Error> a;
    bool any = false, amb = false;
    std::string reason;
    if (cut) { a.insert(Error::END_OF_BUFFER); reason = "TRUNC_PACKED"; }
    size_t count = o.size();
    while (p < e) {
      uint64_t x;
      ++count;
      if (!scalar(f.kind, p, e, x, depth)) {
        if (res_->st == Ref::AMBIGUOUS) { amb = true; res_->st = Ref::OK; break; }
        a.insert(res_->allowed.begin(), res_->allowed.end());
        if (reason.empty()) reason = "PACKED_" + res_->reason;
        break;
      }
      if (count <= f.rep_cap) o.nums.push_back(x);
    }
    if (count > f.rep_cap) { a.insert(Error::ARRAY_FULL); if (reason.empty()) reason = "ARRAY_PACKED"; }
    if (a.empty()) {
      if (amb) return ambiguous("PACKED_BITS");
      p = e;
      return true;
    }
    if (amb) any = true;
    return fail(reason.c_str(), any ? std::set<Error>{} : a, depth);
  }
  bool skip(uint32_t wt, size_t& p, size_t end, int depth) {
    if (wt == 0) {
      uint64_t v;
      int n;
      switch (varint(p, end, v, n, 10)) {
        case 1: return fail("TRUNC_UNKNOWN_VARINT", {Error::END_OF_BUFFER}, depth);
        case 2: return fail("OVERLONG_UNKNOWN", {Error::OVERLONG_VARINT}, depth);
      }
      return true;
    }
    if (wt == 2) {
      uint64_t len;
      if (!length(p, end, len, depth)) { if (res_->st == Ref::ERR) res_->reason += "_UNKNOWN"; return false; }
      if (len > end - p) return fail("TRUNC_UNKNOWN_LEN", {Error::END_OF_BUFFER}, depth);
      p += size_t(len);
      return true;
    }
    size_t sz = wt == 1 ? 8 : 4;
    if (end - p < sz) return fail("TRUNC_UNKNOWN_FIXED", {Error::END_OF_BUFFER}, depth);
    p += sz;
    return true;
  }
};

}  // namespace vf
