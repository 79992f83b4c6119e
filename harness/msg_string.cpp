// C20: to_string in arrays of every size, and what the text says. Built with MSG_TO_STRING.
#include <cmath>
#include "msgutil.h"

namespace vf {

namespace {
// Reads the text of a message along its value. Blanks do not matter, a comma stands between neighbours.
struct Reader {
  const std::string& s;
  size_t p = 0;
  std::string err;
  explicit Reader(const std::string& t) : s(t) {}
  bool fail(const std::string& w) { if (err.empty()) err = w + " at offset " + std::to_string(p) + " near '" + s.substr(p, 40) + "'"; return false; }
  bool gap(bool need_comma) {   // blanks and commas
    bool comma = false;
    while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r' || s[p] == ',')) { if (s[p] == ',') comma = true; ++p; }
    return !need_comma || comma || fail("no comma between neighbours");
  }
  bool lit(const std::string& t, const char* what) {
    if (s.compare(p, t.size(), t) != 0) return fail(std::string("expected ") + what + " '" + t + "'");
    p += t.size();
    return true;
  }
  bool open(char c) { gap(false); return lit(std::string(1, c), "the bracket"); }
  bool number(Kind k, uint64_t bits) {
    size_t e = p;
    while (e < s.size() && !strchr(" ,\n\t\r]}", s[e])) ++e;
    std::string t = s.substr(p, e - p);
    bool ok = false;
    char b[40];
    switch (k) {
      case K_BOOL: ok = t == (bits ? "true" : "false"); break;
      case K_FLOAT: case K_DOUBLE: {
        double v;
        if (k == K_FLOAT) { uint32_t u = uint32_t(bits); float f; memcpy(&f, &u, 4); v = f; } else memcpy(&v, &bits, 8);
        char* end;
        double x = strtod(t.c_str(), &end);
        ok = !t.empty() && !*end && (std::isnan(v) ? std::isnan(x) : std::isinf(v) ? x == v : std::fabs(x - v) <= 1e-6 + std::fabs(v) * 1e-6);
        break;
      }
      case K_UINT32: case K_FIXED32: case K_UINT64: case K_FIXED64: snprintf(b, sizeof b, "%llu", (unsigned long long)bits); ok = t == b; break;
      default: snprintf(b, sizeof b, "%lld", (long long)bits); ok = t == b;
    }
    if (!ok) return fail("the value of a number is not shown");
    p = e;
    return true;
  }
  bool value(const FieldDesc& f, const FieldVal& v, size_t i) {
    gap(false);
    if (f.kind == K_MSG) return message(v.msgs[i]);
    if (f.kind == K_STRING) {
      std::string t = v.strs[i].substr(0, v.strs[i].find('\0'));
      return lit("\"" + t + "\"", "the text");
    }
    if (f.kind == K_BYTES) {
      if (!open('[')) return false;
      for (size_t k = 0; k < v.strs[i].size(); ++k) { if (!gap(k > 0) || !number(K_UINT32, uint8_t(v.strs[i][k]))) return false; }
      return open(']');
    }
    return number(f.kind, v.nums[i]);
  }
  bool field(const FieldDesc& f, const FieldVal& v, bool first) {
    if (!gap(!first)) return false;
    if (!lit("\"" + std::string(f.name) + "\"", "the name of a field")) return false;
    gap(false);
    if (!lit(":", "a colon")) return false;
    if (f.label == REPEATED) {
      if (!open('[')) return false;
      for (size_t i = 0; i < v.size(); ++i) { if (!gap(i > 0) || !value(f, v, i)) return false; }
      return open(']');
    }
    if (!v.empty()) return value(f, v, 0);
    FieldVal z;   // absent: the default is shown
    if (f.kind == K_MSG) z.msgs.push_back(MsgVal(f.sub));
    else if (is_str(f.kind)) z.strs.push_back("");
    else z.nums.push_back(0);
    return value(f, z, 0);
  }
  bool message(const MsgVal& m) {
    if (!open('{')) return false;
    bool first = true;
    for (size_t i = 0; i < m.f.size(); ++i) if (m.d->fields[i].label != ONEOF) { if (!field(m.d->fields[i], m.f[i], first)) return false; first = false; }
    for (size_t k = 0; k < m.d->oneofs.size(); ++k)
      for (size_t i = 0; i < m.f.size(); ++i)
        if (m.d->fields[i].label == ONEOF && m.d->fields[i].oneof == int(k) && !m.f[i].empty()) { if (!field(m.d->fields[i], m.f[i], first)) return false; first = false; }
    return open('}');
  }
};
struct Arr {   // an array of exactly n characters on the heap
  char* p;
  uint32_t n;
  explicit Arr(uint32_t k, uint8_t fill) : p(static_cast<char*>(malloc(k ? k : 1))), n(k) { memset(p, fill, k ? k : 1); }
  ~Arr() { free(p); }
};
}  // namespace

static void c20() {
  uint64_t n = registry().size();
  cases("text", 14 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    auto m = holding(t, v, r, c);
    std::string hd = std::string(t.d->inst_name) + " value " + show(v);
    set_case(hd);
    MsgVal before = dump(*m, c);
    std::string full;
    uint32_t big = 4096;
    for (;; big *= 4) {
      Arr a(big, 0xAA);
      char* rest; uint32_t rn;
      if (!m->to_string(a.p, big, rest, rn)) harness_error("built without MSG_TO_STRING");
      size_t len = strnlen(a.p, big);
      if (len == big) { R.violate("terminator:large", "no NUL in an array of " + std::to_string(big)); return; }
      if (len + 1 >= big) { if (big > (1u << 26)) harness_error("endless text"); continue; }
      full.assign(a.p, len);
      break;
    }
    R.count("characters", full.size());
    R.count("type " + std::string(t.d->full_name));
    if (i < 3) R.sample(hd + " -> " + full);
    set_case(hd + " text " + full.substr(0, 1000));
    Reader rd(full);
    if (!rd.message(before)) R.violate("text:" + std::string(t.d->full_name), rd.err);
    else { rd.gap(false); if (rd.p != full.size()) R.violate("tail:" + std::string(t.d->full_name), "characters after the message: '" + full.substr(rd.p, 60) + "'"); }
    // Sizes: all of them for short texts, else both ends, powers and a random sample.
    std::set<uint32_t> sizes;
    uint32_t L = uint32_t(full.size());
    uint32_t all = R.thorough ? 1500 : 260;
    for (uint32_t k = 0; k <= L + 2 && k <= all; ++k) sizes.insert(k);
    for (uint32_t k = 0; k < 8; ++k) { sizes.insert(L + 3 - k < 0x80000000u ? L + 3 - k : 0); sizes.insert(uint32_t(r.below(L + 1))); }
    for (uint32_t k : sizes) {
      set_case(hd + " array of " + std::to_string(k));
      Arr a(k, uint8_t(r.chance(1, 2) ? 0xAA : 0));
      char* rest = nullptr; uint32_t rn = 0;
      m->to_string(a.p, k, rest, rn);
      R.eval(fnv(full, fnv(hd, k + 1)), k > 0);
      if (k == 0) { if (rn != 0) R.violate("rest:empty", "an empty array has " + std::to_string(rn) + " characters left"); continue; }
      size_t len = strnlen(a.p, k);
      if (len == k) { R.violate("terminator", "array of " + std::to_string(k) + " without NUL"); continue; }
      std::string want = full.substr(0, k - 1);
      if (std::string(a.p, len) != want) R.violate("prefix:" + std::string(t.d->full_name), "array of " + std::to_string(k) + " holds '" + std::string(a.p, len).substr(len > 60 ? len - 60 : 0) + "' which is not the longest prefix of the full text of " + std::to_string(L));
      if (rest != a.p + len || rn != k - len) R.violate("rest", "array of " + std::to_string(k) + ", text of " + std::to_string(len) + ": the view left is at " + std::to_string(rest - a.p) + " with " + std::to_string(rn));
    }
    if (dump(*m, c) != before) R.violate("changed", "to_string changed the message");
    if (!c.anomaly.empty()) R.violate("odd", c.anomaly);
  });
}
static Prop p_c20("C20", c20);

}  // namespace vf
