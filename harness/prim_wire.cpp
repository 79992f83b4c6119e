// Scalar encoding primitives and scalar field objects: C26.
#include <cmath>
#include <memory>
#include "prim.h"
#include <Fields.h>
#include <WireFormatter.h>

namespace vf {
namespace {
using WF = EmbeddedProto::WireFormatter;
using WT = WF::WireType;
using EmbeddedProto::ReadBufferInterface;
using EmbeddedProto::WriteBufferInterface;
enum class En : int32_t { A = 0, B = 1 };

// Small buffers without allocation, for the enumerations.
struct SmallWrite final : WriteBufferInterface {
  uint8_t d[32]; uint32_t n = 0, cap = 32;
  void clear() override { n = 0; }
  uint32_t get_size() const override { return n; }
  uint32_t get_max_size() const override { return cap; }
  uint32_t get_available_size() const override { return cap - n; }
  bool push(const uint8_t b) override { if (n >= cap) return false; d[n++] = b; return true; }
  bool push(const uint8_t* p, const uint32_t k) override { if (k > cap - n) return false; memcpy(d + n, p, k); n += k; return true; }
};
struct SmallRead final : ReadBufferInterface {
  uint8_t d[32]; uint32_t n = 0, pos = 0;
  SmallRead(const uint8_t* p, uint32_t k) : n(k) { memcpy(d, p, k); }
  uint32_t get_size() const override { return n; }
  uint32_t get_max_size() const override { return 32; }
  bool peek(uint8_t& b) const override { if (pos >= n) return false; b = d[pos]; return true; }
  bool advance() override { if (pos >= n) return false; ++pos; return true; }
  bool advance(const uint32_t k) override { if (k > n - pos) { pos = n; return false; } pos += k; return true; }
  bool pop(uint8_t& b) override { if (pos >= n) return false; b = d[pos++]; return true; }
};
// ---------------------------------------------------------------- independent encoder
struct Bytes { uint8_t d[32]; uint32_t n = 0; };
void ref_varint(Bytes& b, uint64_t v) { while (v > 127) { b.d[b.n++] = uint8_t(v % 128 + 128); v /= 128; } b.d[b.n++] = uint8_t(v); }
void ref_fixed(Bytes& b, uint64_t v, unsigned size) { for (unsigned k = 0; k < size; ++k) b.d[b.n++] = uint8_t(v >> (8 * k)); }
uint64_t ref_zigzag(int64_t v) { return v >= 0 ? uint64_t(v) * 2 : uint64_t(-(v + 1)) * 2 + 1; }

std::string desc(const char* what, uint64_t v) { char b[80]; snprintf(b, sizeof b, "%s of 0x%llx", what, (unsigned long long)v); return b; }
void bad(const char* what, uint64_t v, const std::string& why) { set_case(desc(what, v)); R.violate(std::string(what), desc(what, v) + ": " + why); }

// Encode with f, compare with want (or with alt).
template <class F> void enc(const char* what, uint64_t v, const Bytes& want, F f, const Bytes* alt = nullptr) {
  SmallWrite w;
  Error e = f(w);
  bool same = w.n == want.n && !memcmp(w.d, want.d, w.n);
  if (!same && alt) same = w.n == alt->n && !memcmp(w.d, alt->d, w.n);
  if (e != Error::NO_ERRORS || !same) { bad(what, v, std::string(err_name(e)) + " gives " + hex(std::string(reinterpret_cast<char*>(w.d), w.n)) + " instead of " + hex(std::string(reinterpret_cast<const char*>(want.d), want.n))); return; }
}
// The same with too little space.
template <class F> void enc_full(const char* what, uint64_t v, F f) {
  SmallWrite w;
  f(w);
  for (uint32_t k = 0; k < w.n; ++k) {
    SmallWrite x;
    x.cap = k;
    Error e = f(x);
    R.count("encodings without space");
    if (e != Error::BUFFER_FULL) bad(what, v, "gives " + std::string(err_name(e)) + " with space for " + std::to_string(k) + " bytes");
    if (x.n > k || memcmp(x.d, w.d, x.n)) bad(what, v, "wrote something else when the space ended");
  }
}
// Decode with f into out (V), followed by other bytes.
template <class V, class F> void dec(const char* what, uint64_t v, const Bytes& in, V want, F f) {
  Bytes b = in;
  b.d[b.n] = 0xff; b.d[b.n + 1] = 0x80;
  SmallRead r(b.d, b.n + 2);
  V out;
  memset(&out, 0, sizeof out);
  Error e = f(r, out);
  if (e != Error::NO_ERRORS || memcmp(&out, &want, sizeof out) || r.pos != in.n)
    bad(what, v, std::string("decoding ") + hex(std::string(reinterpret_cast<const char*>(in.d), in.n)) + " gives " + err_name(e) + " " + hex(std::string(reinterpret_cast<char*>(&out), sizeof out)) + " instead of " + hex(std::string(reinterpret_cast<char*>(&want), sizeof want)) + ", read " + std::to_string(r.pos) + " of " + std::to_string(in.n) + " bytes");
}
template <class V, class F> void dec_cut(const char* what, uint64_t v, const Bytes& in, V other, F f, bool any_error = false) {
  for (uint32_t k = 0; k < in.n; ++k) {
    SmallRead r(in.d, k);
    V out = other;
    Error e = f(r, out);
    R.count("decodings of cut data");
    if (any_error && k ? e == Error::NO_ERRORS : e != Error::END_OF_BUFFER) bad(what, v, "cut after " + std::to_string(k) + " bytes gives " + err_name(e));
    if (memcmp(&out, &other, sizeof out)) bad(what, v, "a failed decoding changed its output");
  }
}
// A varint with extra zero groups, total length n (n > minimal).
Bytes padded(uint64_t v, uint32_t n) {
  Bytes b;
  ref_varint(b, v);
  while (b.n < n) { b.d[b.n - 1] |= 0x80; b.d[b.n++] = 0; }
  return b;
}
template <class V> V from_bits(uint64_t b) { V v; memcpy(&v, &b, sizeof v); return v; }

void one32(uint64_t x, Rng* r) {
  uint32_t u = uint32_t(x);
  int32_t s = int32_t(u);
  Bytes v32, v64s, z, f4;
  ref_varint(v32, u);
  ref_varint(v64s, uint64_t(int64_t(s)));
  ref_varint(z, ref_zigzag(s));
  ref_fixed(f4, u, 4);
  if (WF::ZigZagEncode<int32_t>(s) != uint32_t(ref_zigzag(s))) bad("ZigZagEncode 32", x, "wrong");
  if (WF::ZigZagDecode<uint32_t>(uint32_t(ref_zigzag(s))) != s) bad("ZigZagDecode 32", x, "wrong");
  enc("SerializeVarint 32", x, v32, [&](SmallWrite& w) { return WF::SerializeVarint(u, w); });
  enc("SerializeFixedNoTag 32", x, f4, [&](SmallWrite& w) { return WF::SerializeFixedNoTag(u, w); });
  dec<uint32_t>("DeserializeVarint 32", x, v32, u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeVarint(b, o); });
  dec<uint32_t>("DeserializeUInt 32", x, v32, u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeUInt(b, o); });
  dec<int32_t>("DeserializeInt 32", x, v64s, s, [](SmallRead& b, int32_t& o) { return WF::DeserializeInt(b, o); });
  dec<int32_t>("DeserializeInt 32, five bytes", x, v32, s, [](SmallRead& b, int32_t& o) { return WF::DeserializeInt(b, o); });
  dec<int32_t>("DeserializeSInt 32", x, z, s, [](SmallRead& b, int32_t& o) { return WF::DeserializeSInt(b, o); });
  dec<uint32_t>("DeserializeFixed 32", x, f4, u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeFixed(b, o); });
  dec<float>("DeserializeFloat", x, f4, from_bits<float>(u), [](SmallRead& b, float& o) { return WF::DeserializeFloat(b, o); });
  enc("SerialzieFloatNoTag", x, f4, [&](SmallWrite& w) { return WF::SerialzieFloatNoTag(from_bits<float>(u), w); });
  if (!r) return;
  R.eval(fnv(&u, 4, 77), u != 0);
  dec<En>("DeserializeEnum", x, v64s, static_cast<En>(s), [](SmallRead& b, En& o) { return WF::DeserializeEnum(b, o); });
  dec<En>("DeserializeEnum, five bytes", x, v32, static_cast<En>(s), [](SmallRead& b, En& o) { return WF::DeserializeEnum(b, o); });
  dec<int32_t>("DeserializeSFixed 32", x, f4, s, [](SmallRead& b, int32_t& o) { return WF::DeserializeSFixed(b, o); });
  enc("SerialzieSFixedNoTag 32", x, f4, [&](SmallWrite& w) { return WF::SerialzieSFixedNoTag(s, w); });
  // With tags.
  uint32_t num = uint32_t(1 + r->below(r->chance(1, 3) ? 20 : r->chance(1, 2) ? 5000 : 536870911));
  auto with = [&](unsigned wt, const Bytes& p) { Bytes b; ref_varint(b, uint64_t(num) << 3 | wt); memcpy(b.d + b.n, p.d, p.n); b.n += p.n; return b; };
  Bytes int5 = with(0, v32), int10 = with(0, v64s);
#define ENC(NAME, WANT, CALL) enc(NAME, x, WANT, [&](WriteBufferInterface& w) { return CALL; }); enc_full(NAME, x, [&](WriteBufferInterface& w) { return CALL; })
  enc("SerializeInt 32", x, int10, [&](SmallWrite& w) { return WF::SerializeInt(num, s, w); }, &int5);
  enc_full("SerializeInt 32", x, [&](SmallWrite& w) { return WF::SerializeInt(num, s, w); });
  enc("SerializeEnum", x, int10, [&](SmallWrite& w) { return WF::SerializeEnum(num, u, w); }, &int5);
  enc_full("SerializeEnum", x, [&](SmallWrite& w) { return WF::SerializeEnum(num, u, w); });
  ENC("SerializeUInt 32", with(0, v32), WF::SerializeUInt(num, u, w));
  ENC("SerializeSInt 32", with(0, z), WF::SerializeSInt(num, s, w));
  ENC("SerializeFixed 32", with(5, f4), WF::SerializeFixed(num, u, w));
  ENC("SerializeSFixed 32", with(5, f4), WF::SerializeSFixed(num, s, w));
  ENC("SerializeFloat", with(5, f4), WF::SerializeFloat(num, from_bits<float>(u), w));
  Bytes bl; bl.d[bl.n++] = u & 1;
  ENC("SerializeBool", with(0, bl), WF::SerializeBool(num, u & 1, w));
  // Longer forms and data that ends early.
  for (uint32_t k = v32.n; k <= 10; ++k) {
    Bytes p = padded(u, k);
    if (k <= 5) dec<uint32_t>("DeserializeVarint 32, longer form", x, p, u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeVarint(b, o); });
    dec<uint32_t>("DeserializeUInt 32, longer form", x, p, u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeUInt(b, o); });
    dec<bool>("DeserializeBool, longer form", x, p, u != 0, [](SmallRead& b, bool& o) { return WF::DeserializeBool(b, o); });
  }
  dec_cut<uint32_t>("DeserializeVarint 32", x, v32, ~u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeVarint(b, o); });
  dec_cut<uint32_t>("DeserializeUInt 32", x, v32, ~u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeUInt(b, o); });
  dec_cut<int32_t>("DeserializeInt 32", x, v64s, ~s, [](SmallRead& b, int32_t& o) { return WF::DeserializeInt(b, o); });
  dec_cut<int32_t>("DeserializeSInt 32", x, z, ~s, [](SmallRead& b, int32_t& o) { return WF::DeserializeSInt(b, o); });
  dec_cut<uint32_t>("DeserializeFixed 32", x, f4, ~u, [](SmallRead& b, uint32_t& o) { return WF::DeserializeFixed(b, o); });
  dec_cut<int32_t>("DeserializeSFixed 32", x, f4, ~s, [](SmallRead& b, int32_t& o) { return WF::DeserializeSFixed(b, o); });
  dec_cut<float>("DeserializeFloat", x, f4, 12.5f, [](SmallRead& b, float& o) { return WF::DeserializeFloat(b, o); });
  dec_cut<En>("DeserializeEnum", x, v64s, En::B, [](SmallRead& b, En& o) { return WF::DeserializeEnum(b, o); });
  dec_cut<bool>("DeserializeBool", x, v32, r->chance(1, 2), [](SmallRead& b, bool& o) { return WF::DeserializeBool(b, o); });
  R.count("32 bit values");
}
void one64(uint64_t x, Rng* r) {
  int64_t s = int64_t(x);
  Bytes v, z, f8;
  ref_varint(v, x);
  ref_varint(z, ref_zigzag(s));
  ref_fixed(f8, x, 8);
  if (WF::ZigZagEncode<int64_t>(s) != ref_zigzag(s)) bad("ZigZagEncode 64", x, "wrong");
  if (WF::ZigZagDecode<uint64_t>(ref_zigzag(s)) != s) bad("ZigZagDecode 64", x, "wrong");
  R.eval(fnv(&x, 8, 78), x != 0);
  enc("SerializeVarint 64", x, v, [&](SmallWrite& w) { return WF::SerializeVarint(x, w); });
  ENC("SerializeFixedNoTag 64", f8, WF::SerializeFixedNoTag(x, w));
  ENC("SerialzieSFixedNoTag 64", f8, WF::SerialzieSFixedNoTag(s, w));
  ENC("SerialzieDoubleNoTag", f8, WF::SerialzieDoubleNoTag(from_bits<double>(x), w));
  uint32_t num = uint32_t(1 + r->below(r->chance(1, 3) ? 20 : r->chance(1, 2) ? 5000 : 536870911));
  auto with = [&](unsigned wt, const Bytes& p) { Bytes b; ref_varint(b, uint64_t(num) << 3 | wt); memcpy(b.d + b.n, p.d, p.n); b.n += p.n; return b; };
  ENC("SerializeInt 64", with(0, v), WF::SerializeInt(num, s, w));
  ENC("SerializeUInt 64", with(0, v), WF::SerializeUInt(num, x, w));
  ENC("SerializeSInt 64", with(0, z), WF::SerializeSInt(num, s, w));
  ENC("SerializeFixed 64", with(1, f8), WF::SerializeFixed(num, x, w));
  ENC("SerializeSFixed 64", with(1, f8), WF::SerializeSFixed(num, s, w));
  ENC("SerializeDouble", with(1, f8), WF::SerializeDouble(num, from_bits<double>(x), w));
#define DEC(NAME, V, IN, WANT, OTHER, FN) dec<V>(NAME, x, IN, WANT, [](SmallRead& b, V& o) { return FN(b, o); }); dec_cut<V>(NAME, x, IN, OTHER, [](SmallRead& b, V& o) { return FN(b, o); })
  DEC("DeserializeVarint 64", uint64_t, v, x, ~x, WF::DeserializeVarint);
  DEC("DeserializeUInt 64", uint64_t, v, x, ~x, WF::DeserializeUInt);
  DEC("DeserializeInt 64", int64_t, v, s, ~s, WF::DeserializeInt);
  DEC("DeserializeSInt 64", int64_t, z, s, ~s, WF::DeserializeSInt);
  DEC("DeserializeFixed 64", uint64_t, f8, x, ~x, WF::DeserializeFixed);
  DEC("DeserializeSFixed 64", int64_t, f8, s, ~s, WF::DeserializeSFixed);
  DEC("DeserializeDouble", double, f8, from_bits<double>(x), 1.25, WF::DeserializeDouble);
  for (uint32_t k = v.n; k <= 10; ++k) {
    Bytes p = padded(x, k);
    DEC("DeserializeVarint 64, longer form", uint64_t, p, x, ~x, WF::DeserializeVarint);
    DEC("DeserializeBool, longer form", bool, p, x != 0, false, WF::DeserializeBool);
  }
  // Varints that do not end within their maximum.
  for (unsigned n : {10u, 11u, 15u}) {
    uint8_t d[16];
    for (auto& c : d) c = uint8_t(r->next() | 0x80);
    auto over = [&](const char* what, auto fn, auto other) {
      SmallRead b(d, n);
      auto o = other;
      Error e = fn(b, o);
      R.count("overlong varints");
      if (e != Error::OVERLONG_VARINT || memcmp(&o, &other, sizeof o)) bad(what, x, std::string("a varint that does not end gives ") + err_name(e));
      if (b.pos > 10) bad(what, x, "more than ten bytes read for a varint");
    };
    over("DeserializeVarint 64", [](SmallRead& b, uint64_t& o) { return WF::DeserializeVarint(b, o); }, x);
    over("DeserializeVarint 32", [](SmallRead& b, uint32_t& o) { return WF::DeserializeVarint(b, o); }, uint32_t(x));
    over("DeserializeInt 32", [](SmallRead& b, int32_t& o) { return WF::DeserializeInt(b, o); }, int32_t(x));
    over("DeserializeSInt 64", [](SmallRead& b, int64_t& o) { return WF::DeserializeSInt(b, o); }, s);
    over("DeserializeUInt 32", [](SmallRead& b, uint32_t& o) { return WF::DeserializeUInt(b, o); }, uint32_t(x));
    over("DeserializeBool", [](SmallRead& b, bool& o) { return WF::DeserializeBool(b, o); }, bool(x & 1));
    over("DeserializeEnum", [](SmallRead& b, En& o) { return WF::DeserializeEnum(b, o); }, En::B);
  }
  R.count("64 bit values");
}
void one_tag(uint64_t x, Rng& r) {
  uint32_t num = uint32_t(x % 536870911) + 1;
  static const WT T[] = {WT::VARINT, WT::FIXED64, WT::LENGTH_DELIMITED, WT::START_GROUP, WT::END_GROUP, WT::FIXED32};
  unsigned k = unsigned(r.below(6));
  R.eval(fnv(&num, 4, 79 + k), true);
  R.count("tags");
  if (WF::MakeTag(num, T[k]) != (num << 3 | k)) bad("MakeTag", num, "wrong");
  struct O { WT t; uint32_t id; };
  auto fn = [](SmallRead& b, O& o) { return WF::DeserializeTag(b, o.t, o.id); };
  Bytes b;
  ref_varint(b, uint64_t(num) << 3 | k);
  dec<O>("DeserializeTag", num, b, O{T[k], num}, fn);
  dec_cut<O>("DeserializeTag", num, b, O{WT::FIXED32, 77}, fn, true);
  if (b.n < 5) dec<O>("DeserializeTag, longer form", num, padded(uint64_t(num) << 3 | k, uint32_t(b.n + 1 + r.below(5 - b.n))), O{T[k], num}, fn);
  for (unsigned w : {6u, 7u}) {
    Bytes c;
    ref_varint(c, uint64_t(num) << 3 | w);
    SmallRead in(c.d, c.n);
    O o{WT::FIXED32, 77};
    Error e = fn(in, o);
    if (e != Error::INVALID_WIRETYPE || o.t != WT::FIXED32 || o.id != 77) bad("DeserializeTag", num, std::string("wire type ") + std::to_string(w) + " gives " + err_name(e));
  }
}

// ---------------------------------------------------------------- field objects
template <class F> typename F::TYPE val(uint64_t b) {
  using V = typename F::TYPE;
  if constexpr (std::is_same<V, bool>::value) return b & 1;
  else if constexpr (std::is_same<V, float>::value || std::is_same<V, double>::value) return from_bits<V>(b);
  else return static_cast<V>(b);
}
template <class V> bool eqb(const V& a, const V& b) { return !memcmp(&a, &b, sizeof a); }
template <class F, class F2> void compare(const char* what, uint64_t bx, uint64_t by) {
  auto a = val<F>(bx);
  auto b = val<F2>(by);
  F f(a);
  F2 g(b);
  bool ok = (f == g) == (a == b) && (f != g) == (a != b) && (f < g) == (a < b) && (f > g) == (a > b) && (f <= g) == (a <= b) && (f >= g) == (a >= b);
  R.count("comparisons", 6);
  if (!ok) bad(what, bx, "comparison with another field holding 0x" + std::to_string(by));
}
template <class F, WT W> void field(const char* what, uint64_t bx, uint64_t by, Rng& r, const std::function<void(Bytes&, uint64_t)>& ref, bool neg5) {
  using V = typename F::TYPE;
  V a = val<F>(bx), b = val<F>(by);
  V fromf = b; (void)fromf;
  R.eval(fnv(what, strlen(what), fnv(&bx, 8)), true);
  // Holding values.
  F f(a), g(b), h(f);
  F d{};
  if (!eqb<V>(f.get(), a) || !eqb<V>(h.get(), a) || !eqb<V>(V(f), a) || !eqb<V>(static_cast<const F&>(f).get(), a)) bad(what, bx, "construction or reading");
  if (!eqb<V>(d.get(), V(0))) bad(what, bx, "default");
  switch (r.below(8)) {
    case 0: h.set(b); break;
    case 1: h.set(V(b)); break;
    case 2: h.set(g); break;
    case 3: h.set(F(b)); break;
    case 4: h = b; break;
    case 5: h = g; break;
    case 6: h = F(b); break;
    default: h.get() = b; break;
  }
  if (!eqb<V>(h.get(), b) || !eqb<V>(f.get(), a)) bad(what, bx, "assignment");
  bool ok = (f == b) == (a == b) && (f != b) == (a != b) && (f < b) == (a < b) && (f > b) == (a > b) && (f <= b) == (a <= b) && (f >= b) == (a >= b)
            && (f == g) == (a == b) && (f != g) == (a != b) && (f < g) == (a < b) && (f > g) == (a > b) && (f <= g) == (a <= b) && (f >= g) == (a >= b);
  if (!ok) bad(what, bx, "comparison");
  h.clear();
  if (!eqb<V>(h.get(), V(0))) bad(what, bx, "clear");
  // On the wire.
  Bytes pay;
  ref(pay, bx);
  Bytes alt, *palt = nullptr;
  if (neg5) { ref_varint(alt, uint32_t(bx)); palt = &alt; }
  enc(what, bx, pay, [&](WriteBufferInterface& w) { return f.serialize(w); }, palt);
  enc_full(what, bx, [&](WriteBufferInterface& w) { return f.serialize(w); });
  uint32_t num = uint32_t(1 + r.below(r.chance(1, 2) ? 5000 : 536870911));
  auto with = [&](const Bytes& p) { Bytes x; ref_varint(x, uint64_t(num) << 3 | unsigned(W)); memcpy(x.d + x.n, p.d, p.n); x.n += p.n; return x; };
  Bytes t1 = with(pay), t2 = neg5 ? with(alt) : t1;
  enc(what, bx, t1, [&](WriteBufferInterface& w) { return f.serialize_with_id(num, w, r.chance(1, 2)); }, neg5 ? &t2 : nullptr);
  SmallWrite sz;
  f.serialize(sz);
  if (f.serialized_size() != sz.n) bad(what, bx, "serialized_size");
  auto de = [](SmallRead& in, V& o) { F x(o); Error e = x.deserialize(in); o = x.get(); return e; };
  dec<V>(what, bx, pay, a, de);
  if (neg5) dec<V>(what, bx, alt, a, de);
  dec_cut<V>(what, bx, pay, b, de);
  for (WT w : {WT::VARINT, WT::FIXED64, WT::LENGTH_DELIMITED, WT::START_GROUP, WT::END_GROUP, WT::FIXED32}) {
    SmallRead in(pay.d, pay.n);
    F x(b);
    Error e = x.deserialize_check_type(in, w);
    R.count("wire type checks");
    if (w == W ? (e != Error::NO_ERRORS || !eqb<V>(x.get(), a)) : (e != Error::INVALID_WIRETYPE || !eqb<V>(x.get(), b) || in.pos)) bad(what, bx, "wire type " + std::to_string(unsigned(w)) + " gives " + err_name(e));
  }
  R.count(std::string("field ") + what);
}
void fields(uint64_t x, uint64_t y, Rng& r) {
  namespace EP = EmbeddedProto;
  auto vi32 = [](Bytes& b, uint64_t v) { ref_varint(b, uint64_t(int64_t(int32_t(v)))); };
  auto v32 = [](Bytes& b, uint64_t v) { ref_varint(b, uint32_t(v)); };
  auto v64 = [](Bytes& b, uint64_t v) { ref_varint(b, v); };
  auto f4 = [](Bytes& b, uint64_t v) { ref_fixed(b, v, 4); };
  auto f8 = [](Bytes& b, uint64_t v) { ref_fixed(b, v, 8); };
  bool neg = int32_t(x) < 0;
  field<EP::int32, WT::VARINT>("int32", x, y, r, vi32, neg);
  field<EP::int64, WT::VARINT>("int64", x, y, r, v64, false);
  field<EP::uint32, WT::VARINT>("uint32", x, y, r, v32, false);
  field<EP::uint64, WT::VARINT>("uint64", x, y, r, v64, false);
  field<EP::sint32, WT::VARINT>("sint32", x, y, r, [](Bytes& b, uint64_t v) { ref_varint(b, ref_zigzag(int32_t(v))); }, false);
  field<EP::sint64, WT::VARINT>("sint64", x, y, r, [](Bytes& b, uint64_t v) { ref_varint(b, ref_zigzag(int64_t(v))); }, false);
  field<EP::boolean, WT::VARINT>("boolean", x, y, r, [](Bytes& b, uint64_t v) { ref_varint(b, v & 1); }, false);
  field<EP::enumeration<En>, WT::VARINT>("enumeration", x, y, r, vi32, neg);
  field<EP::fixed32, WT::FIXED32>("fixed32", x, y, r, f4, false);
  field<EP::fixed64, WT::FIXED64>("fixed64", x, y, r, f8, false);
  field<EP::sfixed32, WT::FIXED32>("sfixed32", x, y, r, f4, false);
  field<EP::sfixed64, WT::FIXED64>("sfixed64", x, y, r, f8, false);
  field<EP::floatfixed, WT::FIXED32>("floatfixed", x, y, r, f4, false);
  field<EP::doublefixed, WT::FIXED64>("doublefixed", x, y, r, f8, false);
  compare<EP::int32, EP::int64>("int32 and int64", x, y);
  compare<EP::int32, EP::sint32>("int32 and sint32", x, y);
  compare<EP::uint32, EP::uint64>("uint32 and uint64", x, y);
  compare<EP::floatfixed, EP::doublefixed>("float and double", x, y);
  compare<EP::fixed64, EP::uint64>("fixed64 and uint64", x, r.chance(1, 2) ? x : y);
}

void c26() {
  // All bit lengths with their neighbours, then random patterns.
  for_cases("limits", 64 * 9, [&](Rng& r, uint64_t i) {
    uint64_t x = (1ull << (i / 9)) + uint64_t(int64_t(i % 9) - 4);
    set_case("limit values");
    one32(x, &r); one64(x, &r); one_tag(x, r); fields(x, ~x, r); fields(~x, x, r); one32(~x, &r); one64(~x, &r);
  });
  cases("values", 24000, [&](Rng& r, uint64_t i) {
    uint64_t x = edge(r), y = r.chance(1, 4) ? x : r.chance(1, 3) ? x + r.below(3) - 1 : edge(r);
    set_case(desc("value", x) + desc(" and", y));
    one32(x, &r); one64(x, &r); one_tag(x, r); fields(x, y, r);
    if (i < 3) R.sample(desc("all primitives and field types", x) + desc(", compared with", y));
  });
  // Blocks of consecutive 32 bit values; the thorough tier covers all of them.
  const uint64_t block = 1 << 16;
  for_cases("block", R.thorough ? 65536 : 64, [&](Rng& r, uint64_t i) {
    uint64_t base = R.thorough ? i * block : (i < 2 ? i * block * 65535 : (r.next() & 0xffffu) * block);
    set_case(desc("block", base));
    uint64_t step = R.thorough ? 1 : 13;
    for (uint64_t k = 0; k < block; k += step) { one32(base + k, nullptr); ++R.evaluations; }
    R.distinct.insert(fnv(&base, 8));
    R.count("32 bit values enumerated", block / step);
  });
}
Prop p26("C26", c26);
}  // namespace
}  // namespace vf
