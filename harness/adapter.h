// Generic glue between the classes the plugin generates and the neutral values of core.h. The per message parts are
// written by gen_adapter.py. Only the documented public interface of messages and fields is used.
#pragma once
#include <algorithm>
#include <cstring>
#include "core.h"
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>

namespace vf {

template <class V> uint64_t bits(const V& v) {
  if constexpr (std::is_enum<V>::value) return uint64_t(int64_t(int32_t(v)));
  else if constexpr (std::is_same<V, float>::value) { uint32_t u; memcpy(&u, &v, 4); return u; }
  else if constexpr (std::is_same<V, double>::value) { uint64_t u; memcpy(&u, &v, 8); return u; }
  else if constexpr (std::is_same<V, bool>::value) { uint8_t u; memcpy(&u, &v, 1); return u; }
  else if constexpr (std::is_signed<V>::value) return uint64_t(int64_t(v));
  else return uint64_t(v);
}
template <class V> V unbits(uint64_t b) {
  if constexpr (std::is_enum<V>::value) return static_cast<V>(int32_t(b));
  else if constexpr (std::is_same<V, float>::value) { uint32_t u = uint32_t(b); float f; memcpy(&f, &u, 4); return f; }
  else if constexpr (std::is_same<V, double>::value) { double f; memcpy(&f, &b, 8); return f; }
  else if constexpr (std::is_same<V, bool>::value) return b != 0;
  else return static_cast<V>(b);
}

// A copy of some bytes in a heap block of exactly that size.
template <class CH> struct Exact {
  CH* p;
  explicit Exact(const std::string& s, bool nul = false) {
    p = static_cast<CH*>(malloc(s.size() + (nul ? 1 : 0) + (s.empty() && !nul ? 1 : 0)));
    if (!s.empty()) memcpy(p, s.data(), s.size());
    if (nul) p[s.size()] = 0;
  }
  ~Exact() { free(p); }
};

template <class T> struct is_field_string : std::false_type {};
template <uint32_t N> struct is_field_string<EmbeddedProto::FieldString<N>> : std::true_type {};

// Make a string or bytes field hold s, in one of many ways.
template <class F> void set_str(F& f, const std::string& s, Ctx& c) {
  using CH = typename std::remove_cv<typename std::remove_reference<decltype(*f.get_const())>::type>::type;
  if constexpr (is_field_string<F>::value) {
    if (s.find('\0') == std::string::npos && c.rng.chance(1, 3)) {
      Exact<char> x(s, true);
      if (c.rng.chance(1, 2)) { LIB(f = x.p); } else { LIB(f.set(x.p)); }
      return;
    }
    if (s.size() <= 40 && c.rng.chance(1, 5)) {
      EmbeddedProto::FieldString<40> o;
      LIB(o.set(s.data(), s.size()));
      if (c.rng.chance(1, 2)) { LIB(f = o); } else { LIB(f.set(o)); }
      return;
    }
  } else {
    if (s.size() <= 40 && c.rng.chance(1, 5)) {
      EmbeddedProto::FieldBytes<40> o;
      LIB(o.set(reinterpret_cast<const uint8_t*>(s.data()), s.size()));
      if (c.rng.chance(1, 2)) { LIB(f = o); } else { LIB(f.set(o)); }
      return;
    }
  }
  if (c.rng.chance(1, 4)) {
    LIB(f.clear());
    for (size_t i = 0; i < s.size(); ++i) { if (i & 1) { LIB(f[i] = CH(s[i])); } else { LIB(f.get(i) = CH(s[i])); } }
    return;
  }
  Exact<CH> x(s);
  Error e = LIB(f.set(x.p, s.size()));
  if (e != Error::NO_ERRORS) c.odd("set(pointer, length) of a value that fits was refused");
}
template <class F> std::string get_str(const F& f, Ctx& c) {
  uint32_t n = LIB(f.get_length());
  if (n > LIB(f.get_max_length())) { c.odd("length of a string exceeds its maximum"); n = LIB(f.get_max_length()); }
  std::string r(n, '\0');
  const auto* p = LIB(f.get_const());
  if (n) memcpy(&r[0], p, n);
  if (n) {
    uint32_t i = c.rng.below(n);
    if (char(LIB(f.get_const(i))) != r[i] || char(LIB(f[i])) != r[i]) c.odd("indexed read of a string differs");
  }
  return r;
}

// Elements of repeated fields. SUB is the adapter of a message type (void for others).
template <class DT, class SUB> void make_elem(DT& e, const FieldVal& v, size_t i, Ctx& c) {
  if constexpr (!std::is_void<SUB>::value) SUB::load(e, v.msgs[i], c);
  else if constexpr (std::is_base_of<EmbeddedProto::internal::BaseStringBytes, DT>::value) set_str(e, v.strs[i], c);
  else {
    using V = typename DT::TYPE;
    V x = unbits<V>(v.nums[i]);
    if (c.rng.chance(1, 2)) { LIB(e.set(x)); } else { LIB(e = x); }
  }
}
template <class DT, class SUB> void read_elem(const DT& e, FieldVal& v, const MsgDesc* d, Ctx& c) {
  (void)d;
  if constexpr (!std::is_void<SUB>::value) { MsgVal m(d); SUB::dump(e, m, c); v.msgs.push_back(std::move(m)); }
  else if constexpr (std::is_base_of<EmbeddedProto::internal::BaseStringBytes, DT>::value) v.strs.push_back(get_str(e, c));
  else { auto x = LIB(e.get()); v.nums.push_back(bits(x)); }
}
template <class RF, class SUB> void read_rep(const RF& f, FieldVal& v, const FieldDesc& fd, Ctx& c) {
  uint32_t n = LIB(f.get_length());
  if (n > LIB(f.get_max_length())) { c.odd("length of a repeated field exceeds its maximum"); n = LIB(f.get_max_length()); }
  for (uint32_t i = 0; i < n; ++i) {
    const auto& e = LIB(f.get_const(i));
    read_elem<typename std::decay<decltype(e)>::type, SUB>(e, v, fd.sub, c);
  }
}

// A field takes exactly its declared number of elements or bytes, through each kind of setter.
template <class F> void check_str_limit(uint32_t cap, const char* what, Ctx& c) {
  F f;
  using CH = typename std::remove_cv<typename std::remove_reference<decltype(*f.get_const())>::type>::type;
  std::string s(cap + 1, 'x');
  Exact<CH> fits(s.substr(1)), over(s);
  if (LIB(f.get_max_length()) != cap) c.odd(std::string("maximum length of ") + what);
  if (LIB(f.set(fits.p, cap)) != Error::NO_ERRORS || LIB(f.get_length()) != cap) c.odd(std::string("a value of the declared length is refused by ") + what);
  LIB(f.clear());
  if (LIB(f.set(over.p, cap + 1)) != Error::ARRAY_FULL || LIB(f.get_length()) != 0) c.odd(std::string("a value beyond the declared length is accepted by ") + what);
}
template <class F> void check_rep_limit(uint32_t cap, const char* what, Ctx& c) {
  auto f = std::make_unique<F>();
  using DT = typename std::decay<decltype(std::declval<const F&>().get_const(0))>::type;
  auto e = std::make_unique<DT>();
  if (LIB(f->get_max_length()) != cap) c.odd(std::string("maximum length of ") + what);
  uint32_t n = 0;
  while (n <= cap && LIB(f->add(*e)) == Error::NO_ERRORS) ++n;
  if (n != cap || LIB(f->get_length()) != cap) c.odd(std::string("number of elements accepted by ") + what);
  std::vector<DT> many(cap + 1);
  LIB(f->clear());
  if (LIB(f->set_data(many.data(), cap + 1)) != Error::ARRAY_FULL) c.odd(std::string("bulk set beyond the declared length is accepted by ") + what);
  LIB(f->clear());
  if (LIB(f->set_data(many.data(), cap)) != Error::NO_ERRORS || LIB(f->get_length()) != cap) c.odd(std::string("bulk set of the declared length is refused by ") + what);
}

template <class T, class A> struct Holder final : IMsg {
  T* o;
  void* raw;
  static void* memory(uint64_t poison) {
    size_t al = alignof(T) < 16 ? 16 : alignof(T);
    void* p = aligned_alloc(al, (sizeof(T) + al - 1) / al * al);
    memset(p, int(poison & 0xff), sizeof(T));
    return p;
  }
  struct Default {};
  Holder(const MsgDesc* dd, uint64_t poison, Default) { d = dd; raw = memory(poison); o = LIB(new (raw) T); }
  Holder(const MsgDesc* dd, uint64_t poison, const T& s) { d = dd; raw = memory(poison); o = LIB(new (raw) T(s)); }
  Holder(const MsgDesc* dd, uint64_t poison, T&& s) { d = dd; raw = memory(poison); o = LIB(new (raw) T(std::move(s))); }
  ~Holder() override { LIB(o->~T()); free(raw); }
  std::unique_ptr<IMsg> fresh(uint64_t p) const override { return std::unique_ptr<IMsg>(new Holder(d, p, Default())); }
  std::unique_ptr<IMsg> copy_construct(uint64_t p) const override { return std::unique_ptr<IMsg>(new Holder(d, p, static_cast<const T&>(*o))); }
  std::unique_ptr<IMsg> move_construct(uint64_t p) override { return std::unique_ptr<IMsg>(new Holder(d, p, std::move(*o))); }
  void assign(const IMsg& x) override { LIB(*o = *static_cast<const Holder&>(x).o); }
  void move_assign(IMsg& x) override { LIB(*o = std::move(*static_cast<Holder&>(x).o)); }
  Error serialize(EmbeddedProto::WriteBufferInterface& b) const override { return LIB(o->serialize(b)); }
  uint32_t serialized_size() const override { return LIB(o->serialized_size()); }
  Error deserialize(EmbeddedProto::ReadBufferInterface& b) override { return LIB(o->deserialize(b)); }
  void clear() override { LIB(o->clear()); }
  void set_field(int fi, const FieldVal& v, Ctx& c) override { A::set_field(*o, fi, v, c); }
  void get_field(int fi, FieldVal& v, Ctx& c) const override { A::get_field(*o, fi, v, d->fields[fi], c); }
  void clear_field(int fi) override { A::clear_field(*o, fi); }
  void touch_field(int fi, Ctx& c) override { A::touch_field(*o, fi, c); }
  bool has_touch(int fi) const override { return A::has_touch(fi); }
  void grow_field(int fi, uint32_t n) override { A::grow_field(*o, fi, n); }
  void elem_field(int fi, uint32_t at, unsigned how, const FieldVal& v, Ctx& c) override { A::elem_field(*o, fi, at, how, v, c); }
  int has(int fi) const override { return A::has(*o, fi); }
  uint32_t which(int of) const override { return A::which(*o, of); }
  std::string absent_default(int fi) const override { return A::absent_default(*o, fi); }
  const char* number_to_name(uint32_t n) const override { return LIB(T::field_number_to_name(static_cast<typename T::FieldNumber>(n))); }
  void check_caps(Ctx& c) const override { A::check_caps(*d, c); }
  size_t object_size() const override { return sizeof(T); }
  const void* object() const override { return o; }
  bool to_string(char* p, uint32_t n, char*& rest, uint32_t& rest_n) const override {
#ifdef MSG_TO_STRING
    EmbeddedProto::string_view v{p, n};
    EmbeddedProto::string_view r = LIB(o->to_string(v));
    rest = r.data; rest_n = r.size;
    return true;
#else
    (void)p; (void)n; (void)rest; (void)rest_n;
    return false;
#endif
  }
};

}  // namespace vf
