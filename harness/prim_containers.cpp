// Field containers in lock step with simple models: C15 (repeated fields) and C16 (string and bytes fields).
#include <algorithm>
#include <memory>
#include "prim.h"
#include "nested.h"

namespace vf {
namespace {

enum class En : int32_t { A = 0, B = 1, MINUS = -5, BIG = 2147483647 };

// ---------------------------------------------------------------- element kinds
template <class T, class = void> struct Elem {   // scalars
  static T make(Rng& r) {
    using V = typename T::TYPE;
    uint64_t b = edge(r);
    V v;
    if constexpr (std::is_same<V, bool>::value) v = b & 1;
    else if constexpr (std::is_same<V, float>::value) { uint32_t u = uint32_t(b); memcpy(&v, &u, 4); }
    else if constexpr (std::is_same<V, double>::value) memcpy(&v, &b, 8);
    else v = static_cast<V>(b);
    T t; t.set(v);
    return t;
  }
  static std::string key(const T& t) { auto v = t.get(); return hex(std::string(reinterpret_cast<const char*>(&v), sizeof v)); }
};
template <class T> struct Elem<T, typename std::enable_if<std::is_base_of<EmbeddedProto::internal::BaseStringBytes, T>::value>::type> {
  static T make(Rng& r) {
    T t;
    std::string s = some_bytes(r.below(t.get_max_length() + 1), r);
    t.set(reinterpret_cast<decltype(t.get_const())>(s.data()), uint32_t(s.size()));
    return t;
  }
  static std::string key(const T& t) { return std::to_string(t.get_length()) + ":" + hex(std::string(reinterpret_cast<const char*>(t.get_const()), std::min(t.get_length(), t.get_max_length()))); }
};
template <class T> struct Elem<T, typename std::enable_if<std::is_base_of<EmbeddedProto::MessageInterface, T>::value>::type> {
  static T make(Rng& r) {
    T t;
    if (r.chance(1, 2)) t.set_a(int32_t(edge(r)));
    if (r.chance(1, 2)) t.set_b(int64_t(edge(r)));
    if (r.chance(1, 2)) { std::string s = some_bytes(r.below(5), r); t.mutable_s().set(s.data(), uint32_t(s.size())); }
    for (unsigned k = unsigned(r.below(3)); k-- > 0;) t.add_v(int32_t(edge(r)));
    return t;
  }
  static std::string key(const T& t) {
    std::string s = std::to_string(t.get_a()) + "/" + std::to_string(t.get_b()) + "/" + std::to_string(t.get_s().get_length()) + "/";
    for (uint32_t k = 0; k < t.get_v().get_length(); ++k) s += std::to_string(t.get_v().get_const(k).get()) + ",";
    VecWrite w;
    t.serialize(w);
    return s + hex(w.d);
  }
};

// ---------------------------------------------------------------- repeated fields
template <class T, uint32_t N> struct Rep {
  using F = EmbeddedProto::RepeatedFieldFixedSize<T, N>;
  using E = Elem<T>;
  struct Box { std::unique_ptr<F> f; std::vector<std::string> m; };   // alone in a heap block: ASan guards both sides
  Rng& r;
  const char* name;
  std::string log;
  const std::string dflt = E::key(T());
  Box a, b;
  explicit Rep(Rng& rr, const char* n) : r(rr), name(n) { a.f.reset(new F); b.f.reset(new F); }
  void note(const std::string& s) {
    log += s + "; ";
    if (log.size() > 1200) log = "..." + log.substr(log.size() - 1000);
    set_case(std::string(name) + "[" + std::to_string(N) + "] " + log);
  }
  uint32_t index() {
    switch (r.below(8)) {
      case 0: return N - 1;
      case 1: return N;
      case 2: return N + uint32_t(r.below(5));
      case 3: return r.chance(1, 2) ? 0xffffffffu : 0x80000000u;
      default: return uint32_t(r.below(N));
    }
  }
  void write(std::vector<std::string>& m, uint32_t i, const std::string& v) {
    if (i >= N) i = N - 1;
    while (m.size() <= i) m.push_back(dflt);
    m[i] = v;
  }
  size_t sink = 0;
  bool bad(const char* key, const std::string& what) { R.violate(std::string(key) + ":" + name, what); return false; }
  bool same(Box& x, const char* op) {
    const F& f = *x.f;
    R.eval(fnv(log.size() > 200 ? log.substr(log.size() - 200) : log, fnv(std::string(name), x.m.size())), !x.m.empty());
    if (f.get_length() != x.m.size()) return bad("length", std::string("after ") + op + " the length is " + std::to_string(f.get_length()) + " instead of " + std::to_string(x.m.size()));
    if (f.get_max_length() != N) return bad("max", "the maximum length changed");
    if (f.get_max_length() * (N ? f.get_max_size() / N : 0) != f.get_max_size() || f.get_size() * N != f.get_max_size() * f.get_length()) return bad("size", std::string("sizes in bytes do not match the lengths after ") + op);
    const EmbeddedProto::RepeatedField<T>& base = f;
    for (uint32_t i = 0; i < x.m.size(); ++i) {
      std::string k = E::key(i % 3 == 0 ? f.get_const(i) : i % 3 == 1 ? f[i] : base.get_const(i));
      if (k != x.m[i]) return bad("element", std::string("after ") + op + " element " + std::to_string(i) + " is " + k + " instead of " + x.m[i]);
      if (E::key(f.get_data_const()[i]) != x.m[i]) return bad("element", std::string("the array itself differs after ") + op);
    }
    // Checked reads.
    for (uint32_t i : {uint32_t(x.m.size()), uint32_t(x.m.size()) + 1, N, N + 1, 0xffffffffu, x.m.empty() ? 0u : uint32_t(r.below(x.m.size()))}) {
      T out = E::make(r);
      std::string before = E::key(out);
      Error e = f.get_const(i, out);
      R.count(i < x.m.size() ? "checked reads inside" : "checked reads outside");
      if (i < x.m.size()) { if (e != Error::NO_ERRORS || E::key(out) != x.m[i]) return bad("checked", "checked read of element " + std::to_string(i) + " gives " + err_name(e)); }
      else {
        if (e != Error::INDEX_OUT_OF_BOUND) return bad("checked", "checked read at " + std::to_string(i) + " with length " + std::to_string(x.m.size()) + " gives " + err_name(e));
        if (E::key(out) != before) return bad("checked", "a refused checked read changed its output");
      }
    }
    if (x.m.size() == N) {
      for (uint32_t i : {N, N + 7, 0xffffffffu})
        if (E::key(f.get_const(i)) != x.m[N - 1] || E::key(f[i]) != x.m[N - 1]) return bad("beyond", "an index beyond the capacity does not read the last slot");
    }
    else {
      // Not full: an unchecked read still stays inside the array, and one beyond the capacity reads its last slot.
      const std::string last = E::key(f.get_const(N - 1));
      for (uint32_t i : {N, N + 7, 0xffffffffu}) {
        R.count("unchecked reads beyond the capacity of a field that is not full");
        if (E::key(f.get_const(i)) != last || E::key(f[i]) != last || &f.get_const(i) != &f.get_data_const()[N - 1]) return bad("beyond", "an index beyond the capacity does not read the last slot");
      }
      uint32_t i = uint32_t(x.m.size()) + uint32_t(r.below(N - x.m.size()));
      if (&f.get_const(i) != &f.get_data_const()[i] || &f[i] != &f.get_const(i)) return bad("slot", "an unchecked read past the current length does not address the slot of its index");
      sink += E::key(f.get_const(i)).size();
    }
    return true;
  }
  bool step() {
    Box& x = a;
    F& f = *x.f;
    switch (r.below(14)) {
      case 0: case 1: case 2: {
        bool alias = !x.m.empty() && r.chance(1, 6);
        uint32_t j = alias ? uint32_t(r.below(x.m.size())) : 0;
        T v = E::make(r);
        std::string k = alias ? x.m[j] : E::key(v);
        note(alias ? "add own element " + std::to_string(j) : "add " + k);
        Error e = alias ? f.add(f.get_const(j)) : f.add(v);
        Error want = x.m.size() < N ? Error::NO_ERRORS : Error::ARRAY_FULL;
        R.count(want == Error::NO_ERRORS ? "add accepted" : "add refused");
        if (e != want) return bad("add", std::string("add gives ") + err_name(e) + " with " + std::to_string(x.m.size()) + " elements");
        if (want == Error::NO_ERRORS) x.m.push_back(k);
        return same(x, "add");
      }
      case 3: case 4: {
        uint32_t i = index();
        bool alias = !x.m.empty() && r.chance(1, 6);
        uint32_t j = alias ? uint32_t(r.below(x.m.size())) : 0;
        T v = E::make(r);
        std::string k = alias ? x.m[j] : E::key(v);
        note("set " + std::to_string(i) + " " + (alias ? "to own element " + std::to_string(j) : k));
        if (alias) f.set(i, f.get_const(j)); else f.set(i, v);
        write(x.m, i, k);
        R.count(i >= N ? "set beyond capacity" : alias ? "set to an own element" : "set");
        return same(x, "set");
      }
      case 5: case 6: {
        uint32_t i = index(), li = std::min(i, N - 1);
        T v = E::make(r);
        note("get " + std::to_string(i) + (i >= x.m.size() ? " (grows)" : ""));
        T& ref = r.chance(1, 2) ? f.get(i) : f[i];
        R.count(li >= x.m.size() ? "mutable access that grows" : "mutable access");
        std::string want = li < x.m.size() ? x.m[li] : dflt;
        if (E::key(ref) != want) return bad("grown", "mutable access to element " + std::to_string(i) + " with length " + std::to_string(x.m.size()) + " finds " + E::key(ref) + " instead of " + want);
        write(x.m, i, want);
        if (!same(x, "mutable access")) return false;
        ref = v;
        note("assign " + E::key(v));
        write(x.m, i, E::key(v));
        return same(x, "assignment through mutable access");
      }
      case 7: case 8: {
        uint32_t n = r.chance(1, 4) ? N + uint32_t(r.below(4)) : uint32_t(r.below(N + 1));
        std::vector<T> v;
        for (uint32_t k = 0; k < n; ++k) v.push_back(E::make(r));
        note("set_data of " + std::to_string(n));
        if (v.empty()) v.resize(1);
        Error e = f.set_data(v.data(), n);
        Error want = n <= N ? Error::NO_ERRORS : Error::ARRAY_FULL;
        R.count(want == Error::NO_ERRORS ? "bulk set accepted" : "bulk set refused");
        if (e != want) return bad("set_data", std::string("set_data of ") + std::to_string(n) + " gives " + err_name(e));
        if (want == Error::NO_ERRORS) { x.m.clear(); for (uint32_t k = 0; k < n; ++k) x.m.push_back(E::key(v[k])); }
        return same(x, "set_data");
      }
      case 9: note("clear"); f.clear(); x.m.clear(); R.count("clear"); return same(x, "clear");
      case 10: {
        note("assign the other");
        f = *b.f; x.m = b.m; R.count("assignment");
        return same(x, "assignment") && same(b, "being assigned from");
      }
      case 11: {
        note("swap roles");
        std::swap(a.f, b.f); std::swap(a.m, b.m);
        return true;
      }
      case 12: {
        if (r.chance(1, 3)) { note("self assign"); F& g = f; f = g; R.count("self assignment"); return same(x, "self assignment"); }
        note("copy construct");
        std::unique_ptr<F> c(r.chance(1, 2) ? new F(f) : new F(std::move(f)));
        R.count("copy construction");
        x.f = std::move(c);
        return same(x, "copy construction");
      }
      default: {
        // A larger field made from this one.
        note("construct a larger one");
        using L = EmbeddedProto::RepeatedFieldFixedSize<T, N + 3>;
        std::unique_ptr<L> l(r.chance(1, 2) ? new L(f) : new L(std::move(f)));
        R.count("conversion to a larger field");
        if (l->get_length() != x.m.size()) return bad("convert", "a larger field made from this one has length " + std::to_string(l->get_length()));
        for (uint32_t i = 0; i < x.m.size(); ++i) if (E::key(l->get_const(i)) != x.m[i]) return bad("convert", "a larger field made from this one differs");
        for (uint32_t i = uint32_t(x.m.size()); i < N + 3; ++i) if (E::key(l->get(i)) != dflt) return bad("convert", "a larger field made from this one does not grow with defaults");
        return same(x, "conversion of a copy");
      }
    }
  }
  void history(unsigned n) { for (unsigned k = 0; k < n; ++k) if (!step()) return; R.count("histories"); }
};

template <class T, uint32_t N> void rep_case(Rng& r, uint64_t i, const char* name) {
  Rep<T, N> h(r, name);
  h.history(unsigned(10 + r.below(40)));
  if (i < 3) R.sample(std::string(name) + "[" + std::to_string(N) + "]: " + h.log);
}
void c15() {
  using namespace EmbeddedProto;
  using Leaf = ::vf::nested::Leaf<6, 4>;
  cases("repeated", 12000, [&](Rng& r, uint64_t i) {
    if (r.chance(1, 60)) { rep_case<EmbeddedProto::boolean, 300>(r, i, "boolean"); return; }   // more than 8 bits
    if (r.chance(1, 800)) { Rep<EmbeddedProto::uint32, 66000> h(r, "uint32"); h.history(unsigned(3 + r.below(6))); return; }   // more than 16 bits
    switch (r.below(16)) {
      case 0: rep_case<EmbeddedProto::uint32, 1>(r, i, "uint32"); break;
      case 1: rep_case<EmbeddedProto::uint32, 3>(r, i, "uint32"); break;
      case 2: rep_case<EmbeddedProto::int32, 8>(r, i, "int32"); break;
      case 3: rep_case<EmbeddedProto::sint64, 2>(r, i, "sint64"); break;
      case 4: rep_case<EmbeddedProto::boolean, 5>(r, i, "boolean"); break;
      case 5: rep_case<EmbeddedProto::floatfixed, 4>(r, i, "floatfixed"); break;
      case 6: rep_case<EmbeddedProto::doublefixed, 3>(r, i, "doublefixed"); break;
      case 7: rep_case<EmbeddedProto::enumeration<En>, 4>(r, i, "enumeration"); break;
      case 8: rep_case<FieldString<7>, 3>(r, i, "FieldString"); break;
      case 9: rep_case<FieldBytes<5>, 4>(r, i, "FieldBytes"); break;
      case 10: rep_case<FieldString<1>, 1>(r, i, "FieldString"); break;
      case 11: rep_case<Leaf, 1>(r, i, "message"); break;
      case 12: rep_case<Leaf, 4>(r, i, "message"); break;
      case 13: rep_case<EmbeddedProto::fixed64, 16>(r, i, "fixed64"); break;
      case 14: rep_case<FieldBytes<16>, 2>(r, i, "FieldBytes"); break;
      default: rep_case<EmbeddedProto::sfixed32, 6>(r, i, "sfixed32"); break;
    }
  });
}
Prop p15("C15", c15);

// ---------------------------------------------------------------- strings and bytes
template <class F, class CH, uint32_t N> struct Str {
  Rng& r;
  const char* name;
  std::string log;
  std::unique_ptr<F> f;
  std::string m;
  Str(Rng& rr, const char* n) : r(rr), name(n), f(new F) {}
  static constexpr bool TEXT = std::is_same<CH, char>::value;
  void note(const std::string& s) {
    log += s + "; ";
    if (log.size() > 1200) log = "..." + log.substr(log.size() - 1000);
    set_case(std::string(name) + "<" + std::to_string(N) + "> " + log);
  }
  bool bad(const char* key, const std::string& what) { R.violate(std::string(key) + ":" + name, what); return false; }
  uint32_t index() {
    switch (r.below(8)) {
      case 0: return N - 1;
      case 1: return N;
      case 2: return N + uint32_t(r.below(5));
      case 3: return r.chance(1, 2) ? 0xffffffffu : 0x80000000u;
      default: return uint32_t(r.below(N));
    }
  }
  uint32_t length() { return r.chance(1, 4) ? N + uint32_t(r.below(6)) : r.chance(1, 4) ? N : uint32_t(r.below(N + 1)); }
  bool same(const char* op) {
    const F& x = *f;
    R.eval(fnv(m, fnv(std::string(name) + op, N)), !m.empty());
    if (x.get_length() != m.size()) return bad("length", std::string("after ") + op + " the length is " + std::to_string(x.get_length()) + " instead of " + std::to_string(m.size()));
    if (x.get_max_length() != N) return bad("max", "the maximum length changed");
    std::string got(reinterpret_cast<const char*>(x.get_const()), m.size());
    if (got != m) return bad("content", std::string("after ") + op + " the content is " + hex(got) + " instead of " + hex(m));
    for (uint32_t i = 0; i < m.size(); ++i) if (char(x.get_const(i)) != m[i] || char(x[i]) != m[i]) return bad("indexed", std::string("indexed read differs after ") + op);
    if (TEXT && m.size() < N && x.get_const()[m.size()] != 0) return bad("nul", std::string("after ") + op + " the text is not followed by a NUL character");
    for (uint32_t i : {uint32_t(m.size()), uint32_t(m.size()) + 1, N, N + 1, 0xffffffffu, m.empty() ? 0u : uint32_t(r.below(m.size()))}) {
      CH out = CH(0x5a);
      Error e = x.get_const(i, out);
      R.count(i < m.size() ? "checked reads inside" : "checked reads outside");
      if (i < m.size()) { if (e != Error::NO_ERRORS || char(out) != m[i]) return bad("checked", "checked read inside the length fails"); }
      else if (e != Error::INDEX_OUT_OF_BOUND || out != CH(0x5a)) return bad("checked", "checked read at " + std::to_string(i) + " with length " + std::to_string(m.size()) + " gives " + err_name(e));
    }
    if (m.size() == N) for (uint32_t i : {N, N + 3, 0xffffffffu}) if (char(x.get_const(i)) != m[N - 1] || char(x[i]) != m[N - 1]) return bad("beyond", "an index beyond the capacity does not read the last slot");
    if (m.size() < N) {
      for (uint32_t i : {N, N + 3, 0xffffffffu}) {
        R.count("unchecked reads beyond the capacity of a field that is not full");
        if (&x.get_const(i) != x.get_const() + (N - 1) || &x[i] != x.get_const() + (N - 1) || x.get_const(i) != x.get_const(N - 1)) return bad("beyond", "an index beyond the capacity does not read the last slot");
      }
      uint32_t i = uint32_t(m.size()) + uint32_t(r.below(N - m.size()));
      if (&x.get_const(i) != x.get_const() + i || x[i] != x.get_const()[i]) return bad("slot", "an unchecked read past the current length does not address the slot of its index");
    }
    return true;
  }
  template <class G> bool from_field(G&& g, bool assign) {
    std::string s = some_bytes(r.below(g.get_max_length() + 1), r);
    g.set(reinterpret_cast<const CH*>(s.data()), uint32_t(s.size()));
    note(std::string(assign ? "assign" : "set from") + " a field of capacity " + std::to_string(g.get_max_length()) + " with " + hex(s));
    bool fits = s.size() <= N;
    R.count(fits ? "field set accepted" : "field set refused");
    if (assign) *f = g;
    else {
      Error e = f->set(g);
      if (e != (fits ? Error::NO_ERRORS : Error::ARRAY_FULL)) return bad("set_field", std::string("set from a field gives ") + err_name(e));
    }
    if (fits) m = s;
    return same(assign ? "assignment" : "set from a field");
  }
  bool step() {
    switch (r.below(13)) {
      case 0: case 1: case 2: {
        uint32_t n = length();
        std::string s = some_bytes(n, r);
        note("set " + std::to_string(n) + " " + hex(s));
        ExactBytes x(s);
        Error e = f->set(n == 0 && r.chance(1, 2) ? nullptr : reinterpret_cast<const CH*>(x.p), n);   // an empty array may have no address
        bool fits = n <= N;
        R.count(fits ? "set accepted" : "set refused");
        if (e != (fits ? Error::NO_ERRORS : Error::ARRAY_FULL)) return bad("set", std::string("set of ") + std::to_string(n) + " gives " + err_name(e));
        if (fits) m = s;
        return same("set");
      }
      case 3: case 4: case 5:
        if constexpr (TEXT) {
          if (r.chance(1, 8)) {
            note("set a null pointer");
            const char* z = nullptr;
            if (r.chance(1, 2)) f->set(z); else *f = z;
            m.clear(); R.count("null C string");
            return same("set of a null C string");
          }
          std::string s = some_bytes(length(), r);
          for (auto& ch : s) if (!ch) ch = 'n';
          note("set C string " + hex(s));
          ExactBytes x(s, true);
          const char* p = reinterpret_cast<const char*>(x.p);
          if (r.chance(1, 2)) f->set(p); else *f = p;
          R.count(s.size() <= N ? "C string that fits" : "C string cut");
          m = s.substr(0, N);
          return same("set of a C string");
        }
        return true;
      case 6: {
        uint32_t i = index(), li = std::min(i, N - 1);
        note("get " + std::to_string(i));
        CH& ref = r.chance(1, 2) ? f->get(i) : (*f)[i];
        R.count(li >= m.size() ? "mutable access that grows" : "mutable access");
        if (m.size() <= li) m.resize(li + 1, '\0');
        if (char(ref) != m[li]) return bad("grown", "mutable access at " + std::to_string(i) + " does not find the expected character");
        if (!same("mutable access")) return false;
        ref = CH('a' + r.below(26));
        m[li] = char(ref);
        return same("assignment through mutable access");
      }
      case 7: note("clear"); f->clear(); m.clear(); R.count("clear"); return same("clear");
      case 8: return r.chance(1, 2) ? small(true) : small(false);
      case 9: return r.chance(1, 2) ? large(true) : large(false);
      case 10: {
        note("copy construct"); R.count("copy construction");
        std::unique_ptr<F> c(r.chance(1, 2) ? new F(*f) : new F(std::move(*f)));
        f = std::move(c);
        return same("copy construction");
      }
      case 11: {
        if (r.chance(1, 3)) { note("self assign"); F& g = *f; *f = g; R.count("self assignment"); return same("self assignment"); }
        F g;
        std::string s = some_bytes(r.below(N + 1), r);
        g.set(reinterpret_cast<const CH*>(s.data()), uint32_t(s.size()));
        note("assign the same type " + hex(s)); R.count("assignment");
        if (r.chance(1, 2)) *f = g; else *f = std::move(g);
        m = s;
        return same("assignment");
      }
      default: {
        // From the wire.
        uint32_t n = length();
        std::string s = some_bytes(n, r), b;
        uint64_t v = n;
        do { b += char((v & 0x7f) | (v > 0x7f ? 0x80 : 0)); v >>= 7; } while (v);
        bool cut = n && r.chance(1, 4);
        b += s.substr(0, cut ? r.below(n) : n);
        note("deserialize " + hex(b));
        MonRead in(b);
        Error e = f->deserialize_check_type(in, EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED);
        bool fits = n <= N;
        R.count(!fits ? "wire refused" : cut ? "wire cut" : "wire accepted");
        if (!fits) {
          if (e != Error::ARRAY_FULL) return bad("wire", std::string("a value that is too long gives ") + err_name(e));
          if (f->get_length() > N) return bad("wire", "longer than the maximum");
          m.assign(reinterpret_cast<const char*>(f->get_const()), f->get_length());   // not a stored part of the new value, see C08
          return true;
        }
        if (cut) {
          if (e == Error::NO_ERRORS) return bad("wire", "a value that is cut off is accepted");
          if (f->get_length() > N) return bad("wire", "longer than the maximum");
          m.assign(reinterpret_cast<const char*>(f->get_const()), f->get_length());
          return same("a cut off deserialization");
        }
        if (e != Error::NO_ERRORS) return bad("wire", std::string("a value that fits gives ") + err_name(e));
        m = s;
        if (!same("deserialization")) return false;
        VecWrite w;
        if (f->serialize_with_id(5, w, true) != Error::NO_ERRORS || w.d != "\x2a" + b) return bad("wire", "serializes to " + hex(w.d));
        return true;
      }
    }
  }
  bool small(bool assign);
  bool large(bool assign);
  void history(unsigned n) { for (unsigned k = 0; k < n; ++k) if (!step()) return; R.count("histories"); }
};
template <class F, class CH, uint32_t N> bool Str<F, CH, N>::small(bool assign) {
  using G = typename std::conditional<TEXT, EmbeddedProto::FieldString<3>, EmbeddedProto::FieldBytes<3>>::type;
  auto g = std::make_unique<G>();
  return from_field(*g, assign);
}
template <class F, class CH, uint32_t N> bool Str<F, CH, N>::large(bool assign) {
  using G = typename std::conditional<TEXT, EmbeddedProto::FieldString<40>, EmbeddedProto::FieldBytes<40>>::type;
  auto g = std::make_unique<G>();
  return from_field(*g, assign);
}
template <uint32_t N> void str_case(Rng& r, uint64_t i) {
  if (i & 1) { Str<EmbeddedProto::FieldString<N>, char, N> h(r, "FieldString"); h.history(unsigned(10 + r.below(40))); if (i < 3) R.sample("FieldString<" + std::to_string(N) + ">: " + h.log); }
  else { Str<EmbeddedProto::FieldBytes<N>, uint8_t, N> h(r, "FieldBytes"); h.history(unsigned(10 + r.below(40))); if (i < 3) R.sample("FieldBytes<" + std::to_string(N) + ">: " + h.log); }
}
void c16() {
  cases("string", 16000, [&](Rng& r, uint64_t i) {
    if (r.chance(1, 400)) { str_case<66000>(r, i); return; }   // more than 16 bits
    switch (r.below(7)) {
      case 0: str_case<1>(r, i); break;
      case 1: str_case<2>(r, i); break;
      case 2: str_case<3>(r, i); break;
      case 3: str_case<8>(r, i); break;
      case 4: str_case<17>(r, i); break;
      case 5: str_case<130>(r, i); break;
      default: str_case<300>(r, i); break;
    }
  });
}
Prop p16("C16", c16);

}  // namespace
}  // namespace vf
