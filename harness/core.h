// Common parts of the harness: schema tables, neutral message values, random numbers, reporting,
// monitored buffers. Nothing in here depends on how the library is implemented.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <Errors.h>
#include <ReadBufferInterface.h>
#include <WriteBufferInterface.h>

namespace vf {

using EmbeddedProto::Error;

// ---------------------------------------------------------------- schema tables (filled by gen_adapter.py)
enum Kind : uint8_t { K_DOUBLE, K_FLOAT, K_INT64, K_UINT64, K_INT32, K_FIXED64, K_FIXED32, K_BOOL, K_STRING, K_MSG,
                      K_BYTES, K_UINT32, K_ENUM, K_SFIXED32, K_SFIXED64, K_SINT32, K_SINT64 };
enum Label : uint8_t { IMPLICIT, OPTIONAL, REPEATED, ONEOF };

struct MsgDesc;
struct FieldDesc {
  const char* name;
  uint32_t number;
  Kind kind;
  Label label;
  int oneof;            // index of the oneof for ONEOF, else -1
  uint32_t rep_cap;     // capacity in elements of a repeated field
  uint32_t str_cap;     // capacity in bytes of a string or bytes field (or element)
  const MsgDesc* sub;   // for K_MSG
};
struct MsgDesc {
  const char* full_name;          // name in the .proto
  const char* inst_name;          // name of the instantiation
  std::vector<FieldDesc> fields;  // in order of declaration
  std::vector<std::string> oneofs;
  int find(uint32_t number) const {
    for (size_t i = 0; i < fields.size(); ++i) if (fields[i].number == number) return int(i);
    return -1;
  }
};
inline bool is_str(Kind k) { return k == K_STRING || k == K_BYTES; }
inline bool is_num(Kind k) { return !is_str(k) && k != K_MSG; }
inline int wire_of(Kind k) {
  switch (k) {
    case K_DOUBLE: case K_FIXED64: case K_SFIXED64: return 1;
    case K_FLOAT: case K_FIXED32: case K_SFIXED32: return 5;
    case K_STRING: case K_BYTES: case K_MSG: return 2;
    default: return 0;
  }
}

// ---------------------------------------------------------------- neutral message values in a normal form
// A field holds a list of elements. Singular: empty = absent (implicit presence: absent or default), else one element.
// Numbers are kept as the bit pattern of the C type, sign extended for signed integers of 32 bit.
struct MsgVal;
struct FieldVal {
  std::vector<uint64_t> nums;
  std::vector<std::string> strs;
  std::vector<MsgVal> msgs;
  size_t size() const { return nums.size() + strs.size() + msgs.size(); }
  bool empty() const { return size() == 0; }
  void clear() { nums.clear(); strs.clear(); msgs.clear(); }
};
struct MsgVal {
  const MsgDesc* d = nullptr;
  std::vector<FieldVal> f;
  MsgVal() = default;
  explicit MsgVal(const MsgDesc* desc) : d(desc), f(desc->fields.size()) {}
  bool all_absent() const { for (auto& x : f) if (!x.empty()) return false; return true; }
};
inline bool operator==(const MsgVal& a, const MsgVal& b);
inline bool operator==(const FieldVal& a, const FieldVal& b) { return a.nums == b.nums && a.strs == b.strs && a.msgs == b.msgs; }
inline bool operator==(const MsgVal& a, const MsgVal& b) { return a.f == b.f; }
inline bool operator!=(const MsgVal& a, const MsgVal& b) { return !(a == b); }
inline bool operator!=(const FieldVal& a, const FieldVal& b) { return !(a == b); }

// Bring a value in normal form: defaults of implicit fields and empty implicit sub-messages become absent.
inline void normalise(MsgVal& m) {
  for (size_t i = 0; i < m.f.size(); ++i) {
    auto& fv = m.f[i];
    for (auto& s : fv.msgs) normalise(s);
    if (m.d->fields[i].label == IMPLICIT) {
      if (fv.nums.size() == 1 && fv.nums[0] == 0) fv.clear();
      else if (fv.strs.size() == 1 && fv.strs[0].empty()) fv.clear();
      else if (fv.msgs.size() == 1 && fv.msgs[0].all_absent()) fv.clear();
    }
  }
}
inline std::string hex(const void* p, size_t n) {
  static const char* H = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; ++i) { uint8_t b = static_cast<const uint8_t*>(p)[i]; r += H[b >> 4]; r += H[b & 15]; }
  return r;
}
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
inline std::string unhex(const std::string& h) {
  std::string r;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(v(h[i]) * 16 + v(h[i + 1]));
  return r;
}
inline std::string show(const MsgVal& m) {
  std::string r = "{";
  char b[64];
  for (size_t i = 0; i < m.f.size(); ++i) {
    const auto& fv = m.f[i];
    if (fv.empty()) continue;
    r += m.d->fields[i].name; r += "=";
    if (m.d->fields[i].label == REPEATED) r += "[";
    for (auto n : fv.nums) { snprintf(b, sizeof b, "0x%llx,", (unsigned long long)n); r += b; }
    for (auto& s : fv.strs) { r += "'" + hex(s) + "',"; }
    for (auto& s : fv.msgs) r += show(s) + ",";
    if (m.d->fields[i].label == REPEATED) r += "]";
    r += " ";
    if (r.size() > 4000) { r += "..."; break; }
  }
  return r + "}";
}
// First difference of two values, for reports.
inline std::string diff(const MsgVal& a, const MsgVal& b, const std::string& path = "") {
  for (size_t i = 0; i < a.f.size() && i < b.f.size(); ++i) {
    if (a.f[i] == b.f[i]) continue;
    std::string p = path + "." + a.d->fields[i].name;
    const auto &x = a.f[i], &y = b.f[i];
    if (x.msgs.size() == y.msgs.size())
      for (size_t k = 0; k < x.msgs.size(); ++k)
        if (x.msgs[k] != y.msgs[k]) return diff(x.msgs[k], y.msgs[k], p + "[" + std::to_string(k) + "]");
    MsgVal ma(a.d), mb(b.d);
    ma.f[i] = x; mb.f[i] = y;
    return p + ": " + show(ma) + " versus " + show(mb);
  }
  return "equal";
}

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class C> auto& pick(C& c) { return c[below(c.size())]; }
};
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  for (size_t i = 0; i < n; ++i) { h ^= static_cast<const uint8_t*>(p)[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---------------------------------------------------------------- library call guard (used by the allocation monitor)
extern thread_local int g_in_lib;
extern thread_local uint64_t g_lib_calls;
struct LibGuard { LibGuard() { ++g_in_lib; ++g_lib_calls; } ~LibGuard() { --g_in_lib; } };
#define LIB(expr) (::vf::LibGuard(), (expr))
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)

// ---------------------------------------------------------------- reporting
struct Report {
  std::string property, out_path;
  uint64_t seed = 1;
  bool thorough = false;
  uint64_t evaluations = 0, violations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::set<std::string> keys;     // keys of violations already reported
  std::string current;            // the case under way, for crashes
  void eval(uint64_t h, bool nontrivial) { ++evaluations; if (nontrivial) distinct.insert(h); }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void sample(const std::string& s) { if (samples.size() < 5) samples.push_back(s.substr(0, 1500)); }
  // A violation. `key` identifies the kind of failure (matched with the known findings), `what` the details.
  void violate(const std::string& key, const std::string& what) {
    ++violations;
    if (keys.size() >= 20 || !keys.insert(key).second) return;
    std::string w = what;
    for (auto& c : w) if (c == '\n') c = ' ';
    printf("FAIL key=%s :: %s :: case: %s\n", key.c_str(), w.c_str(), current.c_str());
    fflush(stdout);
  }
  void finish();
};
extern Report R;
// Record the details of the case under way: when the process dies the driver script reads it from a mapped file.
void set_case(const std::string& s);
// Run fn for n cases; each gets a generator of its own that depends on seed, name and index only. Cases are divided
// over the processes of one run.
void for_cases(const char* name, uint64_t n, const std::function<void(Rng&, uint64_t)>& fn);
// As for_cases, scaled: n times --quick is the number of cases in the quick tier; the thorough tier runs `factor` times as many.
void cases(const char* name, uint64_t n, const std::function<void(Rng&, uint64_t)>& fn);
void run();   // defined by every driver

inline const char* err_name(Error e) {
  switch (e) {
    case Error::NO_ERRORS: return "NO_ERRORS"; case Error::END_OF_BUFFER: return "END_OF_BUFFER";
    case Error::BUFFER_FULL: return "BUFFER_FULL"; case Error::INVALID_WIRETYPE: return "INVALID_WIRETYPE";
    case Error::ARRAY_FULL: return "ARRAY_FULL"; case Error::INVALID_FIELD_ID: return "INVALID_FIELD_ID";
    case Error::OVERLONG_VARINT: return "OVERLONG_VARINT"; case Error::INDEX_OUT_OF_BOUND: return "INDEX_OUT_OF_BOUND";
  }
  return "UNDOCUMENTED";
}

// ---------------------------------------------------------------- monitored buffers
// Called when the library asks for far more than the input justifies: reports and ends the process.
[[noreturn]] void runaway(const char* what);

// Read buffer over an exactly sized heap block (so that ASan sees any overrun), counting every call.
class MonRead : public EmbeddedProto::ReadBufferInterface {
 public:
  enum SizeMode { REMAINING, TOTAL };
  explicit MonRead(const std::string& data, SizeMode mode = TOTAL) : n_(data.size()), mode_(mode) {
    d_.reset(static_cast<uint8_t*>(malloc(n_ ? n_ : 1)));
    if (n_) memcpy(d_.get(), data.data(), n_);
    limit_ = 64 * uint64_t(n_) + 20000;
  }
  uint32_t get_size() const override { step(); return mode_ == TOTAL ? n_ : n_ - pos_; }
  uint32_t get_max_size() const override { step(); return n_; }
  bool peek(uint8_t& b) const override { step(); if (pos_ >= n_) return false; b = d_.get()[pos_]; return true; }
  bool advance() override { step(); if (fail_now(2)) return false; if (pos_ >= n_) return false; ++pos_; return true; }
  bool advance(const uint32_t k) override {
    step();
    if (fail_now(k + 1)) return false;
    uint32_t left = n_ - pos_;
    if (k > left) { pos_ = n_; clipped_ = true; return false; }
    pos_ += k; return true;
  }
  bool pop(uint8_t& b) override {
    step();
    if (fail_now()) return false;
    if (pos_ >= n_) { ++failed_pops_; return false; }
    b = d_.get()[pos_++]; ++pops_; return true;
  }
  uint32_t pos() const { return pos_; }
  uint64_t pops() const { return pops_; }
  uint64_t steps() const { return steps_; }
  bool clipped() const { return clipped_; }
  uint64_t failed_pops() const { return failed_pops_; }
  // Fault injection: the given (0 based) pop/advance call fails without consuming anything; sticky: all later ones too.
  void fail_at(uint64_t call, bool sticky) { fail_at_ = call; sticky_ = sticky; }
  bool fault_hit() const { return fault_hit_; }
  uint32_t fault_pos() const { return fault_pos_; }          // read position at the first injected failure
  uint32_t fault_advance() const { return fault_advance_; }  // 0: it was a pop, else 1 + the count of the advance
  uint64_t calls() const { return calls_; }
 private:
  bool fail_now(uint32_t adv = 0) {
    uint64_t c = calls_++;
    if (c == fail_at_ || (sticky_ && c > fail_at_)) { if (!fault_hit_) { fault_pos_ = pos_; fault_advance_ = adv; } fault_hit_ = true; return true; }
    return false;
  }
  uint32_t fault_pos_ = 0, fault_advance_ = 0;
  void step() const { if (++steps_ > limit_) runaway("read calls"); }
  struct Free { void operator()(uint8_t* p) const { free(p); } };
  std::unique_ptr<uint8_t, Free> d_;
  uint32_t n_, pos_ = 0;
  SizeMode mode_;
  uint64_t pops_ = 0, failed_pops_ = 0, limit_ = 0, calls_ = 0, fail_at_ = ~0ull;
  bool sticky_ = false, fault_hit_ = false, clipped_ = false;
  mutable uint64_t steps_ = 0;
};

// Write buffer with an exact capacity on the heap, guard bytes and a log of the calls.
class MonWrite : public EmbeddedProto::WriteBufferInterface {
 public:
  explicit MonWrite(uint32_t cap, const std::string& prefill = "") : cap_(cap) {
    d_.reset(static_cast<uint8_t*>(malloc(cap_ ? cap_ : 1)));
    if (!prefill.empty()) { memcpy(d_.get(), prefill.data(), prefill.size()); n_ = prefill.size(); }
  }
  void clear() override { ++clears_; n_ = 0; }
  uint32_t get_size() const override { return n_; }
  uint32_t get_max_size() const override { return cap_; }
  uint32_t get_available_size() const override { return cap_ - n_; }
  bool push(const uint8_t b) override {
    if (fail_now(1)) return false;
    if (n_ >= cap_) { ++refused_; return false; }
    d_.get()[n_++] = b; return true;
  }
  bool push(const uint8_t* p, const uint32_t len) override {
    if (fail_now(len)) return false;
    if (len > cap_ - n_) { ++refused_; return false; }
    if (len) memcpy(d_.get() + n_, p, len);
    n_ += len; return true;
  }
  std::string bytes() const { return std::string(reinterpret_cast<char*>(d_.get()), n_); }
  void fail_at(uint64_t call, bool sticky) { fail_at_ = call; sticky_ = sticky; }
  bool fault_hit() const { return fault_hit_; }
  uint64_t calls() const { return calls_; }
  uint64_t refused() const { return refused_; }
  uint64_t clears() const { return clears_; }
 private:
  bool fail_now(uint32_t) {
    uint64_t c = calls_++;
    if (c == fail_at_ || (sticky_ && c > fail_at_)) { fault_hit_ = true; return true; }
    return false;
  }
  struct Free { void operator()(uint8_t* p) const { free(p); } };
  std::unique_ptr<uint8_t, Free> d_;
  uint32_t cap_, n_ = 0;
  uint64_t calls_ = 0, fail_at_ = ~0ull, refused_ = 0, clears_ = 0;
  bool sticky_ = false, fault_hit_ = false;
};

// ---------------------------------------------------------------- type erased messages
extern thread_local std::string g_odd;   // the first such thing in this case, whichever Ctx it was
struct Ctx {
  Rng rng;
  std::string anomaly;   // set when two ways to read the same thing disagree, or a capacity is not the declared one
  explicit Ctx(uint64_t seed) : rng(seed) {}
  void odd(const std::string& s) { if (anomaly.empty()) anomaly = s; if (g_odd.empty()) g_odd = s; }
};

struct IMsg {
  const MsgDesc* d = nullptr;
  virtual ~IMsg() {}
  virtual std::unique_ptr<IMsg> fresh(uint64_t poison) const = 0;
  virtual std::unique_ptr<IMsg> copy_construct(uint64_t poison) const = 0;
  virtual std::unique_ptr<IMsg> move_construct(uint64_t poison) = 0;
  virtual void assign(const IMsg& o) = 0;
  virtual void move_assign(IMsg& o) = 0;
  virtual Error serialize(EmbeddedProto::WriteBufferInterface& b) const = 0;
  virtual uint32_t serialized_size() const = 0;
  virtual Error deserialize(EmbeddedProto::ReadBufferInterface& b) = 0;
  virtual void clear() = 0;
  virtual void set_field(int fi, const FieldVal& v, Ctx& c) = 0;   // make the field hold v (empty: clear it)
  virtual void get_field(int fi, FieldVal& v, Ctx& c) const = 0;
  virtual void clear_field(int fi) = 0;
  virtual void touch_field(int fi, Ctx& c) = 0;                    // mutable access without a change
  virtual bool has_touch(int fi) const = 0;
  virtual void grow_field(int fi, uint32_t n) = 0;                 // write access to element n - 1 of a string or repeated field
  // Write one element (0: set, 1: set from a temporary, 2: through mutable access, 3: add) or one character.
  virtual void elem_field(int fi, uint32_t at, unsigned how, const FieldVal& v, Ctx& c) = 0;
  virtual int has(int fi) const = 0;                               // -1: the field has no has function
  virtual uint32_t which(int oneof) const = 0;
  virtual std::string absent_default(int fi) const = 0;            // "" if an absent optional field reads as default
  virtual const char* number_to_name(uint32_t n) const = 0;
  virtual void check_caps(Ctx& c) const = 0;
  virtual size_t object_size() const = 0;
  virtual const void* object() const = 0;
  virtual bool to_string(char* p, uint32_t n, char*& rest, uint32_t& rest_n) const = 0;
  // Make the message hold v, whatever it held before.
  void load(const MsgVal& v, Ctx& c) {
    for (size_t i = 0; i < v.f.size(); ++i) if (d->fields[i].label == ONEOF && v.f[i].empty()) clear_field(int(i));
    for (size_t i = 0; i < v.f.size(); ++i) if (d->fields[i].label != ONEOF || !v.f[i].empty()) set_field(int(i), v.f[i], c);
  }
  MsgVal dump(Ctx& c) const { MsgVal v(d); for (size_t i = 0; i < v.f.size(); ++i) get_field(int(i), v.f[i], c); normalise(v); return v; }
};
struct TypeEntry { const MsgDesc* d; std::unique_ptr<IMsg> (*make)(uint64_t poison); const char* group; };
std::vector<TypeEntry>& registry();
struct Register { Register(TypeEntry e) { registry().push_back(e); } };

// Serialize in a monitored buffer which is large enough.
inline std::string ser(const IMsg& m, Error* e = nullptr) {
  for (uint32_t cap = 8192;; cap *= 8) {
    MonWrite w(cap);
    Error r = LIB(m.serialize(w));
    if (r == Error::BUFFER_FULL && cap < 4000000) continue;
    if (e) *e = r;
    return w.bytes();
  }
}
inline Error deser(IMsg& m, const std::string& bytes, MonRead::SizeMode mode = MonRead::TOTAL) {
  MonRead r(bytes, mode);
  return LIB(m.deserialize(r));
}

}  // namespace vf
