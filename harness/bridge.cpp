#include "bridge.h"
#include <fstream>
#include <sstream>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/unknown_field_set.h>

namespace vf {
namespace gp = google::protobuf;
static gp::DescriptorPool* pool;
static gp::DynamicMessageFactory* factory;

static void to_bytes(gp::DescriptorProto* m) {
  for (auto& f : *m->mutable_field()) if (f.type() == gp::FieldDescriptorProto::TYPE_STRING) f.set_type(gp::FieldDescriptorProto::TYPE_BYTES);
  for (auto& n : *m->mutable_nested_type()) to_bytes(&n);
}
bool g_load(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  gp::FileDescriptorSet fds;
  if (!fds.ParseFromString(ss.str())) return false;
  pool = new gp::DescriptorPool();
  for (auto& f : *fds.mutable_file()) {
    if (f.syntax() == "proto3") for (auto& m : *f.mutable_message_type()) to_bytes(&m);
    if (!pool->BuildFile(f)) return false;
  }
  factory = new gp::DynamicMessageFactory(pool);
  return true;
}
static const gp::Message* prototype(const MsgDesc* d) {
  static std::map<std::string, const gp::Message*> cache;
  auto& p = cache[d->full_name];
  if (!p) {
    auto* gd = pool->FindMessageTypeByName(d->full_name);
    if (!gd) { fprintf(stderr, "no message %s in the descriptor set\n", d->full_name); exit(2); }
    p = factory->GetPrototype(gd);
  }
  return p;
}
static uint64_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t dbits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static float bitsf(uint64_t b) { uint32_t u = uint32_t(b); float f; memcpy(&f, &u, 4); return f; }
static double bitsd(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }

static void from(const gp::Message& m, MsgVal& v) {
  auto* r = m.GetReflection();
  auto* d = m.GetDescriptor();
  using F = gp::FieldDescriptor;
  for (size_t i = 0; i < v.f.size(); ++i) {
    auto* f = d->FindFieldByNumber(int(v.d->fields[i].number));
    auto& o = v.f[i];
    bool rep = f->is_repeated();
    if (!rep && f->has_presence() && !r->HasField(m, f)) continue;
    int n = rep ? r->FieldSize(m, f) : 1;
    for (int k = 0; k < n; ++k) {
#define G(T) (rep ? r->GetRepeated##T(m, f, k) : r->Get##T(m, f))
      switch (f->cpp_type()) {
        case F::CPPTYPE_INT32: o.nums.push_back(uint64_t(int64_t(G(Int32)))); break;
        case F::CPPTYPE_INT64: o.nums.push_back(uint64_t(G(Int64))); break;
        case F::CPPTYPE_UINT32: o.nums.push_back(G(UInt32)); break;
        case F::CPPTYPE_UINT64: o.nums.push_back(G(UInt64)); break;
        case F::CPPTYPE_FLOAT: o.nums.push_back(fbits(G(Float))); break;
        case F::CPPTYPE_DOUBLE: o.nums.push_back(dbits(G(Double))); break;
        case F::CPPTYPE_BOOL: o.nums.push_back(G(Bool) ? 1 : 0); break;
        case F::CPPTYPE_ENUM: o.nums.push_back(uint64_t(int64_t(G(EnumValue)))); break;
        case F::CPPTYPE_STRING: o.strs.push_back(G(String)); break;
        case F::CPPTYPE_MESSAGE: { MsgVal s(v.d->fields[i].sub); from(G(Message), s); o.msgs.push_back(std::move(s)); break; }
      }
#undef G
    }
  }
}
static void into(const MsgVal& v, gp::Message* m) {
  auto* r = m->GetReflection();
  auto* d = m->GetDescriptor();
  using F = gp::FieldDescriptor;
  for (size_t i = 0; i < v.f.size(); ++i) {
    auto* f = d->FindFieldByNumber(int(v.d->fields[i].number));
    auto& o = v.f[i];
    bool rep = f->is_repeated();
    for (size_t k = 0; k < o.size(); ++k) {
#define S(T, x) do { if (rep) r->Add##T(m, f, x); else r->Set##T(m, f, x); } while (0)
      switch (f->cpp_type()) {
        case F::CPPTYPE_INT32: S(Int32, int32_t(o.nums[k])); break;
        case F::CPPTYPE_INT64: S(Int64, int64_t(o.nums[k])); break;
        case F::CPPTYPE_UINT32: S(UInt32, uint32_t(o.nums[k])); break;
        case F::CPPTYPE_UINT64: S(UInt64, o.nums[k]); break;
        case F::CPPTYPE_FLOAT: S(Float, bitsf(o.nums[k])); break;
        case F::CPPTYPE_DOUBLE: S(Double, bitsd(o.nums[k])); break;
        case F::CPPTYPE_BOOL: S(Bool, o.nums[k] != 0); break;
        case F::CPPTYPE_ENUM: S(EnumValue, int32_t(o.nums[k])); break;
        case F::CPPTYPE_STRING: S(String, o.strs[k]); break;
        case F::CPPTYPE_MESSAGE: into(o.msgs[k], rep ? r->AddMessage(m, f) : r->MutableMessage(m, f)); break;
      }
#undef S
    }
  }
}
static size_t count_unknown(const gp::Message& m) {
  auto* r = m.GetReflection();
  size_t n = r->GetUnknownFields(m).field_count();
  std::vector<const gp::FieldDescriptor*> fs;
  r->ListFields(m, &fs);
  for (auto* f : fs) {
    if (f->cpp_type() != gp::FieldDescriptor::CPPTYPE_MESSAGE) continue;
    if (f->is_repeated()) { for (int k = 0; k < r->FieldSize(m, f); ++k) n += count_unknown(r->GetRepeatedMessage(m, f, k)); }
    else n += count_unknown(r->GetMessage(m, f));
  }
  return n;
}
bool g_parse(const MsgDesc* d, const std::string& bytes, MsgVal& out, size_t* unknown) {
  std::unique_ptr<gp::Message> m(prototype(d)->New());
  if (!m->ParseFromString(bytes)) return false;
  out = MsgVal(d);
  from(*m, out);
  normalise(out);
  if (unknown) *unknown = count_unknown(*m);
  return true;
}
std::string g_encode(const MsgVal& v) {
  std::unique_ptr<gp::Message> m(prototype(v.d)->New());
  into(v, m.get());
  std::string s;
  m->SerializeToString(&s);
  return s;
}
}  // namespace vf
