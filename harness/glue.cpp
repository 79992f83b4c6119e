#include <algorithm>
#include <cstring>
#include "glue.h"
#include <ReadBufferFixedSize.h>
#include <ReadBufferSection.h>
#include <WriteBufferFixedSize.h>
#include <MessageSizeCalculator.h>
namespace vf {
template <uint32_t N> struct W : FixedWriter {
  EmbeddedProto::WriteBufferFixedSize<N> b;
  EmbeddedProto::WriteBufferInterface& buf() override { return b; }
  const uint8_t* data() override { return b.get_data(); }
  uint32_t cap() const override { return N; }
};
template <uint32_t N> struct Rd : FixedReader {
  EmbeddedProto::ReadBufferFixedSize<N> b;
  Rd(const std::string& s, bool direct) {
    if (direct) { if (!s.empty()) memcpy(b.get_data(), s.data(), s.size()); b.set_bytes_written(uint32_t(s.size())); }
    else for (char c : s) b.push(uint8_t(c));
  }
  EmbeddedProto::ReadBufferInterface& buf() override { return b; }
  uint32_t cap() const override { return N; }
};
std::unique_ptr<FixedWriter> fixed_writer(uint32_t n) {
#define T(N) if (n <= N) return std::unique_ptr<FixedWriter>(new W<N>());
  T(1) T(2) T(3) T(8) T(16) T(31) T(64) T(100) T(127) T(128) T(129) T(200) T(256) T(400) T(512) T(1000) T(2048) T(8192) T(65536)
#undef T
  return nullptr;
}
std::unique_ptr<FixedReader> fixed_reader(const std::string& s, bool direct) {
  uint32_t n = uint32_t(s.size());
#define T(N) if (n <= N) return std::unique_ptr<FixedReader>(new Rd<N>(s, direct));
  T(1) T(2) T(3) T(8) T(16) T(31) T(64) T(100) T(127) T(128) T(129) T(200) T(256) T(400) T(512) T(1000) T(2048) T(8192) T(65536) T(1000000) T(8000000)
#undef T
  return nullptr;
}
std::unique_ptr<EmbeddedProto::ReadBufferInterface> section(EmbeddedProto::ReadBufferInterface& b, uint32_t size) {
  return std::unique_ptr<EmbeddedProto::ReadBufferInterface>(new EmbeddedProto::ReadBufferSection(b, size));
}
uint32_t calculator_size(const IMsg& m, Error& e) {
  EmbeddedProto::MessageSizeCalculator c;
  e = m.serialize(c);
  return c.get_size();
}
}  // namespace vf
