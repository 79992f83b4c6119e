// The library's own buffers behind an interface, so that drivers can choose a size at run time.
#pragma once
#include "core.h"
namespace vf {
struct FixedWriter {
  virtual ~FixedWriter() {}
  virtual EmbeddedProto::WriteBufferInterface& buf() = 0;
  virtual const uint8_t* data() = 0;
  virtual uint32_t cap() const = 0;
};
struct FixedReader {
  virtual ~FixedReader() {}
  virtual EmbeddedProto::ReadBufferInterface& buf() = 0;
  virtual uint32_t cap() const = 0;
};
// A WriteBufferFixedSize with a capacity of at least n (the smallest available one).
std::unique_ptr<FixedWriter> fixed_writer(uint32_t n);
// A ReadBufferFixedSize that holds the bytes; filled by push or by direct writes.
std::unique_ptr<FixedReader> fixed_reader(const std::string& bytes, bool direct);
// A ReadBufferSection over another buffer.
std::unique_ptr<EmbeddedProto::ReadBufferInterface> section(EmbeddedProto::ReadBufferInterface& b, uint32_t size);
uint32_t calculator_size(const IMsg& m, Error& e);
}  // namespace vf
