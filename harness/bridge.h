// The reference implementation: google::protobuf with the same schema, seen through neutral values.
#pragma once
#include "core.h"
namespace vf {
// Load the schema (a serialized FileDescriptorSet). Strings are treated as bytes: EmbeddedProto does not check UTF-8.
bool g_load(const std::string& path);
// Decode with the reference implementation. False: refused. `unknown`: number of fields that were not in the schema.
bool g_parse(const MsgDesc* d, const std::string& bytes, MsgVal& out, size_t* unknown = nullptr);
std::string g_encode(const MsgVal& v);
}  // namespace vf
