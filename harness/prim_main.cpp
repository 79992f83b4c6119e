#include "prim.h"
namespace vf {
void run() {
  auto it = properties().find(R.property);
  if (it == properties().end()) { fprintf(stderr, "unknown property\n"); exit(2); }
  it->second();
}
}  // namespace vf
