#include "msgutil.h"

namespace vf {
void run() {
  const char* fds = getenv("VF_FDS");
  if (!fds || !g_load(fds)) { fprintf(stderr, "VF_FDS\n"); exit(2); }
  std::sort(registry().begin(), registry().end(), [](const TypeEntry& a, const TypeEntry& b) { return strcmp(a.d->inst_name, b.d->inst_name) < 0; });
  auto it = properties().find(R.property);
  if (it == properties().end()) { fprintf(stderr, "unknown property\n"); exit(2); }
  it->second();
}
}  // namespace vf
