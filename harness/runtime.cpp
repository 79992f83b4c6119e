// Process level parts of the harness: options, sharding of cases, crash information, results.
#include "core.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#ifndef VF_THOROUGH_FACTOR
#define VF_THOROUGH_FACTOR 20
#endif

namespace vf {
thread_local int g_in_lib = 0;
thread_local uint64_t g_lib_calls = 0;
thread_local std::string g_odd;
Report R;
std::vector<TypeEntry>& registry() { static std::vector<TypeEntry> r; return r; }

static char* g_case = nullptr;           // mapped file with the case under way
static const size_t CASE_SIZE = 16384;
static unsigned g_shard = 0, g_shards = 1;
static std::string g_only;               // "name:index": run this case only
static std::string g_prefix;             // name and index of the case under way
static uint64_t g_factor = VF_THOROUGH_FACTOR;
static uint64_t g_quick = 1;

// A case takes milliseconds; one that takes this much processor time does not end.
static void on_hang(int) {
  static const char msg[] = "SUMMARY: hang: endless the library did not come to an end\n";
  ssize_t n = write(2, msg, sizeof msg - 1);
  (void)n;
  _exit(4);
}
static void arm() {
  itimerval t = {};
  t.it_value.tv_sec = R.thorough ? 600 : 60;
  setitimer(ITIMER_PROF, &t, nullptr);
}
void set_case(const std::string& s) {
  R.current = g_prefix + " " + s;
  if (R.current.size() > 3000) R.current.resize(3000);
  if (g_case) {
    memcpy(g_case, R.current.data(), R.current.size());
    g_case[R.current.size()] = 0;
  }
}
void runaway(const char* what) {
  R.violate("runaway", std::string("the library made far more calls than the input justifies: ") + what);
  R.finish();
  fflush(stdout);
  _exit(3);
}
void for_cases(const char* name, uint64_t n, const std::function<void(Rng&, uint64_t)>& fn) {
  uint64_t base = fnv(std::string(name));
  for (uint64_t i = 0; i < n; ++i) {
    if (g_only.empty() ? i % g_shards != g_shard : g_only != std::string(name) + ":" + std::to_string(i)) continue;
    g_prefix = std::string(name) + ":" + std::to_string(i);
    set_case("");
    arm();
    Rng rng(R.seed * 1000003 + base + i * 7919);
    g_odd.clear();
    fn(rng, i);
    if (!g_odd.empty()) R.violate("accessor:" + g_odd, g_odd);
    if (R.keys.size() >= 20) return;
  }
}
void cases(const char* name, uint64_t n, const std::function<void(Rng&, uint64_t)>& fn) {
  for_cases(name, n * g_quick * (R.thorough ? g_factor : 1), fn);
}
static std::string esc(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r;
}
void Report::finish() {
  if (out_path.empty()) return;
  FILE* f = fopen(out_path.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\": %llu, \"violations\": %llu, \"counters\": {", (unsigned long long)evaluations, (unsigned long long)violations);
  bool first = true;
  for (auto& c : counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "}, \"samples\": [");
  first = true;
  for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(s).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((out_path + ".hashes").c_str(), "wb");
  if (!f) return;
  for (auto h : distinct) fwrite(&h, sizeof h, 1, f);
  fclose(f);
}
}  // namespace vf

int main(int argc, char** argv) {
  using namespace vf;
  std::string case_path;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--property") R.property = v;
    else if (a == "--seed") R.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") R.thorough = v == "thorough";
    else if (a == "--factor") g_factor = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--quick") g_quick = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--out") R.out_path = v;
    else if (a == "--case") case_path = v;
    else if (a == "--only") g_only = v;
    else if (a == "--salt") R.seed = R.seed * 31 + strtoull(v.c_str(), nullptr, 10);
    else if (a == "--shard") { g_shard = atoi(v.c_str()); g_shards = atoi(v.substr(v.find('/') + 1).c_str()); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (!case_path.empty()) {
    int fd = open(case_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, CASE_SIZE)) return 2;
    void* p = mmap(nullptr, CASE_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p != MAP_FAILED) g_case = static_cast<char*>(p);
  }
  signal(SIGPROF, on_hang);
  run();
  R.finish();
  fflush(stdout);
  return R.violations ? 3 : 0;
}
