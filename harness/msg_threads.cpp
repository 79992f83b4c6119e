// C24: threads on objects of their own, and threads that only read a common object. Built with ThreadSanitizer; this
// file itself is not instrumented, so that its own bookkeeping creates no order between the library calls.
#include <atomic>
#include <sched.h>
#include <thread>
#include "glue.h"
#include "msgutil.h"

namespace vf {

namespace {
const int THREADS = 6;
std::atomic<uint32_t> g_ticket, g_ready;
std::atomic<uint8_t> g_order[1 << 16];   // which thread did the k-th operation of a round

struct Worker {
  const TypeEntry* t;
  uint64_t seed;
  int id;
  const IMsg* common;       // only read
  std::vector<std::string> log;   // what each operation gave
  void op(Rng& d, const char* name, const std::string& result) {
    uint32_t k = g_ticket.fetch_add(1, std::memory_order_relaxed);
    if (k < sizeof g_order) g_order[k].store(uint8_t(id + 1), std::memory_order_relaxed);
    log.push_back(std::string(name) + "=" + result);
    switch (d.below(8)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < 200; ++i) {} break; default: break; }
  }
  void run(int ops) {
    Rng r(seed), delay(seed ^ 0x5555);
    Ctx c(r.next());
    auto m = t->make(r.next());
    std::string last;
    for (int i = 0; i < ops; ++i) {
      switch (r.below(common ? 10 : 8)) {
        case 0: { MsgVal v = gen_any(t->d, r); m->load(v, c); op(delay, "load", show(m->dump(c))); break; }
        case 1: { Error e; last = ser(*m, &e); op(delay, "serialize", std::string(err_name(e)) + hex(last)); break; }
        case 2: op(delay, "size", std::to_string(m->serialized_size())); break;
        case 3: {
          auto n = t->make(r.next());
          std::string b = r.chance(1, 2) ? last : encode(gen_any(t->d, r), r, random_enc(r, r.chance(1, 2)));
          for (uint64_t k = r.below(4); k-- > 0;) {   // unknown fields in front of or behind the others
            const int wires[] = {0, 1, 2, 5};
            int w = wires[r.below(4)];
            std::string u;
            put_varint(u, (uint64_t(900000 + r.below(1000)) << 3) | unsigned(w));
            if (w == 0) put_varint(u, r.next() >> r.below(64)); else if (w == 2) { put_varint(u, 5); u += "12345"; } else u += std::string(w == 1 ? 8 : 4, char(r.below(256)));
            b = r.chance(1, 2) ? u + b : b + u;
          }
          if (r.chance(1, 4) && !b.empty()) b[r.below(b.size())] = char(r.below(256));
          auto rd = fixed_reader(b, r.chance(1, 2));
          Error e = n->deserialize(rd->buf());
          op(delay, "deserialize", std::string(err_name(e)) + (e == Error::NO_ERRORS ? show(n->dump(c)) : ""));
          if (e == Error::NO_ERRORS) m->assign(*n);
          break;
        }
        case 4: {
          auto w = fixed_writer(m->serialized_size() > 3 && r.chance(1, 3) ? m->serialized_size() / 2 : m->serialized_size() + 1);
          if (!w) break;
          Error e = m->serialize(w->buf());
          op(delay, "fixed", std::string(err_name(e)) + hex(w->data(), w->buf().get_size()));
          break;
        }
        case 5: { auto n = m->copy_construct(r.next()); op(delay, "copy", show(n->dump(c))); m = std::move(n); break; }
        case 6: {
          char text[600]; char* rest; uint32_t rn;
          if (m->to_string(text, sizeof text, rest, rn)) op(delay, "text", text);
          break;
        }
        case 7:
          if (!t->d->fields.empty() && r.chance(2, 3)) m->clear_field(int(r.below(t->d->fields.size()))); else m->clear();
          op(delay, "clear", show(m->dump(c)) + presence(*m));
          break;
        case 8: { Error e; std::string b = ser(*common, &e); op(delay, "common serialize", hex(b) + std::to_string(common->serialized_size())); break; }
        default: {
          auto n = common->copy_construct(r.next());
          char text[600] = ""; char* rest; uint32_t rn;
          common->to_string(text, sizeof text, rest, rn);
          op(delay, "common read", show(common->dump(c)) + presence(*common) + show(n->dump(c)) + text);
        }
      }
    }
    if (!c.anomaly.empty()) log.push_back("anomaly " + c.anomaly);
  }
};
}  // namespace

static void c24() {
  uint64_t n = registry().size();
  int ops = R.thorough ? 60 : 25;
  cases("threads", 16 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    bool other = r.chance(1, 3);   // threads on different types share code of the base classes
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    auto common = holding(t, v, r, c);
    std::vector<Worker> par(THREADS), seq;
    for (int k = 0; k < THREADS; ++k) {
      bool same = !other || k % 2 == 0;
      par[k].t = same ? &t : &pick_type(r.next());
      par[k].common = common.get();
      par[k].seed = r.chance(1, 4) && k ? par[k - 1].seed : r.next();
      par[k].id = k;
    }
    seq = par;
    set_case(std::string(t.d->inst_name) + (other ? " with other types" : ""));
    g_ticket = 0; g_ready = 0;
    std::vector<std::thread> th;
    for (auto& w : par) th.emplace_back([&w, ops] {
      ++g_ready;
      while (g_ready.load() < THREADS) sched_yield();
      w.run(ops);
    });
    for (auto& x : th) x.join();
    uint32_t k = std::min<uint32_t>(g_ticket.load(), sizeof g_order);
    uint64_t h = fnv(std::string(t.d->inst_name)), switches = 0;
    for (uint32_t j = 0; j < k; ++j) { uint8_t o = g_order[j].load(); h = fnv(&o, 1, h); if (j && o != g_order[j - 1].load()) ++switches; }
    R.eval(h, switches > 0);
    R.count("operations", k);
    R.count("switches between threads", switches);
    R.count("type " + std::string(t.d->full_name));
    for (auto& w : seq) w.run(ops);   // alone
    for (int q = 0; q < THREADS; ++q) {
      if (par[q].log == seq[q].log) continue;
      size_t z = 0;
      while (z < par[q].log.size() && z < seq[q].log.size() && par[q].log[z] == seq[q].log[z]) ++z;
      R.violate("differs:" + std::string(par[q].t->d->full_name), "operation " + std::to_string(z) + " gave " + (z < par[q].log.size() ? par[q].log[z].substr(0, 300) : "nothing") + " among other threads, alone " + (z < seq[q].log.size() ? seq[q].log[z].substr(0, 300) : "nothing"));
    }
    MsgVal after = common->dump(c);
    normalise(v);
    if (after != v) R.violate("common", "the common message changed: " + diff(v, after));
    if (i < 3) R.sample(std::string(t.d->inst_name) + ": " + std::to_string(k) + " operations of " + std::to_string(THREADS) + " threads, " + std::to_string(switches) + " switches");
  });
}
static Prop p_c24("C24", c24);

}  // namespace vf
