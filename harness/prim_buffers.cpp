// Buffers in lock step with simple models: C17 (reading) and C18 (writing).
#include <algorithm>
#include <memory>
#include "prim.h"
#include <MessageSizeCalculator.h>
#include <ReadBufferFixedSize.h>
#include <ReadBufferSection.h>
#include <WriteBufferFixedSize.h>

namespace vf {
namespace {
using EmbeddedProto::ReadBufferInterface;

struct Log {
  std::string name, log;
  void note(const std::string& s) {
    log += s + "; ";
    if (log.size() > 1200) log = "..." + log.substr(log.size() - 1000);
    set_case(name + " " + log);
  }
  bool bad(const char* key, const std::string& what) { R.violate(key, name + ": " + what); return false; }
};

// ---------------------------------------------------------------- reading
// One layer of buffers: the base (level 0) or a section of the layer below. The models are chained as the buffers are.
struct Layer {
  ReadBufferInterface* b = nullptr;
  std::unique_ptr<ReadBufferInterface> own;
  Layer* below = nullptr;
  // base
  std::string data;          // stored bytes
  size_t pos = 0;
  // section
  uint64_t left = 0;
  uint32_t max = 0;
  bool loose = false;        // the layer below ended early: the count is not defined any more
  bool at_end() const { return below ? (left == 0 || below->at_end()) : pos >= data.size(); }
  bool m_peek(uint8_t& x) const { if (!below) { if (pos >= data.size()) return false; x = uint8_t(data[pos]); return true; } return left && below->m_peek(x); }
  bool m_pop(uint8_t& x) {
    if (!below) { if (pos >= data.size()) return false; x = uint8_t(data[pos++]); return true; }
    if (!left) return false;
    bool ok = below->m_pop(x);
    if (ok) --left;
    return ok;
  }
  bool m_advance1() {
    if (!below) { if (pos >= data.size()) return false; ++pos; return true; }
    if (!left) return false;
    bool ok = below->m_advance1();
    if (ok) --left; else loose = true;
    return ok;
  }
  bool m_advance(uint64_t n) {
    if (!below) { uint64_t k = data.size() - std::min(pos, data.size()); if (n <= k) { pos += n; return true; } pos += k; return false; }
    uint64_t k = std::min(n, left);
    if (!left) return n == 0;
    bool ok = below->m_advance(k);
    if (ok) left -= k; else loose = true;
    return ok && k == n;
  }
};

template <uint32_t N> bool read_case(Rng& r, uint64_t i, bool monitored) {
  Log l;
  l.name = monitored ? "monitored" : "ReadBufferFixedSize<" + std::to_string(N) + ">";
  std::vector<std::unique_ptr<Layer>> st;
  st.emplace_back(new Layer);
  EmbeddedProto::ReadBufferFixedSize<N>* fx = nullptr;
  bool total = false;
  if (monitored) {
    st[0]->data = some_bytes(N > 65536 && r.chance(1, 2) ? N : r.below(N + 1), r);
    total = r.chance(1, 2);
    st[0]->own.reset(new MonRead(st[0]->data, total ? MonRead::TOTAL : MonRead::REMAINING));
  } else {
    fx = new EmbeddedProto::ReadBufferFixedSize<N>;
    st[0]->own.reset(fx);
    total = true;
  }
  st[0]->b = st[0]->own.get();
  unsigned steps = unsigned(10 + r.below(50));
  uint64_t delivered = 0;
  for (unsigned s = 0; s < steps; ++s) {
    if (fx && (st[0]->data.size() < N ? r.chance(1, 3) : r.chance(1, 40))) {
      Layer& y = *st[0];
      switch (r.below(6)) {
        case 0: case 1: case 2: {
          uint8_t x = uint8_t(r.next());
          l.note("push");
          bool ok = fx->push(x), want = y.data.size() < N;
          R.count(want ? "push accepted" : "push refused");
          if (ok != want) return l.bad("push", ok ? "push into a full buffer is accepted" : "push into a buffer with space is refused");
          if (want) y.data += char(x);
          break;
        }
        case 3: case 4: {
          uint32_t n = N > 65536 && r.chance(2, 3) ? uint32_t(N - y.data.size()) : uint32_t(r.below(N - y.data.size() + 1));
          std::string add = some_bytes(n, r);
          l.note("fill " + std::to_string(n) + " directly");
          if (n) memcpy(fx->get_data() + y.data.size(), add.data(), n);
          y.data += add;
          if (y.data.size() == N && r.chance(1, 2)) fx->set_bytes_written(r.chance(1, 2) ? N + 1 + uint32_t(r.below(9)) : 0xffffffffu);
          else fx->set_bytes_written(uint32_t(y.data.size()));
          R.count("direct fills");
          break;
        }
        default:
          if (st.size() > 1) break;
          l.note("clear");
          fx->clear(); y.data.clear(); y.pos = 0;
          R.count("clear");
      }
    }
    if (st.size() < 5 && r.chance(1, 8)) {
      Layer& p = *st.back();
      static const uint32_t big[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0xfffffffeu};
      uint32_t size = r.chance(1, 5) ? big[r.below(4)] : N > 65536 && r.chance(2, 3) ? uint32_t(65530 + r.below(12)) : uint32_t(r.below(N + 3));
      uint32_t have = p.below ? uint32_t(p.left) : uint32_t(total ? p.data.size() : p.data.size() - p.pos);
      l.note("section of " + std::to_string(size));
      std::unique_ptr<Layer> y(new Layer);
      y->below = &p;
      y->own.reset(new EmbeddedProto::ReadBufferSection(*p.b, size));
      y->b = y->own.get();
      y->left = y->max = std::min(size, have);
      st.push_back(std::move(y));
      R.count("sections at depth " + std::to_string(st.size() - 1));
    } else if (st.size() > 1 && r.chance(1, 15)) { l.note("leave section"); st.pop_back(); }
    size_t k = r.chance(1, 8) ? r.below(st.size()) : st.size() - 1;
    Layer& y = *st[k];
    std::string lv = "level " + std::to_string(k) + " ";
    uint8_t x = 0xa5, m = 0xa5;
    bool ok, want;
    R.eval(fnv(y.data.size() > 1000 ? y.data.substr(0, 100) : y.data, fnv(l.log.size() > 120 ? l.log.substr(l.log.size() - 120) : l.log, N)), true);
    switch (r.below(6)) {
      case 0: case 1:
        l.note(lv + "pop");
        want = y.m_pop(m); ok = y.b->pop(x);
        R.count(want ? "pop" : "pop at the end");
        if (want) ++delivered;
        if (ok != want) return l.bad("pop", std::string("pop returns ") + (ok ? "true" : "false"));
        if (x != m) return l.bad("pop", want ? "pop delivers the wrong byte" : "a failed pop changed its output");
        break;
      case 2:
        l.note(lv + "peek");
        want = y.m_peek(m); ok = y.b->peek(x);
        R.count(want ? "peek" : "peek at the end");
        if (ok != want) return l.bad("peek", std::string("peek returns ") + (ok ? "true" : "false"));
        if (x != m) return l.bad("peek", want ? "peek delivers the wrong byte" : "a failed peek changed its output");
        break;
      case 3:
        l.note(lv + "advance");
        want = y.m_advance1(); ok = y.b->advance();
        R.count(want ? "advance" : "advance at the end");
        if (ok != want) return l.bad("advance", std::string("advance() returns ") + (ok ? "true" : "false"));
        break;
      default: {
        uint64_t avail = y.below ? y.left : y.data.size() - y.pos;
        uint32_t n;
        switch (r.below(6)) {
          case 0: n = uint32_t(avail); break;
          case 1: n = uint32_t(avail + 1 + r.below(3)); break;
          case 2: { static const uint32_t big[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu}; n = r.chance(1, 2) ? big[r.below(4)] : 0u - uint32_t(r.below(N + 2)); break; }
          default: n = uint32_t(r.below(avail / 2 + 2)); break;
        }
        l.note(lv + "advance " + std::to_string(n));
        bool empty = y.at_end();
        want = y.m_advance(n); ok = y.b->advance(n);
        R.count(want ? "advance by n" : "advance by n beyond the end");
        if (n == 0 && empty) break;     // advancing by nothing at the end: either answer
        if (ok != want) return l.bad("advance", "advance(" + std::to_string(n) + ") returns " + (ok ? "true" : "false"));
      }
    }
    for (size_t q = 1; q < st.size(); ++q) if (st[q]->loose) { st.resize(q); R.count("section left after the buffer below ended early"); break; }
    for (size_t q = 0; q < st.size(); ++q) {
      Layer& z = *st[q];
      if (z.below && z.b->get_size() != z.left) return l.bad("left", "a section tells " + std::to_string(z.b->get_size()) + " bytes left instead of " + std::to_string(z.left));
      if (z.below && z.b->get_max_size() != z.max) return l.bad("max", "a section tells a size of " + std::to_string(z.b->get_max_size()) + " instead of " + std::to_string(z.max));
      if (!z.below && fx && (fx->get_size() != z.data.size() || fx->get_max_size() != N)) return l.bad("size", "the buffer tells a wrong size");
    }
    if (monitored && static_cast<MonRead*>(st[0]->own.get())->pos() != st[0]->pos) return l.bad("consumed", "the underlying buffer is at " + std::to_string(static_cast<MonRead*>(st[0]->own.get())->pos()) + " instead of " + std::to_string(st[0]->pos));
  }
  // What is left comes out completely and once.
  while (st.size() > 1) {
    Layer& y = *st.back();
    uint8_t x, m;
    if (r.chance(1, 2)) for (uint64_t n = 0; n < N + 5; ++n) {
      x = m = 0xa5;
      bool want = y.m_pop(m), ok = y.b->pop(x);
      if (ok != want || x != m) return l.bad("drain", "draining a section differs from the model");
      if (!want) break;
      ++delivered;
    }
    st.pop_back();
  }
  for (uint64_t n = 0; n < N + 5; ++n) {
    uint8_t x = 0xa5, m = 0xa5;
    bool want = st[0]->m_pop(m), ok = st[0]->b->pop(x);
    if (ok != want || x != m) return l.bad("drain", "draining the buffer differs from the model");
    if (!want) break;
    ++delivered;
  }
  R.count("bytes delivered", delivered);
  R.count("histories");
  if (i < 3) R.sample(l.name + ": " + l.log);
  return true;
}
void c17() {
  cases("read", 40000, [&](Rng& r, uint64_t i) {
    bool mon = r.chance(1, 3);
    if (r.chance(1, 100)) { read_case<66000>(r, i, mon); return; }   // more than 16 bits
    switch (r.below(7)) {
      case 0: read_case<1>(r, i, mon); break;
      case 1: read_case<2>(r, i, mon); break;
      case 2: read_case<3>(r, i, mon); break;
      case 3: read_case<8>(r, i, mon); break;
      case 4: read_case<33>(r, i, mon); break;
      case 5: read_case<128>(r, i, mon); break;
      default: read_case<300>(r, i, mon); break;
    }
  });
}
Prop p17("C17", c17);

// ---------------------------------------------------------------- writing
template <uint32_t N> bool write_case(Rng& r, uint64_t i) {
  Log l;
  l.name = "WriteBufferFixedSize<" + std::to_string(N) + ">";
  std::unique_ptr<EmbeddedProto::WriteBufferFixedSize<N>> b(new EmbeddedProto::WriteBufferFixedSize<N>);
  EmbeddedProto::WriteBufferInterface& w = *b;
  std::string m;
  unsigned steps = unsigned(5 + r.below(40));
  for (unsigned s = 0; s < steps; ++s) {
    uint32_t avail = N - uint32_t(m.size());
    bool ok = true, want = true;
    std::string all(reinterpret_cast<char*>(b->get_data()), N);
    switch (r.below(8)) {
      case 0: case 1: case 2: {
        uint8_t x = uint8_t(r.next());
        l.note("push");
        want = avail >= 1; ok = w.push(x);
        R.count(want ? "push accepted" : "push refused");
        if (want) m += char(x);
        break;
      }
      case 7:
        if (r.chance(1, 3)) { l.note("clear"); w.clear(); m.clear(); R.count("clear"); }
        break;
      default: {
        uint32_t n;
        switch (r.below(8)) {
          case 0: n = avail; break;
          case 1: n = avail + 1; break;
          case 2: n = avail ? avail - 1 : 0; break;
          case 3: { static const uint32_t big[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu}; n = r.chance(1, 2) ? big[r.below(4)] : 0u - uint32_t(1 + r.below(N + 1)); break; }
          case 4: n = N; break;
          default: n = uint32_t(r.below(avail / 2 + 2));
        }
        want = n <= avail;
        l.note("push " + std::to_string(n) + " with " + std::to_string(avail) + " free");
        std::string x = some_bytes(std::min(n, N + 8), r);   // a block that is refused is not read
        ExactBytes e(x);
        ok = w.push(n == 0 && r.chance(1, 2) ? nullptr : e.p, n);
        R.count(want ? (n == avail ? "block accepted, exact fit" : "block accepted") : (n > 0x7ffffffeu ? "huge block refused" : "block refused"));
        if (want) m += x;
      }
    }
    R.eval(fnv(m, fnv(std::to_string(N) + (l.log.size() > 60 ? l.log.substr(l.log.size() - 60) : l.log))), true);
    if (ok != want) return l.bad("push", std::string("a push with ") + std::to_string(avail) + " bytes free " + (ok ? "is accepted" : "is refused"));
    if (w.get_size() != m.size() || w.get_max_size() != N || w.get_available_size() != N - m.size()) return l.bad("size", "sizes are " + std::to_string(w.get_size()) + "/" + std::to_string(w.get_available_size()) + "/" + std::to_string(w.get_max_size()) + " instead of " + std::to_string(m.size()) + "/" + std::to_string(N - m.size()) + "/" + std::to_string(N));
    if (std::string(reinterpret_cast<char*>(b->get_data()), m.size()) != m) return l.bad("content", "the content differs");
    if (!want && std::string(reinterpret_cast<char*>(b->get_data()), N) != all) return l.bad("refused", "a refused push changed the storage");
  }
  R.count("histories");
  if (i < 3) R.sample(l.name + ": " + l.log);
  return true;
}
bool calc_case(Rng& r) {
  Log l;
  l.name = "MessageSizeCalculator";
  EmbeddedProto::MessageSizeCalculator c;
  EmbeddedProto::WriteBufferInterface& w = c;
  uint64_t n = 0;
  for (unsigned s = unsigned(5 + r.below(40)); s-- > 0;) {
    bool ok = true;
    switch (r.below(6)) {
      case 0: case 1: ok = w.push(uint8_t(r.next())); ++n; l.note("push"); break;
      case 5: if (r.chance(1, 3)) { w.clear(); n = 0; l.note("clear"); } break;
      default: {
        uint64_t k = r.chance(1, 8) ? r.next() & 0xffffffffu : r.below(300);
        if (n + k > 0xffffffffu) k = 0xffffffffu - n;
        uint8_t x[1] = {1};
        l.note("push " + std::to_string(k));
        ok = w.push(x, uint32_t(k)); n += k;
      }
    }
    if (n > 0xffffff00u) { w.clear(); n = 0; }
    R.eval(fnv(&n, sizeof n), n > 0);
    R.count("calculator steps");
    if (!ok) return l.bad("calculator", "a push is refused");
    if (w.get_size() != n) return l.bad("calculator", "counts " + std::to_string(w.get_size()) + " instead of " + std::to_string(n));
  }
  return true;
}
void c18() {
  cases("write", 60000, [&](Rng& r, uint64_t i) {
    if (r.chance(1, 400)) { write_case<66000>(r, i); return; }   // more than 16 bits
    switch (r.below(9)) {
      case 0: write_case<1>(r, i); break;
      case 1: write_case<2>(r, i); break;
      case 2: write_case<3>(r, i); break;
      case 3: write_case<8>(r, i); break;
      case 4: write_case<33>(r, i); break;
      case 5: write_case<128>(r, i); break;
      case 6: write_case<300>(r, i); break;
      default: calc_case(r); break;
    }
  });
}
Prop p18("C18", c18);
}  // namespace
}  // namespace vf
