// Hostile input, limits, faults: C06 to C10, C19, C23, C25, C28.
#include "msgutil.h"
#include "glue.h"

namespace vf {

// ---------------------------------------------------------------- hostile bytes
static std::string random_records(const MsgDesc* d, Rng& r, int depth) {
  std::string s;
  for (unsigned k = unsigned(1 + r.below(6)); k-- > 0;) {
    uint32_t num = !d->fields.empty() && r.chance(4, 5) ? d->fields[r.below(d->fields.size())].number : uint32_t(r.below(40));
    int fi = d->find(num);
    unsigned wt = fi >= 0 && r.chance(4, 5) ? unsigned(wire_of(d->fields[fi].kind)) : unsigned(r.below(8));
    if (fi >= 0 && d->fields[fi].label == REPEATED && r.chance(1, 2)) wt = 2;
    put_varint(s, uint64_t(num) << 3 | wt, r.chance(1, 20) ? int(r.below(3)) : 0);
    switch (wt) {
      case 0: if (r.chance(1, 10)) s += std::string(r.below(13), char(0x80 | r.below(128))); else put_varint(s, r.next() >> r.below(64)); break;
      case 1: s += gen_bytes(r.chance(9, 10) ? 8 : r.below(8), r); break;
      case 5: s += gen_bytes(r.chance(9, 10) ? 4 : r.below(4), r); break;
      case 2: {
        std::string body = fi >= 0 && d->fields[fi].sub && depth < 8 && r.chance(4, 5) ? random_records(d->fields[fi].sub, r, depth + 1) : gen_bytes(r.below(r.chance(1, 8) ? 300 : 20), r);
        uint64_t len = body.size();
        if (r.chance(1, 8)) { static const uint64_t L[] = {0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x100000000ull, 127, 128, 1000000}; len = r.chance(1, 2) ? L[r.below(8)] : r.below(2 * body.size() + 2); }
        put_varint(s, len);
        s += body;
        break;
      }
      default: s += gen_bytes(r.below(5), r);
    }
    if (s.size() > 3000) break;
  }
  return s;
}
static std::string hostile(const MsgDesc* d, Rng& r, std::string& kind) {
  std::string s;
  switch (r.below(8)) {
    case 0: kind = "random bytes"; s = gen_bytes(r.below(60), r); break;
    case 1: case 2: case 3: kind = "random records"; s = random_records(d, r, 0); break;
    case 4: kind = "cut encoding"; s = encode(gen_any(d, r), r, random_enc(r, true)); s.resize(r.below(s.size() + 1)); break;
    case 5: { kind = "bits changed"; s = encode(gen_any(d, r), r, random_enc(r, true)); for (unsigned k = unsigned(1 + r.below(4)); k-- > 0 && !s.empty();) s[r.below(s.size())] ^= char(1 << r.below(8)); break; }
    case 6: { kind = "bytes spliced"; s = encode(gen_any(d, r), r, random_enc(r, true)); for (unsigned k = unsigned(1 + r.below(4)); k-- > 0;) { size_t p = r.below(s.size() + 1); if (r.chance(1, 2)) s.insert(p, gen_bytes(1 + r.below(6), r)); else s.erase(p, r.below(6)); } break; }
    default: {
      kind = "extreme bytes"; s = encode(gen_any(d, r), r, random_enc(r, true));
      static const unsigned char X[] = {0xff, 0x80, 0x7f, 0x00, 0x81};
      for (unsigned k = unsigned(1 + r.below(6)); k-- > 0 && !s.empty();) s[r.below(s.size())] = char(X[r.below(5)]);
    }
  }
  return s;
}

// ---------------------------------------------------------------- coverage guided input
// Inputs that took the library through new code, or through known code a new number of times, are kept and changed further.
static std::vector<std::pair<uint8_t*, uint8_t*>>& counters() { static std::vector<std::pair<uint8_t*, uint8_t*>> v; return v; }
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) {
  for (auto& x : counters()) if (x.first == a) return;
  if (a != b) counters().push_back({a, b});
}
static void mutate(std::string& s, const MsgDesc* d, const std::vector<std::string>& corpus, Rng& r) {
  static const unsigned char X[] = {0xff, 0x80, 0x7f, 0x00, 0x81, 0x01, 0x10};
  for (unsigned k = unsigned(1 + r.below(4)); k-- > 0;) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(11)) {
      case 0: if (p < s.size()) s[p] ^= char(1 << r.below(8)); break;
      case 1: if (p < s.size()) s[p] = char(X[r.below(7)]); break;
      case 2: if (p < s.size()) s[p] = char(s[p] + (r.chance(1, 2) ? 1 : -1)); break;
      case 3: s.insert(p, gen_bytes(1 + r.below(4), r)); break;
      case 4: s.erase(p, 1 + r.below(4)); break;
      case 5: s.insert(r.below(s.size() + 1), s.substr(p, 1 + r.below(16))); break;
      case 6: { auto& o = corpus[r.below(corpus.size())]; s = s.substr(0, p) + o.substr(r.below(o.size() + 1)); break; }
      case 7: s += random_records(d, r, 0); break;
      case 8: s.insert(p, random_records(d, r, 0)); break;
      case 9: s += encode(gen_any(d, r), r, random_enc(r, true)); break;
      default: if (p < s.size()) s[p] = char(r.below(128)); break;
    }
  }
  if (s.size() > 700) s.resize(700);
}
void guided(uint64_t runs, const std::function<void(const TypeEntry&, const std::string&, Rng&)>& judge) {
  if (R.thorough) runs *= 60;
  for_cases("guided", registry().size(), [&](Rng& r, uint64_t i) {
    const auto& t = registry()[i];
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> corpus{""};
    std::string kind;
    for (uint64_t k = 0; k < runs; ++k) {
      std::string b = k < 8 ? hostile(t.d, r, kind) : corpus[r.below(corpus.size())];
      if (k >= 8) mutate(b, t.d, corpus, r);
      set_case(std::string(t.d->inst_name) + " guided bytes " + hex(b));
      auto m = t.make(r.next());
      for (auto& x : counters()) memset(x.first, 0, size_t(x.second - x.first));
      MonRead mr(b, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
      Error e = m->deserialize(mr);
      bool fresh_path = seen.insert(uint64_t(e) | 1ull << 63).second;
      uint64_t base = 0;
      for (auto& x : counters()) {
        const uint8_t* p = x.first;
        for (; p + 8 <= x.second; p += 8) {
          uint64_t w;
          memcpy(&w, p, 8);
          if (!w) continue;
          for (int q = 0; q < 8; ++q) {
            unsigned c = p[q];
            if (!c) continue;
            unsigned bucket = c < 4 ? c : c < 8 ? 4 : c < 16 ? 5 : c < 32 ? 6 : c < 128 ? 7 : 8;
            if (seen.insert((base + uint64_t(p - x.first) + uint64_t(q)) * 16 + bucket).second) fresh_path = true;
          }
        }
        base += uint64_t(x.second - x.first);
      }
      if (fresh_path && b.size()) corpus.push_back(b);
      judge(t, b, r);
      if (R.keys.size() >= 20) return;
    }
    R.count("guided: inputs tried", runs);
    R.count("guided: inputs kept for new coverage", corpus.size() - 1);
    R.count("guided: coverage features seen", seen.size());
  });
}

// ---------------------------------------------------------------- C06
static void after06(const TypeEntry& t, const std::string& b, Rng& r) {
  Ctx c(r.next());
  auto m = fresh(t, r);
  if (r.chance(1, 2)) m->load(gen_any(t.d, r), c);
  R.eval(fnv(b, fnv(std::string(t.d->inst_name))), !b.empty());
  Error e;
  if (r.chance(1, 2)) { auto fr = fixed_reader(b, true); e = m->deserialize(fr->buf()); }
  else {
    MonRead mr(b + "\x08\x01\x12\x03");
    auto s = section(mr, uint32_t(b.size()));
    e = m->deserialize(*s);
    if (mr.pos() > b.size()) { R.violate("beyond:" + tname(*m), "bytes after the end of the section were consumed"); return; }
  }
  std::string en = err_name(e);
  R.count("result " + en);
  if (en == "UNDOCUMENTED" || en == "BUFFER_FULL" || en == "INDEX_OUT_OF_BOUND") R.violate("code:" + en, "deserialize returned " + en);
  MsgVal v = dump(*m, c);
  std::string op = oneof_problem(*m);
  if (!op.empty()) { R.violate("oneof:" + tname(*m), op); return; }
  auto cp = m->copy_construct(r.next());
  MsgVal vc = dump(*cp, c);
  if (vc != v) R.violate("copy:" + where(v, vc), "after hostile input a copy differs: " + diff(v, vc));
  std::string out = ser(*m, &e);
  if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*m), std::string("after hostile input serialize returned ") + err_name(e)); return; }
  m->clear();
  MsgVal ve = dump(*m, c);
  if (!ve.all_absent()) R.violate("clear:" + tname(*m), "after hostile input clear leaves " + show(ve));
}
static void c06() {
  uint64_t n = registry().size();
  cases("hostile", 500 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    auto m = fresh(t, r);
    bool used = r.chance(1, 2);
    if (used) m->load(gen_any(t.d, r), c);
    std::string kind;
    for (unsigned round = unsigned(1 + r.below(2)); round-- > 0;) {
      std::string b = hostile(t.d, r, kind);
      set_case(std::string(t.d->inst_name) + " " + kind + " " + hex(b));
      R.eval(fnv(b, fnv(std::string(t.d->inst_name))), !b.empty());
      R.count("input " + kind);
      Error e;
      switch (r.below(4)) {
        case 0: { auto fr = fixed_reader(b, r.chance(1, 2)); e = m->deserialize(fr->buf()); break; }
        case 1: {   // bytes follow the message: a section ends before them
          std::string tail = gen_bytes(1 + r.below(20), r);
          MonRead mr(b + tail);
          auto s = section(mr, uint32_t(b.size()));
          e = m->deserialize(*s);
          if (mr.pos() > b.size()) { R.violate("beyond:" + tname(*m), "bytes after the end of the section were consumed"); return; }
          break;
        }
        default: {
          MonRead mr(b, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
          e = m->deserialize(mr);
          if (mr.pops() > b.size()) R.violate("reads:" + tname(*m), "more bytes were read than there are");
          R.count("buffer calls", mr.steps());
        }
      }
      std::string en = err_name(e);
      R.count("result " + en);
      if (en == "UNDOCUMENTED" || en == "BUFFER_FULL" || en == "INDEX_OUT_OF_BOUND") R.violate("code:" + en, "deserialize returned " + en);
    }
    // Still usable: read, serialize, copy, clear, use again.
    c.anomaly.clear();
    MsgVal v = dump(*m, c);
    if (!c.anomaly.empty()) { R.violate("state:" + tname(*m), c.anomaly); return; }
    std::string op = oneof_problem(*m);
    if (!op.empty()) { R.violate("oneof:" + tname(*m), op); return; }
    Error e;
    std::string out = ser(*m, &e);
    if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*m), std::string("after hostile input serialize returned ") + err_name(e)); return; }
    auto cp = m->copy_construct(r.next());
    MsgVal vc = dump(*cp, c);
    if (vc != v) R.violate("copy:" + where(v, vc), "after hostile input a copy differs: " + diff(v, vc));
    m->clear();
    MsgVal ve = dump(*m, c);
    if (!ve.all_absent()) R.violate("clear:" + tname(*m), "after hostile input clear leaves " + show(ve));
    MsgVal w = gen_any(t.d, r);
    std::string wb = encode(w, r);
    e = deser(*m, wb);
    MsgVal vr = dump(*m, c);
    if (e != Error::NO_ERRORS || vr != w) R.violate("reuse:" + where(w, vr), std::string("after hostile input and clear a valid message gives ") + err_name(e) + " " + diff(w, vr));
    if (i < 3) R.sample(R.current);
  });
  guided(150, after06);
}
static Prop p06("C06", c06);

// ---------------------------------------------------------------- C07
static void judge07(const TypeEntry& t, const std::string& b, Rng& r, const char* kind) {
  Ref ref = RefDec::decode(t.d, b);
  if (ref.st == Ref::AMBIGUOUS) { R.count("not decided by the specification"); return; }
  if (ref.st == Ref::OK) { R.count("well-formed"); return; }
  if (ref.reason.compare(0, 5, "ARRAY") == 0 || ref.reason == "STRING_LENGTH") { R.count("too long (C08)"); return; }
  set_case(std::string(t.d->inst_name) + " " + kind + " " + ref.reason + " bytes " + hex(b));
  R.eval(fnv(b, fnv(std::string(t.d->inst_name))), true);
  R.count(ref.reason + " at depth " + std::to_string(std::min(ref.depth, 6)));
  auto m = fresh(t, r);
  Error e;
  if (r.chance(1, 3)) { auto fr = fixed_reader(b, true); e = m->deserialize(fr->buf()); }
  else e = deser(*m, b, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
  if (e == Error::NO_ERRORS) R.violate("accept:" + ref.reason, "malformed input is accepted (depth " + std::to_string(ref.depth) + ")");
  else if (!ref.allows(e) && ref.reason != "TRUNC_UNKNOWN_LEN") {
    std::string al;
    for (auto x : ref.allowed) al += std::string(al.empty() ? "" : " or ") + err_name(x);
    R.violate("code:" + ref.reason + ":" + err_name(e), std::string("reported with ") + err_name(e) + " instead of " + al);
  }
}
static void c07() {
  uint64_t n = registry().size();
  // Every prefix of encodings.
  cases("prefix", 40 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    EncOpt o = random_enc(r, r.chance(1, 2));
    o.repeat = false;
    std::string b = encode(gen_any(t.d, r), r, o);
    if (b.size() > 400) b.resize(400);
    for (size_t k = 0; k < b.size(); ++k) judge07(t, b.substr(0, k), r, "prefix");
    R.count("encodings cut at every byte");
  });
  // One defect at a random place and depth.
  cases("defect", 300 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    EncOpt o = random_enc(r, r.chance(1, 4));
    o.repeat = false;
    std::vector<Rec> tree;
    if (!parse_tree(t.d, encode(gen_any(t.d, r), r, o), tree)) harness_error("parse_tree");
    std::vector<Level> ls;
    levels(tree, t.d, 0, ls);
    auto& l = ls[r.chance(1, 3) ? 0 : r.below(ls.size())];
    std::string s;
    const char* kind = "";
    auto known = [&]() -> const FieldDesc* { return l.d->fields.empty() ? nullptr : &l.d->fields[r.below(l.d->fields.size())]; };
    uint32_t unk;
    do unk = 1 + uint32_t(r.below(r.chance(1, 2) ? 60 : 0x1fffffff)); while (l.d->find(unk) >= 0);
    bool at_end = false;
    switch (r.below(9)) {
      case 0: { kind = "damaged field"; auto* f = known(); if (!f || damaged(*f, r, s).empty()) return; at_end = r.chance(1, 2); break; }
      case 1: { kind = "wire type 6 or 7"; uint32_t num = r.chance(1, 2) || l.d->fields.empty() ? unk : known()->number; put_varint(s, uint64_t(num) << 3 | (6 + r.below(2))); s += gen_bytes(r.below(9), r); break; }
      case 2: { kind = "field number zero"; put_varint(s, r.below(6), r.chance(1, 2) ? int(r.below(4)) : 0); s += gen_bytes(r.below(9), r); break; }
      case 3: { kind = "overlong tag"; s = std::string(5 + r.below(6), char(0x80 | (1 + r.below(127)))); s += '\1'; break; }
      case 4: { kind = "overlong varint"; auto* f = known(); uint32_t num = f && wire_of(f->kind) == 0 && r.chance(3, 4) ? f->number : unk; put_varint(s, uint64_t(num) << 3); s += std::string(10 + r.below(4), char(0x80 | r.below(128))); s += '\1'; break; }
      case 5: { kind = "wrong wire type"; auto* f = known(); if (!f) return; static const unsigned W[] = {0, 1, 2, 3, 4, 5}; unsigned w = W[r.below(6)]; put_varint(s, uint64_t(f->number) << 3 | w); if (w == 2) { put_varint(s, 4); s += gen_bytes(4, r); } else if (w == 0) s += '\1'; else s += gen_bytes(w == 1 ? 8 : 4, r); break; }
      case 6: { kind = "unknown field cut off"; at_end = true; static const unsigned W[] = {0, 1, 2, 5}; unsigned w = W[r.below(4)]; put_varint(s, uint64_t(unk) << 3 | w); if (w == 0) s += std::string(r.below(9), '\x91'); else if (w == 2) { if (r.chance(1, 2)) s += '\x84'; else { put_varint(s, 3 + r.below(300)); s += gen_bytes(r.below(3), r); } } else s += gen_bytes(r.below(w == 1 ? 8 : 4), r); break; }
      case 7: {   // packed data that ends inside an element
        kind = "packed cut off"; auto* f = known();
        for (int k = 0; k < 20 && f && !(f->label == REPEATED && is_num(f->kind)); ++k) f = known();
        if (!f || f->label != REPEATED || !is_num(f->kind)) return;
        std::string body;
        Enc e(r, EncOpt());
        for (unsigned k = unsigned(r.below(f->rep_cap)); k-- > 0;) e.payload(body, f->kind, gen_num(f->kind, r));
        if (wire_of(f->kind) == 0) body += std::string(1 + r.below(9), '\x83'); else body += gen_bytes(1 + r.below(wire_of(f->kind) == 1 ? 7 : 3), r);
        put_varint(s, uint64_t(f->number) << 3 | 2); put_varint(s, body.size()); s += body;
        for (auto& x : *l.recs) if (x.num == f->number) { x.raw = true; x.payload.clear(); }
        break;
      }
      default: {  // a length that is too large for what encloses it
        kind = "length beyond the end"; auto* f = known();
        for (int k = 0; k < 20 && f && wire_of(f->kind) != 2 && f->label != REPEATED; ++k) f = known();
        if (!f) return;
        at_end = true;
        put_varint(s, uint64_t(f->number) << 3 | 2);
        std::string body = f->sub ? encode(gen_value(f->sub, r), r) : gen_bytes(r.below(4), r);
        put_varint(s, body.size() + 1 + (r.chance(1, 4) ? r.below(5) : r.next() & 0x3fffffff)); s += body;
      }
    }
    size_t at = at_end ? l.recs->size() : r.below(l.recs->size() + 1);
    l.recs->insert(l.recs->begin() + long(at), raw(s));
    std::string b = emit(tree);
    R.count(std::string("defect: ") + kind);
    judge07(t, b, r, kind);
    if (i < 4) R.sample(R.current);
  });
  cases("hostile", 100 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    std::string kind, b = hostile(t.d, r, kind);
    judge07(t, b, r, kind.c_str());
  });
  guided(300, [](const TypeEntry& t, const std::string& b, Rng& r) { judge07(t, b, r, "guided"); });
}
static Prop p07("C07", c07);

// ---------------------------------------------------------------- C08
struct Spot { FieldVal* v; const FieldDesc* f; int depth; };
static void spots(MsgVal& v, int depth, std::vector<Spot>& out) {
  for (size_t i = 0; i < v.f.size(); ++i) {
    const auto& f = v.d->fields[i];
    if (f.label == REPEATED) out.push_back({&v.f[i], &f, depth});
    else if (is_str(f.kind) && (f.label != ONEOF || !v.f[i].empty())) out.push_back({&v.f[i], &f, depth});
    for (auto& s : v.f[i].msgs) spots(s, depth + 1, out);
  }
}
static void limits(const char* name, uint64_t count) {
  uint64_t n = registry().size();
  cases(name, count * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    std::vector<Spot> sp;
    spots(v, 0, sp);
    if (sp.empty()) return;
    Spot s = sp[r.below(sp.size())];
    int extra = int(r.below(3)) - 1;   // one less, exactly, one more (or many more)
    if (extra == 1 && r.chance(1, 3)) extra = int(1 + r.below(200));
    bool str = is_str(s.f->kind) && (s.f->label != REPEATED || r.chance(1, 2));
    std::string what;
    if (str) {
      size_t len = size_t(std::max<int64_t>(0, int64_t(s.f->str_cap) + extra));
      // Far too long, but small in the lower bits.
      if (r.chance(1, 12)) { len = (r.chance(1, 3) ? 65536 : 256) * (1 + r.below(3)) + r.below(s.f->str_cap + 1); extra = int(len) - int(s.f->str_cap); }
      if (s.f->label == REPEATED) { if (s.v->strs.empty()) s.v->strs.push_back(""); s.v->strs[r.below(s.v->strs.size())] = gen_bytes(len, r); }
      else s.v->strs.assign(1, gen_bytes(len, r));
      what = "string";
    } else {
      size_t cnt = size_t(std::max<int64_t>(0, int64_t(s.f->rep_cap) + (extra > 5 ? 5 : extra)));
      if (!s.f->sub && r.chance(1, 12)) { cnt = (is_num(s.f->kind) && r.chance(1, 8) ? 65536 : 256) * (1 + r.below(2)) + r.below(s.f->rep_cap + 1); extra = int(cnt) - int(s.f->rep_cap); }
      FieldVal x;
      while (x.size() < cnt) {
        if (is_num(s.f->kind)) x.nums.push_back(gen_num(s.f->kind, r));
        else if (is_str(s.f->kind)) x.strs.push_back(gen_bytes(gen_len(s.f->str_cap, r), r));
        else x.msgs.push_back(gen_value(s.f->sub, r, GenOpt{20, false}));
      }
      *s.v = x;
      what = "array";
    }
    EncOpt o;
    o.pad = r.chance(1, 4); o.shuffle = r.chance(1, 2); o.split = r.chance(1, 2);
    std::string b = encode(v, r, o);
    auto m = fresh(t, r);
    MsgVal old(t.d);
    if (r.chance(1, 3)) { old = gen_value(t.d, r, GenOpt{30, false}); m->load(old, c); old = dump(*m, c); }
    Ref ref = RefDec::decode_into(old, b);
    set_case(std::string(t.d->inst_name) + " " + what + " " + s.f->name + " limit" + (extra < 0 ? "" : "+") + std::to_string(extra) + " bytes " + hex(b));
    if (ref.st == Ref::AMBIGUOUS) return;
    R.eval(fnv(b, fnv(std::string(t.d->inst_name))), true);
    MonRead mr(b);
    Error e = m->deserialize(mr);
    c.anomaly.clear();
    MsgVal got = dump(*m, c);
    if (!c.anomaly.empty()) { R.violate("length:" + tname(*m), c.anomaly); return; }
    std::string cls = what + std::string(" at depth ") + std::to_string(std::min(s.depth, 5));
    if (ref.st == Ref::OK) {
      R.count("fits: " + cls);
      if (e != Error::NO_ERRORS) { R.violate(std::string("refused:") + what + ":" + err_name(e), std::string("data that fits is refused with ") + err_name(e)); return; }
      if (got != ref.v) { R.violate("value:" + where(ref.v, got), "data that fits is stored as " + diff(ref.v, got)); return; }
    } else {
      R.count(ref.reason + ": " + cls);
      if (e == Error::NO_ERRORS) { R.violate("accepted:" + ref.reason, "too much data for " + std::string(s.f->name) + " is accepted"); return; }
      if (!ref.allows(e)) { R.violate("code:" + ref.reason + ":" + err_name(e), std::string("too much data is reported with ") + err_name(e)); return; }
      if (ref.reason == "STRING_LENGTH" && s.depth == 0 && ref.depth == 0) {
        // The rejected value must not be stored in part.
        int fi = t.d->find(s.f->number);
        const auto& g = got.f[fi];
        auto ok_value = [&](const std::string& x) {
          if (x.empty()) return true;
          for (auto& y : old.f[fi].strs) if (x == y) return true;
          for (auto& y : s.v->strs) if (x == y && y.size() <= s.f->str_cap) return true;
          return false;
        };
        for (auto& x : g.strs) if (!ok_value(x)) { R.violate(std::string("partial:") + t.d->full_name + "." + s.f->name, "part of a rejected value is stored: " + hex(x)); return; }
        R.count("rejected string inspected");
      }
    }
    if (i < 3) R.sample(R.current);
  });
}
static void judge08(const TypeEntry& t, const std::string& b, Rng& r) {
  Ref ref = RefDec::decode(t.d, b);
  bool full = ref.st == Ref::ERR && (ref.reason.compare(0, 5, "ARRAY") == 0 || ref.reason == "STRING_LENGTH");
  if (ref.st != Ref::OK && !full) return;
  Ctx c(r.next());
  R.eval(fnv(b, fnv(std::string(t.d->inst_name))), true);
  auto m = fresh(t, r);
  Error e = deser(*m, b);
  R.count(full ? "guided: too much data" : "guided: data that fits");
  if (full && e == Error::NO_ERRORS) R.violate("accepted:" + ref.reason, "too much data is accepted");
  else if (full && !ref.allows(e)) R.violate("code:" + ref.reason + ":" + err_name(e), std::string("too much data is reported with ") + err_name(e));
  else if (!full && e == Error::ARRAY_FULL) R.violate("refused:guided", "data that fits is refused");
  dump(*m, c);
}
static void c08() { limits("limits", 400); guided(300, judge08); }
static Prop p08("C08", c08);

// ---------------------------------------------------------------- C23
static void c23() {
  for_cases("capacities", registry().size(), [&](Rng& r, uint64_t i) {
    const auto& t = registry()[i];
    Ctx c(r.next());
    set_case(std::string("capacities of ") + t.d->inst_name);
    auto m = fresh(t, r);
    m->check_caps(c);
    std::function<uint64_t(const MsgDesc*)> count = [&](const MsgDesc* d) { uint64_t k = 0; for (auto& f : d->fields) { k += f.rep_cap ? 1 : 0; k += f.str_cap ? 1 : 0; if (f.sub) k += count(f.sub); } return k; };
    R.count("capacities compared", count(t.d));
    R.eval(fnv(std::string(t.d->inst_name)), count(t.d) > 0);
    if (!c.anomaly.empty()) R.violate("setters:" + tname(*m), c.anomaly);
    R.sample(R.current);
  });
  limits("wire", 100);
}
static Prop p23("C23", c23);

// ---------------------------------------------------------------- C09
static void c09() {
  uint64_t n = registry().size();
  cases("space", 25 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    auto m = holding(t, v, r, c);
    Error e;
    std::string full = ser(*m, &e);
    if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*m), "serialize fails in a large buffer"); return; }
    std::vector<uint32_t> free;
    uint32_t L = uint32_t(full.size());
    if (L <= 200) for (uint32_t k = 0; k <= L + 2; ++k) free.push_back(k);
    else { for (uint32_t k = 0; k < 40; ++k) free.push_back(k); for (uint32_t k = L - 40; k <= L + 2; ++k) free.push_back(k); for (int k = 0; k < 80; ++k) free.push_back(uint32_t(r.below(L))); }
    for (uint32_t f : free) {
      std::string prefill = gen_bytes(r.chance(1, 2) ? 0 : r.below(20), r);
      set_case(std::string(t.d->inst_name) + " value " + show(v) + " needs " + std::to_string(L) + " bytes, free " + std::to_string(f) + " after " + std::to_string(prefill.size()));
      R.eval(fnv(full, fnv(std::string(t.d->inst_name), f)), L > 0);
      std::string got;
      bool own = r.chance(1, 2);
      if (own) {
        MonWrite w(uint32_t(prefill.size()) + f, prefill);
        e = m->serialize(w);
        got = w.bytes();
        if (w.clears()) { R.violate("clears:" + tname(*m), "serialize cleared the buffer"); return; }
      } else {
        auto w = fixed_writer(uint32_t(prefill.size()) + f);
        if (!w) continue;
        std::string pre = gen_bytes(w->cap() - f, r);
        prefill = pre;
        for (size_t k = 0; k < pre.size(); ++k) if (!w->buf().push(uint8_t(pre[k]))) { R.count("prefill refused"); return; }
        e = m->serialize(w->buf());
        uint32_t sz = w->buf().get_size();
        if (sz > w->cap()) { R.violate("size:fixed", "the buffer reports more bytes than it can hold"); return; }
        got.assign(reinterpret_cast<const char*>(w->data()), sz);
      }
      const char* which = own ? "own" : "fixed";
      if (got.compare(0, prefill.size(), prefill) != 0 || got.size() < prefill.size()) { R.violate(std::string("before:") + which, "bytes that were in the buffer changed"); return; }
      std::string added = got.substr(prefill.size());
      if (f >= L) {
        R.count(std::string(f == L ? "exact fit " : "ample ") + which);
        if (e != Error::NO_ERRORS) { R.violate(std::string("refused:") + which + ":" + (f == L ? "exact" : "ample"), std::string("serialize returned ") + err_name(e) + " although the encoding fits"); return; }
        if (added != full) { R.violate(std::string("bytes:") + which, "other bytes than in a large buffer"); return; }
      } else {
        R.count(std::string("too small ") + which);
        if (e != Error::BUFFER_FULL) { R.violate(std::string("code:") + which + ":" + err_name(e), std::string("serialize returned ") + err_name(e) + " although the encoding does not fit"); return; }
        if (full.compare(0, added.size(), added) != 0 || added.size() > f) { R.violate(std::string("prefix:") + which, "after a failure the buffer holds " + hex(added) + " which is not a prefix of " + hex(full)); return; }
      }
    }
    if (i < 3) R.sample(R.current);
  });
}
static Prop p09("C09", c09);

// ---------------------------------------------------------------- C10
void c10_history();
static void c10() {
  uint64_t n = registry().size();
  cases("size", 400 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    auto m = fresh(t, r);
    switch (r.below(3)) {
      case 0: { std::string b = encode(gen_any(t.d, r), r, random_enc(r, true)); if (r.chance(1, 4)) b.resize(r.below(b.size() + 1)); set_case(std::string(t.d->inst_name) + " received " + hex(b)); deser(*m, b); break; }
      default: { MsgVal v = gen_any(t.d, r); set_case(std::string(t.d->inst_name) + " value " + show(v)); m = holding(t, v, r, c); }
    }
    uint32_t before = m->serialized_size();
    Error e, e2;
    std::string b = ser(*m, &e);
    uint32_t calc = calculator_size(*m, e2);
    R.eval(fnv(b, fnv(std::string(t.d->inst_name))), !b.empty());
    R.count("bytes", b.size());
    if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*m), "serialize fails in a large buffer"); return; }
    if (before != b.size()) { R.violate("size:" + tname(*m), "serialized_size() is " + std::to_string(before) + " but " + std::to_string(b.size()) + " bytes are written"); return; }
    if (e2 != Error::NO_ERRORS || calc != b.size()) { R.violate("calculator:" + tname(*m), "the size calculator gives " + std::to_string(calc) + " for " + std::to_string(b.size()) + " bytes"); return; }
    std::string p = scan(t.d, b, false);
    if (!p.empty()) { R.violate("prefix:" + tname(*m), "the encoding does not nest: " + p + " in " + hex(b)); return; }
    if (m->serialized_size() != before) R.violate("again:" + tname(*m), "serialized_size() changed");
    if (i < 3) R.sample(R.current + " -> " + std::to_string(before));
  });
  c10_history();
}
static Prop p10("C10", c10);

// ---------------------------------------------------------------- C25
static void c25() {
  uint64_t n = registry().size();
  cases("push", 30 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    auto m = holding(t, v, r, c);
    std::string full = ser(*m);
    MonWrite probe(uint32_t(full.size()) + 64);
    m->serialize(probe);
    uint64_t calls = probe.calls();
    for (uint64_t k = 0; k < calls; ++k) {
      if (calls > 300 && k > 60 && k + 60 < calls && !r.chance(100, unsigned(calls))) continue;
      for (int sticky = 0; sticky < 2; ++sticky) {
        set_case(std::string(t.d->inst_name) + " value " + show(v) + " push " + std::to_string(k) + " of " + std::to_string(calls) + " fails" + (sticky ? " and all later ones" : ""));
        MonWrite w(uint32_t(full.size()) + 64);
        w.fail_at(k, sticky);
        Error e = m->serialize(w);
        R.eval(fnv(full, fnv(std::string(t.d->inst_name), k * 2 + unsigned(sticky))), true);
        R.count(sticky ? "lasting push failures" : "single push failures");
        if (!w.fault_hit()) { R.count("fault not reached"); continue; }
        if (e != Error::BUFFER_FULL) { R.violate(std::string("push:") + err_name(e), std::string("a failed push gives ") + err_name(e)); return; }
      }
    }
    if (i < 3) R.sample(R.current);
  });
  cases("pop", 30 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    MsgVal v = gen_any(t.d, r);
    EncOpt o = random_enc(r, true);
    o.repeat = false;
    std::string b = encode(v, r, o);
    if (RefDec::decode(t.d, b).st != Ref::OK) return;
    // Positions where a top level field starts: there a failed read is the end of the message.
    std::set<uint32_t> starts;
    std::map<uint32_t, bool> unknown_len;   // start of a field -> is an unknown length-delimited one
    for (uint32_t p = 0; p < b.size();) {
      starts.insert(p);
      std::vector<Rec> one;
      size_t q = p;
      uint64_t tag, len;
      uint32_t s = p;
      get_varint(b, q, tag);
      switch (tag & 7) { case 0: get_varint(b, q, len); break; case 1: q += 8; break; case 5: q += 4; break; default: get_varint(b, q, len); q += len; }
      (void)s;
      p = uint32_t(q);
    }
    starts.insert(uint32_t(b.size()));
    auto probe_m = fresh(t, r);
    MonRead probe(b);
    if (probe_m->deserialize(probe) != Error::NO_ERRORS) { R.count("valid input refused"); return; }
    uint64_t calls = probe.calls();
    for (uint64_t k = 0; k < calls; ++k) {
      if (calls > 300 && k > 60 && k + 60 < calls && !r.chance(100, unsigned(calls))) continue;
      for (int sticky = 0; sticky < 2; ++sticky) {
        set_case(std::string(t.d->inst_name) + " bytes " + hex(b) + " read " + std::to_string(k) + " of " + std::to_string(calls) + " fails" + (sticky ? " and all later ones" : ""));
        MonRead mr(b, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
        mr.fail_at(k, sticky);
        auto m = fresh(t, r);
        Error e = m->deserialize(mr);
        R.eval(fnv(b, fnv(std::string(t.d->inst_name), k * 2 + unsigned(sticky))), true);
        if (!mr.fault_hit()) { R.count("fault not reached"); continue; }
        if (starts.count(mr.fault_pos())) { R.count("failure between fields"); continue; }
        R.count(sticky ? "lasting read failures" : "single read failures");
        if (e == Error::NO_ERRORS) R.violate(mr.fault_advance() ? "read:skip" : "read:pop", mr.fault_advance() ? "a failed skip of an unknown field is not reported" : "a failed read inside a field is not reported");
      }
    }
    if (i < 3) R.sample(R.current);
  });
}
static Prop p25("C25", c25);

// ---------------------------------------------------------------- C28
static void c28() {
  uint64_t n = registry().size();
  cases("buffers", 1500 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    std::string kind, b;
    if (r.chance(1, 2)) { kind = "valid"; b = encode(gen_any(t.d, r), r, random_enc(r, true)); }
    else b = hostile(t.d, r, kind);
    set_case(std::string(t.d->inst_name) + " " + kind + " " + hex(b));
    R.eval(fnv(b, fnv(std::string(t.d->inst_name))), !b.empty());
    std::string first, first_name;
    Error first_e = Error::NO_ERRORS;
    bool clipped = false;   // an unknown field reached beyond the end of the data
    uint64_t cs = r.next();
    auto check = [&](const std::string& name, const std::function<Error(IMsg&)>& f) {
      auto m = fresh(t, r);
      Error e = f(*m);
      Ctx c(cs);
      MsgVal v = dump(*m, c);
      std::string s = std::string(err_name(e)) + " " + show(v) + " " + presence(*m) + " " + hex(ser(*m));
      R.count("buffer " + name);
      if (first_name.empty()) { first = s; first_name = name; first_e = e; R.count(std::string("result ") + err_name(e)); return true; }
      if (s == first) return true;
      auto either = [](Error x) { return x == Error::NO_ERRORS || x == Error::END_OF_BUFFER; };
      bool skip = clipped && either(e) && either(first_e);
      R.violate(skip ? "skip-beyond-end" : "buffer:" + name, "from " + first_name + ": " + first.substr(0, 400) + " and from " + name + ": " + s.substr(0, 400));
      return skip;
    };
    if (!check("monitored, total size", [&](IMsg& m) { MonRead mr(b, MonRead::TOTAL); Error e = m.deserialize(mr); clipped = mr.clipped(); return e; })) return;
    if (!check("monitored, remaining size", [&](IMsg& m) { return deser(m, b, MonRead::REMAINING); })) return;
    if (!check("fixed size", [&](IMsg& m) { auto f = fixed_reader(b, true); return m.deserialize(f->buf()); })) return;
    if (!check("fixed size, pushed", [&](IMsg& m) { auto f = fixed_reader(b, false); return m.deserialize(f->buf()); })) return;
    std::string tail = gen_bytes(r.below(12), r), head = gen_bytes(r.below(5), r);
    if (r.chance(1, 2)) tail = encode(gen_any(t.d, r), r) + tail;
    for (int kindb = 0; kindb < 2; ++kindb) {
      if (!check(kindb ? "section of fixed size" : "section of monitored", [&](IMsg& m) {
            std::unique_ptr<FixedReader> f;
            std::unique_ptr<MonRead> mr;
            if (kindb) f = fixed_reader(head + b + tail, true); else mr.reset(new MonRead(head + b + tail, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING));
            EmbeddedProto::ReadBufferInterface& u = kindb ? f->buf() : *mr;
            uint8_t x = 0;
            for (size_t k = 0; k < head.size(); ++k) u.pop(x);
            auto s = section(u, uint32_t(b.size()));
            Error e = m.deserialize(*s);
            if (mr && mr->pos() > head.size() + b.size()) R.violate("section:beyond", "bytes after the section were consumed");
            if (e == Error::NO_ERRORS) {   // the rest follows directly
              std::string rest;
              while (u.pop(x)) rest += char(x);
              if (rest != tail) R.violate("section:rest", "after decoding a section the underlying buffer continues with " + hex(rest) + " instead of " + hex(tail));
            }
            return e;
          })) return;
    }
    if (!check("section of a section", [&](IMsg& m) {
          MonRead mr(b + tail);
          auto s1 = section(mr, uint32_t(b.size() + r.below(tail.size() + 1)));
          auto s2 = section(*s1, uint32_t(b.size()));
          return m.deserialize(*s2);
        })) return;
    if (i < 3) R.sample(R.current + " -> " + first.substr(0, 200));
  });
  // Messages one after the other in one buffer.
  cases("stream", 60 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    std::vector<MsgVal> vs;
    std::vector<std::string> bs;
    std::string all;
    for (unsigned k = unsigned(2 + r.below(4)); k-- > 0;) { vs.push_back(gen_any(t.d, r)); EncOpt o = random_enc(r, true); o.repeat = false; bs.push_back(encode(vs.back(), r, o)); all += bs.back(); }
    set_case(std::string(t.d->inst_name) + " stream " + hex(all));
    R.eval(fnv(all, fnv(std::string(t.d->inst_name))), true);
    bool fixed = r.chance(1, 2);
    std::unique_ptr<FixedReader> f;
    std::unique_ptr<MonRead> mr;
    if (fixed) f = fixed_reader(all, r.chance(1, 2)); else mr.reset(new MonRead(all));
    EmbeddedProto::ReadBufferInterface& u = fixed ? f->buf() : *mr;
    bool reuse = r.chance(1, 2);
    auto m = fresh(t, r);
    for (size_t k = 0; k < vs.size(); ++k) {
      if (reuse) m->clear(); else m = fresh(t, r);
      auto s = section(u, uint32_t(bs[k].size()));
      Error e = m->deserialize(*s);
      Ctx c(r.next());
      MsgVal got = dump(*m, c);
      R.count("messages of streams");
      if (e != Error::NO_ERRORS || got != vs[k]) { R.violate("stream", "message " + std::to_string(k) + " of a stream gives " + err_name(e) + " " + diff(vs[k], got)); return; }
    }
  });
}
static Prop p28("C28", c28);

// ---------------------------------------------------------------- C19
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static volatile uint64_t g_allocs = 0, g_alloc_bytes = 0, g_outside = 0;
static void on_malloc(const volatile void*, size_t n) { if (g_in_lib > 0) { g_allocs = g_allocs + 1; g_alloc_bytes = g_alloc_bytes + n; } else g_outside = g_outside + 1; }
static void on_free(const volatile void*) {}
static void c19() {
  if (!__sanitizer_install_malloc_and_free_hooks || !__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) harness_error("no malloc hooks");
  // The monitor has to see an allocation.
  { LibGuard g; volatile char* p = new char[10]; delete[] const_cast<char*>(p); }
  if (!g_allocs) harness_error("the allocation monitor is blind");
  g_allocs = 0;
  {
    // What the C library does inside snprintf is not the library's doing.
    char big[2000];
    LibGuard g;
    for (double x : {1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1.0 / 3}) snprintf(big, sizeof big, "%lf", x);
  }
  if (g_allocs) harness_error("snprintf allocates here");
  uint64_t n = registry().size();
  cases("alloc", 250 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    uint64_t before = g_allocs, calls = g_lib_calls;
    std::string step;
    auto check = [&](const char* what) {
      R.count(std::string("op ") + what);
      if (g_allocs != before) { R.violate(std::string("alloc:") + what, std::to_string(g_allocs - before) + " allocations during " + what + " of " + t.d->inst_name); before = g_allocs; return false; }
      return true;
    };
    MsgVal v = gen_any(t.d, r);
    set_case(std::string(t.d->inst_name) + " value " + show(v));
    auto m = fresh(t, r);
    check("construction");
    m->load(v, c); check("setting");
    MsgVal d = m->dump(c); check("reading");
    std::string b;
    { MonWrite w(100000); { LibGuard g; m->serialize(w); } b = w.bytes(); }
    check("serialize");
    { LibGuard g; (void)m->serialized_size(); } check("serialized_size");
    { Error e; LibGuard g; calculator_size(*m, e); } check("size calculator");
    { auto w = fixed_writer(uint32_t(r.below(b.size() + 10))); if (w) { LibGuard g; m->serialize(w->buf()); } } check("serialize in a small buffer");
    auto x = m->copy_construct(1); check("copy construction");
    auto y = x->move_construct(2); check("move construction");
    y->assign(*m); y->move_assign(*x); check("assignment");
    { auto f = fixed_reader(b, true); LibGuard g; y->deserialize(f->buf()); } check("deserialize");
    std::string kind, hb = hostile(t.d, r, kind);
    { MonRead mr(hb); LibGuard g; y->deserialize(mr); } check("deserialize of hostile input");
    for (size_t k = 0; k < t.d->fields.size(); ++k) { if (y->has_touch(int(k))) y->touch_field(int(k), c); y->clear_field(int(k)); }
    check("clearing fields");
    y->clear(); check("clear");
    {
      uint32_t big = uint32_t(r.chance(1, 3) ? r.below(300) : 40000), rn = 0;
      std::unique_ptr<char[]> text(new char[big + 1]);
      char* rest = nullptr;
      if (!m->to_string(text.get(), big, rest, rn)) harness_error("built without MSG_TO_STRING");
      check("to_string");
    }
    R.eval(fnv(b, fnv(std::string(t.d->inst_name))), !v.all_absent());
    R.count("library calls watched", g_lib_calls - calls);
    if (i < 3) R.sample(R.current);
  });
  R.count("allocations outside the library (seen by the monitor)", g_outside);
}
static Prop p19("C19", c19);

}  // namespace vf
