// Histories of operations: C11 to C14 and C27.
#include "msgutil.h"
#include "glue.h"

namespace vf {

// A message together with a model of it.
struct Hist {
  const TypeEntry& t;
  Rng& r;
  Ctx& c;
  std::unique_ptr<IMsg> m;
  MsgVal model;
  std::string log;
  std::vector<int> focus;   // fields to prefer
  uint64_t ops = 0;
  Hist(const TypeEntry& te, Rng& rr, Ctx& cc) : t(te), r(rr), c(cc), m(te.make(rr.next())), model(te.d) {}
  MsgVal expected() const { MsgVal v = model; normalise(v); return v; }
  void select(size_t fi) {
    const auto& f = t.d->fields[fi];
    if (f.label != ONEOF) return;
    for (size_t k = 0; k < model.f.size(); ++k) if (k != fi && t.d->fields[k].label == ONEOF && t.d->fields[k].oneof == f.oneof) model.f[k].clear();
  }
  static FieldVal default_of(const FieldDesc& f) {
    FieldVal v;
    if (is_num(f.kind)) v.nums.push_back(0); else if (is_str(f.kind)) v.strs.push_back(""); else v.msgs.push_back(MsgVal(f.sub));
    return v;
  }
  int field() {
    if (!focus.empty() && r.chance(3, 4)) return focus[r.below(focus.size())];
    return int(r.below(t.d->fields.size()));
  }
  void note(const std::string& s) { ++ops; log += s + "; "; if (log.size() > 1500) log = "..." + log.substr(log.size() - 1200); set_case(std::string(t.d->inst_name) + " history: " + log); }
  // One random operation on the message and the model. Returns its kind.
  const char* step() {
    if (t.d->fields.empty()) { note("clear"); m->clear(); return "clear"; }
    int fi = field();
    const auto& f = t.d->fields[fi];
    std::string fn = f.name;
    switch (r.below(16)) {
      case 0: case 1: case 2: case 3: {
        FieldVal v;
        GenOpt o; o.present = 60; o.full = r.chance(1, 5);
        gen_field(f, v, r, o);
        note("set " + fn);
        m->set_field(fi, v, c);
        select(size_t(fi));
        model.f[fi] = v;
        return "set";
      }
      case 4: case 5: {
        note("clear_" + fn);
        m->clear_field(fi);
        model.f[fi].clear();
        return "clear_field";
      }
      case 6: case 7: {
        if (!m->has_touch(fi)) return "none";
        note("mutable_" + fn);
        m->touch_field(fi, c);
        if (f.label == OPTIONAL || f.label == ONEOF) { select(size_t(fi)); if (model.f[fi].empty()) model.f[fi] = default_of(f); }
        return "touch";
      }
      case 8: {
        if (f.label == REPEATED) {
          // One element; an index beyond the capacity addresses the last slot, an add to a full field does nothing.
          FieldVal all, e;
          GenOpt o; o.present = 60;
          for (int k = 0; k < 20 && !all.size(); ++k) gen_field(f, all, r, o);
          if (!all.size()) return "none";
          if (is_num(f.kind)) e.nums.push_back(all.nums[0]); else if (is_str(f.kind)) e.strs.push_back(all.strs[0]); else e.msgs.push_back(all.msgs[0]);
          unsigned how = unsigned(r.below(4));
          auto& v = model.f[fi];
          uint32_t at = uint32_t(r.chance(1, 2) ? r.below(v.size() + 1) : r.chance(1, 5) ? r.next() : r.below(f.rep_cap + 3));
          note("element " + std::to_string(at) + " of " + fn + " (" + std::to_string(how) + ")");
          m->elem_field(fi, at, how, e, c);
          if (how == 3) { at = uint32_t(v.size()); if (at >= f.rep_cap) return "add to a full field"; }
          at = std::min(at, f.rep_cap - 1);
          while (v.size() <= at) { if (is_num(f.kind)) v.nums.push_back(0); else if (is_str(f.kind)) v.strs.push_back(""); else v.msgs.push_back(MsgVal(f.sub)); }
          if (is_num(f.kind)) v.nums[at] = e.nums[0]; else if (is_str(f.kind)) v.strs[at] = e.strs[0]; else v.msgs[at] = e.msgs[0];
          return how == 3 ? "add" : "set element";
        }
        if (is_str(f.kind)) {
          FieldVal e;
          e.strs.push_back(std::string(1, char(r.below(256))));
          uint32_t at = uint32_t(r.chance(1, 8) ? r.next() : r.below(f.str_cap + 3));
          note("character " + std::to_string(at) + " of " + fn);
          m->elem_field(fi, at, unsigned(r.below(2)), e, c);
          select(size_t(fi));
          auto& v = model.f[fi];
          if (v.empty()) v = default_of(f);
          at = std::min(at, f.str_cap - 1);
          if (v.strs[0].size() <= at) v.strs[0].resize(at + 1, '\0');
          v.strs[0][at] = e.strs[0][0];
          return "set character";
        }
        return "none";
      }
      case 9: {
        if (f.label == REPEATED) {
          uint32_t n = uint32_t(1 + r.below(f.rep_cap));
          note("grow " + fn + " to " + std::to_string(n));
          m->grow_field(fi, n);
          auto& v = model.f[fi];
          while (v.size() < n) { if (is_num(f.kind)) v.nums.push_back(0); else if (is_str(f.kind)) v.strs.push_back(""); else v.msgs.push_back(MsgVal(f.sub)); }
          return "grow";
        }
        if (is_str(f.kind)) {
          uint32_t n = uint32_t(1 + r.below(f.str_cap));
          note("grow " + fn + " to " + std::to_string(n));
          m->grow_field(fi, n);
          select(size_t(fi));
          auto& v = model.f[fi];
          if (v.empty()) v = default_of(f);
          if (v.strs[0].size() < n) v.strs[0].resize(n, '\0');
          return "grow";
        }
        return "none";
      }
      case 10: {
        if (r.chance(1, 2)) return "none";
        note("clear");
        m->clear();
        model = MsgVal(t.d);
        return "clear";
      }
      case 11: case 12: case 13: {
        GenOpt o; o.present = unsigned(5 + r.below(60));
        std::string b = encode(gen_value(t.d, r, o), r, random_enc(r, r.chance(1, 4)));
        Ref ref = RefDec::decode_into(model, b);
        if (ref.st != Ref::OK) return "none";
        note("deserialize " + hex(b));
        Error e = deser(*m, b);
        if (e != Error::NO_ERRORS) { log += "refused! "; refused = err_name(e); }
        // decode_into gives the normal form; explicit presence survives it.
        model = ref.v;
        return "deserialize";
      }
      case 14: {
        unsigned how = unsigned(r.below(4));
        if (how == 0) { note("copy construct"); auto x = m->copy_construct(r.next()); m = std::move(x); }
        else if (how == 1) { note("move construct"); auto x = m->move_construct(r.next()); m = std::move(x); }
        else {
          auto x = t.make(r.next());
          if (r.chance(2, 3)) x->load(gen_any(t.d, r), c);
          note(how == 2 ? "assign to another" : "move to another");
          if (how == 2) x->assign(*m); else x->move_assign(*m);
          m = std::move(x);
        }
        return "copy";
      }
      default: {
        if (r.chance(1, 3)) { note("self assign"); m->assign(*m); return "self assign"; }
        note("serialize");
        ser(*m);
        (void)m->serialized_size();
        return "serialize";
      }
    }
  }
  std::string refused;
};
static std::vector<const TypeEntry*> types_with(Label l, bool nested) {
  std::vector<const TypeEntry*> v;
  std::function<bool(const MsgDesc*)> has = [&](const MsgDesc* d) {
    for (auto& f : d->fields) { if (f.label == l) return true; if (nested && f.sub && has(f.sub)) return true; }
    return false;
  };
  for (auto& t : registry()) if (has(t.d)) v.push_back(&t);
  return v;
}
static uint64_t state_hash(const TypeEntry& t, const MsgVal& v) { return fnv(show(v), fnv(std::string(t.d->inst_name))); }

// ---------------------------------------------------------------- C11
static void c11() {
  auto ts = types_with(OPTIONAL, true);
  cases("optional", 150 * ts.size(), [&](Rng& r, uint64_t i) {
    const auto& t = *ts[i % ts.size()];
    Ctx c(r.next());
    Hist h(t, r, c);
    for (size_t k = 0; k < t.d->fields.size(); ++k) if (t.d->fields[k].label == OPTIONAL || t.d->fields[k].kind == K_MSG) h.focus.push_back(int(k));
    unsigned n = unsigned(5 + r.below(30));
    for (unsigned s = 0; s < n; ++s) {
      std::string op = h.step();
      R.count("op " + op);
      MsgVal want = h.expected();
      R.eval(state_hash(t, want), !want.all_absent());
      for (size_t k = 0; k < t.d->fields.size(); ++k) {
        if (t.d->fields[k].label != OPTIONAL) continue;
        bool has = h.m->has(int(k)) == 1;
        std::string fn = std::string(t.d->full_name) + "." + t.d->fields[k].name;
        if (has != !want.f[k].empty()) { R.violate("has:" + fn, fn + (has ? " is reported present but was cleared or never set, after " : " is reported absent but was set, after ") + op); return; }
        if (!has) { std::string a = h.m->absent_default(int(k)); if (!a.empty()) { R.violate("absent:" + fn, fn + " is absent but its " + a + ", after " + op); return; } }
        R.count(has ? "present seen" : "absent seen");
      }
      if (s % 3 == 2 || s + 1 == n) {
        MsgVal got = dump(*h.m, c);
        if (got != want) {
          // Values and nested presence: only differences in explicit presence count here.
          R.violate("value:" + where(want, got), "after " + op + ": " + diff(want, got));
          return;
        }
        std::vector<Rec> tree;
        if (parse_tree(t.d, ser(*h.m), tree)) {
          std::set<uint32_t> nums;
          for (auto& x : tree) nums.insert(x.num);
          for (size_t k = 0; k < t.d->fields.size(); ++k)
            if (t.d->fields[k].label == OPTIONAL && !!nums.count(t.d->fields[k].number) != !want.f[k].empty()) { R.violate(std::string("wire:") + t.d->full_name + "." + t.d->fields[k].name, want.f[k].empty() ? "an absent field is serialized" : "a present field is not serialized"); return; }
        }
      }
    }
    R.count("histories");
    if (i < 3) R.sample(std::string(t.d->inst_name) + ": " + h.log + " -> " + show(h.expected()));
  });
}
static Prop p11("C11", c11);

// ---------------------------------------------------------------- C12
static void c12() {
  auto ts = types_with(ONEOF, true);
  cases("oneof", 150 * ts.size(), [&](Rng& r, uint64_t i) {
    const auto& t = *ts[i % ts.size()];
    Ctx c(r.next());
    Hist h(t, r, c);
    for (size_t k = 0; k < t.d->fields.size(); ++k) if (t.d->fields[k].label == ONEOF) h.focus.push_back(int(k));
    unsigned n = unsigned(5 + r.below(30));
    for (unsigned s = 0; s < n; ++s) {
      std::string op = h.step();
      R.count("op " + op);
      if (!h.refused.empty()) { R.count("valid data refused"); return; }   // decided by C04
      std::string p = oneof_problem(*h.m);
      if (!p.empty()) { R.violate("selector:" + tname(*h.m), p + ", after " + op); return; }
      MsgVal want = h.expected(), got = dump(*h.m, c);
      R.eval(state_hash(t, want), !want.all_absent());
      for (size_t k = 0; k < t.d->oneofs.size(); ++k) {
        uint32_t sel = 0;
        for (size_t q = 0; q < t.d->fields.size(); ++q) if (t.d->fields[q].label == ONEOF && t.d->fields[q].oneof == int(k) && !want.f[q].empty()) sel = t.d->fields[q].number;
        if (h.m->which(int(k)) != sel) { R.violate("which:" + std::string(t.d->full_name) + "." + t.d->oneofs[k], "selector is " + std::to_string(h.m->which(int(k))) + " instead of " + std::to_string(sel) + ", after " + op); return; }
        R.count(sel ? "selected seen" : "unset seen");
      }
      if (want != got) { R.violate("value:" + where(want, got), "after " + op + ": " + diff(want, got)); return; }
      // Exactly the selected members are sent, also when they hold their default.
      if (s % 3 == 2 || s + 1 == n) {
        std::vector<Rec> tree;
        if (parse_tree(t.d, ser(*h.m), tree)) {
          std::map<uint32_t, unsigned> nums;
          for (auto& x : tree) ++nums[x.num];
          for (size_t k = 0; k < t.d->fields.size(); ++k) {
            if (t.d->fields[k].label != ONEOF) continue;
            unsigned sent = nums[t.d->fields[k].number], sel = want.f[k].empty() ? 0 : 1;
            R.count(sel ? "selected member looked for in the encoding" : "other member looked for in the encoding");
            if (sent != sel) { R.violate(std::string("wire:") + t.d->full_name + "." + t.d->fields[k].name, std::string(sel ? "the selected member is sent " : "a member that is not selected is sent ") + std::to_string(sent) + " times"); return; }
          }
        }
      }
      // A member that is received in a damaged form.
      if (r.chance(1, 6) && !h.focus.empty()) {
        int fi = h.focus[r.below(h.focus.size())];
        const auto& f = t.d->fields[fi];
        std::string b;
        std::string kind = damaged(f, r, b);
        if (kind.empty()) continue;
        Ref ref = RefDec::decode_into(h.model, b);
        if (ref.st != Ref::ERR) continue;
        h.note("deserialize damaged (" + kind + ") " + hex(b));
        Error e = deser(*h.m, b);
        R.count("damaged " + kind);
        if (e == Error::NO_ERRORS) { if (ref.reason != "TRUNC_UNKNOWN_LEN") R.count("damaged member accepted"); return; }   // decided by C07
        h.select(size_t(fi));
        h.model.f[fi].clear();
        want = h.expected();
        p = oneof_problem(*h.m);
        if (!p.empty()) { R.violate("selector:" + tname(*h.m), p + ", after a failed deserialization"); return; }
        if (h.m->which(f.oneof) != 0) { R.violate("failed:" + std::string(t.d->full_name) + "." + t.d->oneofs[f.oneof], "a member is set after its deserialization failed (" + kind + ")"); return; }
        got = dump(*h.m, c);
        if (want != got) { R.violate("failed_value:" + where(want, got), "after a failed deserialization of " + std::string(f.name) + ": " + diff(want, got)); return; }
      }
    }
    R.count("histories");
    if (i < 3) R.sample(std::string(t.d->inst_name) + ": " + h.log + " -> " + show(h.expected()));
  });
}
static Prop p12("C12", c12);

// ---------------------------------------------------------------- C13
static void change(IMsg& m, const TypeEntry& t, Rng& r, Ctx& c) {
  switch (r.below(5)) {
    case 0: m.clear(); break;
    case 1: deser(m, encode(gen_any(t.d, r), r)); break;
    default:
      for (unsigned k = 0; k < 1 + r.below(4) && !t.d->fields.empty(); ++k) {
        size_t fi = r.below(t.d->fields.size());
        FieldVal v;
        gen_field(t.d->fields[fi], v, r, GenOpt());
        if (r.chance(1, 3)) m.clear_field(int(fi)); else m.set_field(int(fi), v, c);
      }
  }
}
static void c13() {
  uint64_t n = registry().size();
  cases("copy", 200 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    Hist h(t, r, c);
    if (r.chance(1, 2)) { MsgVal v = gen_any(t.d, r); h.m->load(v, c); h.model = v; h.note("load " + show(v)); }
    for (unsigned k = unsigned(r.below(6)); k-- > 0;) h.step();
    auto& a = h.m;
    MsgVal va = dump(*a, c);
    std::string pa = presence(*a), ba = ser(*a);
    unsigned how = unsigned(r.below(7));
    static const char* N[] = {"copy construction", "move construction", "assignment to a used message", "move assignment to a used message", "self assignment", "assignment to a new message", "self move assignment"};
    h.note(N[how]);
    R.count(N[how]);
    std::unique_ptr<IMsg> b;
    switch (how) {
      case 0: b = a->copy_construct(r.next()); break;
      case 1: b = a->move_construct(r.next()); break;
      case 2: b = t.make(r.next()); b->load(gen_any(t.d, r), c); b->assign(*a); break;
      case 3: b = t.make(r.next()); b->load(gen_any(t.d, r), c); b->move_assign(*a); break;
      case 4: a->assign(*a); break;
      case 6: a->move_assign(*a); break;
      default: b = t.make(r.next()); b->assign(*a); break;
    }
    R.eval(fnv(ba, fnv(std::string(t.d->inst_name), how)), !va.all_absent());
    IMsg& x = b ? *b : *a;
    MsgVal vb = dump(x, c);
    std::string k = std::string(N[how]).substr(0, 12);
    if (vb != va) { R.violate("copy:" + where(va, vb), std::string("after ") + N[how] + ": " + diff(va, vb)); return; }
    if (presence(x) != pa) { R.violate("presence:" + tname(x), std::string("after ") + N[how] + ": " + pa + " became " + presence(x)); return; }
    if (ser(x) != ba) { R.violate("bytes:" + tname(x), std::string("after ") + N[how] + " the bytes differ"); return; }
    if (how == 0 || how == 2 || how == 5) {
      MsgVal again = dump(*a, c);
      if (again != va || ser(*a) != ba) { R.violate("source:" + tname(x), std::string("the source changed by ") + N[how]); return; }
      bool swap = r.chance(1, 2);
      IMsg& ch = swap ? *a : *b;
      IMsg& keep = swap ? *b : *a;
      change(ch, t, r, c);
      MsgVal vk = dump(keep, c);
      if (vk != va || ser(keep) != ba || presence(keep) != pa) { R.violate("independent:" + where(va, vk), std::string("changing the ") + (swap ? "source" : "copy") + " changed the other: " + diff(va, vk)); return; }
      R.count("independence checked");
      if (r.chance(1, 4)) { if (swap) a.reset(); else b.reset(); MsgVal v3 = dump(keep, c); if (v3 != va) R.violate("lifetime:" + tname(keep), "destroying one changed the other"); }
    }
    if (i < 3) R.sample(h.log);
  });
}
static Prop p13("C13", c13);

// ---------------------------------------------------------------- C14
static std::string observe(const IMsg& m, Ctx& c) {
  MsgVal v = m.dump(c);
  std::string s = show(v) + "|" + presence(m) + "|" + std::to_string(m.serialized_size()) + "|" + hex(ser(m));
  for (size_t k = 0; k < m.d->fields.size(); ++k) s += m.absent_default(int(k));
  return s;
}
static void c14() {
  uint64_t n = registry().size();
  cases("clear", 120 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    Hist h(t, r, c);
    if (r.chance(1, 2)) { GenOpt o; o.present = 90; o.full = r.chance(1, 2); MsgVal v = gen_value(t.d, r, o); h.m->load(v, c); h.model = v; h.note("load " + show(v)); }
    for (unsigned k = unsigned(r.below(8)); k-- > 0;) h.step();
    if (r.chance(1, 3)) {
      std::string b = encode(gen_any(t.d, r), r, random_enc(r, true));
      b.resize(r.below(b.size() + 1));
      if (r.chance(1, 2) && !b.empty()) b[r.below(b.size())] ^= char(1 << r.below(8));
      h.note("deserialize " + hex(b));
      deser(*h.m, b);
      R.count("cleared after damaged input");
    }
    h.m->clear();
    h.note("clear");
    auto nw = t.make(r.next());
    c.anomaly.clear();
    uint64_t crng = r.next();
    auto obs = [&](IMsg& m) { Ctx k(crng); return observe(m, k) + k.anomaly; };
    std::string a = obs(*h.m), b = obs(*nw);
    R.eval(fnv(h.log), true);
    if (a != b) { R.violate("clear:" + tname(*nw), "a cleared message shows " + a.substr(0, 600) + " and a new one " + b.substr(0, 600)); return; }
    if (h.m->serialized_size() != 0 || !ser(*h.m).empty()) { R.violate("bytes:" + tname(*nw), "a cleared message serializes to something"); return; }
    // The same operations on both.
    for (unsigned k = unsigned(2 + r.below(6)); k-- > 0;) {
      uint64_t s = r.next();
      std::string what;
      auto op = [&](IMsg& m) {
        Rng q(s);
        Ctx cc(q.next());
        if (t.d->fields.empty()) return;
        int fi = int(q.below(t.d->fields.size()));
        const auto& f = t.d->fields[fi];
        switch (q.below(6)) {
          case 0: { FieldVal v; gen_field(f, v, q, GenOpt()); m.set_field(fi, v, cc); what = std::string("set ") + f.name; break; }
          case 1: { if (m.has_touch(fi)) m.touch_field(fi, cc); what = std::string("mutable ") + f.name; break; }
          case 2: case 3: {
            uint32_t cap = f.label == REPEATED ? f.rep_cap : is_str(f.kind) ? f.str_cap : 0;
            if (cap) m.grow_field(fi, uint32_t(1 + q.below(cap)));
            what = std::string("grow ") + f.name;
            break;
          }
          default: { std::string x = encode(gen_any(t.d, q), q, random_enc(q, true)); if (q.chance(1, 4)) x.resize(q.below(x.size() + 1)); deser(m, x); what = "deserialize " + hex(x); break; }
        }
      };
      op(*h.m); op(*nw);
      h.note(what);
      a = obs(*h.m); b = obs(*nw);
      R.eval(fnv(h.log), true);
      if (a != b) { R.violate("later:" + tname(*nw), "after clear and " + what + " the message shows " + a.substr(0, 500) + " and a new one " + b.substr(0, 500)); return; }
    }
    if (i < 3) R.sample(h.log);
  });
  // Old content never comes back: histories against the model.
  cases("stale", 120 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    Hist h(t, r, c);
    for (size_t k = 0; k < t.d->fields.size(); ++k) { const auto& f = t.d->fields[k]; if (f.label == REPEATED || is_str(f.kind) || f.kind == K_MSG || f.label == ONEOF) h.focus.push_back(int(k)); }
    unsigned m = unsigned(5 + r.below(25));
    for (unsigned s = 0; s < m; ++s) {
      std::string op = h.step();
      R.count("op " + op);
      if (!h.refused.empty()) { R.count("valid data refused"); return; }
      MsgVal want = h.expected(), got = dump(*h.m, c);
      R.eval(state_hash(t, want), !want.all_absent());
      if (want != got) { R.violate("stale:" + where(want, got), "after " + op + ": " + diff(want, got)); return; }
    }
    R.count("histories");
  });
}
static Prop p14("C14", c14);

// ---------------------------------------------------------------- C27
static void c27() {
  uint64_t n = registry().size();
  cases("pure", 150 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    Hist h(t, r, c);
    unsigned m = unsigned(1 + r.below(15));
    for (unsigned s = 0; s < m; ++s) h.step();
    if (r.chance(1, 2)) {   // after damaged input the message still has some value
      std::string b = encode(gen_any(t.d, r), r, random_enc(r, true));
      b.resize(r.below(b.size() + 1));
      h.note("deserialize " + hex(b));
      deser(*h.m, b);
    }
    MsgVal v = dump(*h.m, c);
    std::string pre = presence(*h.m);
    Error e;
    std::string b1 = ser(*h.m, &e);
    if (e != Error::NO_ERRORS) { R.count("serialize refused"); return; }
    uint32_t size = h.m->serialized_size();
    std::string b2 = ser(*h.m);
    MsgVal v2 = dump(*h.m, c);
    R.eval(fnv(b1, fnv(std::string(t.d->inst_name))), !v.all_absent());
    if (v2 != v || presence(*h.m) != pre) { R.violate("changed:" + where(v, v2), "serializing changed the message: " + diff(v, v2)); return; }
    if (b1 != b2 || size != h.m->serialized_size()) { R.violate("again:" + tname(*h.m), "serializing again gives other bytes: " + hex(b1) + " and " + hex(b2)); return; }
    // A serialization that fails half way leaves the message as it was.
    if (!b1.empty()) {
      MonWrite w(uint32_t(r.below(b1.size())));
      (void)h.m->serialize(w);
      MsgVal v3 = dump(*h.m, c);
      if (v3 != v || ser(*h.m) != b1) { R.violate("failed:" + tname(*h.m), "a failed serialization changed the message"); return; }
    }
    // The same value, reached in another way.
    auto o = t.make(r.next());
    if (r.chance(1, 2)) o->load(gen_any(t.d, r), c);
    if (r.chance(1, 2)) { o->load(v, c); } else { o->clear(); deser(*o, encode(v, r, random_enc(r, false))); }
    MsgVal vo = dump(*o, c);
    if (vo != v) { R.count("other history gave another value"); return; }   // decided by other properties
    std::string b3 = ser(*o);
    R.count("pairs compared");
    if (b3 != b1) { R.violate("history:" + tname(*o), "equal messages serialize to " + hex(b1) + " and " + hex(b3)); return; }
    if (i < 3) R.sample(h.log + " -> " + hex(b1));
  });
}
static Prop p27("C27", c27);


// ---------------------------------------------------------------- C10 while a message changes
void c10_history() {
  uint64_t n = registry().size();
  cases("size_history", 60 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    Hist h(t, r, c);
    unsigned m = unsigned(4 + r.below(20));
    for (unsigned s = 0; s < m; ++s) {
      std::string op = h.step();
      if (op == "none") continue;
      if (r.chance(1, 8)) {   // a failed deserialization leaves some value
        std::string x = encode(gen_any(t.d, r), r, random_enc(r, true));
        x.resize(r.below(x.size() + 1));
        h.note("deserialize " + hex(x));
        deser(*h.m, x);
        h.model = dump(*h.m, c);
      }
      uint32_t before = h.m->serialized_size();
      Error e, e2;
      std::string b = ser(*h.m, &e);
      uint32_t calc = calculator_size(*h.m, e2);
      R.eval(fnv(b, fnv(std::string(t.d->inst_name))), !b.empty());
      R.count("size after " + op);
      if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*h.m), "serialize fails in a large buffer"); return; }
      if (before != b.size() || h.m->serialized_size() != before) { R.violate("size:" + tname(*h.m), "after " + op + " serialized_size() is " + std::to_string(before) + " but " + std::to_string(b.size()) + " bytes are written"); return; }
      if (e2 != Error::NO_ERRORS || calc != b.size()) { R.violate("calculator:" + tname(*h.m), "after " + op + " the size calculator gives " + std::to_string(calc) + " for " + std::to_string(b.size()) + " bytes"); return; }
      std::string p = scan(t.d, b, false);
      if (!p.empty()) { R.violate("prefix:" + tname(*h.m), "after " + op + " the encoding does not nest: " + p + " in " + hex(b)); return; }
      // The length a nested message is written with is that of the message it holds now.
      MsgVal v = dump(*h.m, c);
      auto o = t.make(r.next());
      o->load(v, c);
      if (dump(*o, c) == v && o->serialized_size() != before) { R.violate("history:" + tname(*h.m), "after " + op + " serialized_size() is " + std::to_string(before) + ", of an equal message " + std::to_string(o->serialized_size())); return; }
    }
  });
}

// ---------------------------------------------------------------- C15, C16 through the generated accessors
static void containers(const char* name, bool (*match)(const FieldDesc&)) {
  std::vector<const TypeEntry*> ts;
  for (auto& t : registry()) for (auto& f : t.d->fields) if (match(f)) { ts.push_back(&t); break; }
  cases(name, 120 * ts.size(), [&](Rng& r, uint64_t i) {
    const auto& t = *ts[i % ts.size()];
    Ctx c(r.next());
    Hist h(t, r, c);
    for (size_t k = 0; k < t.d->fields.size(); ++k) if (match(t.d->fields[k])) h.focus.push_back(int(k));
    unsigned n = unsigned(5 + r.below(25));
    for (unsigned s = 0; s < n; ++s) {
      std::string op = h.step();
      R.count("op " + op);
      if (!h.refused.empty()) { R.count("valid data refused"); return; }   // decided by C04
      MsgVal want = h.expected(), got = dump(*h.m, c);
      R.eval(state_hash(t, want), !want.all_absent());
      if (!c.anomaly.empty()) { R.violate("accessor:" + c.anomaly, c.anomaly + ", after " + op); return; }
      for (int k : h.focus) {
        if (want.f[k] == got.f[k]) continue;
        R.violate("value:" + std::string(t.d->full_name) + "." + t.d->fields[k].name, "after " + op + ": " + diff(want, got));
        return;
      }
    }
    R.count("message histories");
  });
}
static void c15() { containers("msg_repeated", [](const FieldDesc& f) { return f.label == REPEATED; }); }
static void c16() { containers("msg_string", [](const FieldDesc& f) { return is_str(f.kind); }); }
static Prop p15("C15", c15);
static Prop p16("C16", c16);

}  // namespace vf
