// Encoding and decoding: C01 to C05.
#include "msgutil.h"

namespace vf {

// ---------------------------------------------------------------- C01
static void c01();
static Prop p_c01("C01", c01);
static void c01() {
  uint64_t n = registry().size();
  cases("roundtrip", 400 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    set_case(std::string(t.d->inst_name) + " value " + show(v));
    auto a = holding(t, v, r, c);
    MsgVal va = dump(*a, c);
    Error e;
    std::string bytes = ser(*a, &e);
    R.eval(fnv(bytes, fnv(std::string(t.d->inst_name))), !v.all_absent());
    R.count("type " + std::string(t.d->full_name));
    R.count("bytes", bytes.size());
    if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*a), std::string("serialize returned ") + err_name(e)); return; }
    auto b = fresh(t, r);
    set_case(std::string(t.d->inst_name) + " value " + show(v) + " bytes " + hex(bytes));
    e = r.chance(1, 2) ? deser(*b, bytes, MonRead::TOTAL) : deser(*b, bytes, MonRead::REMAINING);
    if (e != Error::NO_ERRORS) { R.violate("deserialize:" + tname(*a), std::string("own bytes are refused with ") + err_name(e)); return; }
    MsgVal vb = dump(*b, c);
    if (va != vb) R.violate("value:" + where(va, vb), "after the round trip " + diff(va, vb));
    else if (presence(*a) != presence(*b)) {
      // Only the presence of explicit fields counts; dump has compared it already except for what normalisation hides.
      R.violate("presence:" + tname(*a), presence(*a) + " became " + presence(*b));
    }
    if (i < 3) R.sample(std::string(t.d->inst_name) + " " + show(v) + " -> " + hex(bytes));
  });
}

// ---------------------------------------------------------------- C02: structure of the encoding
static void c02();
static Prop p_c02("C02", c02);
static void c02() {
  uint64_t n = registry().size();
  cases("encode", 400 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    set_case(std::string(t.d->inst_name) + " value " + show(v));
    auto a = holding(t, v, r, c);
    MsgVal va = dump(*a, c);
    Error e;
    std::string bytes = ser(*a, &e);
    R.eval(fnv(bytes, fnv(std::string(t.d->inst_name))), !v.all_absent());
    R.count("type " + std::string(t.d->full_name));
    set_case(std::string(t.d->inst_name) + " value " + show(v) + " bytes " + hex(bytes));
    if (e != Error::NO_ERRORS) { R.violate("serialize:" + tname(*a), std::string("serialize returned ") + err_name(e)); return; }
    MsgVal g(t.d);
    size_t unknown = 0;
    if (!g_parse(t.d, bytes, g, &unknown)) { R.violate("refused:" + tname(*a), "the reference decoder refuses the bytes"); return; }
    if (unknown) R.violate("unknown:" + tname(*a), "the bytes hold fields the schema does not have");
    if (g != va) R.violate("value:" + where(va, g), "the reference decoder reads " + diff(va, g));
    std::string p = scan(t.d, bytes);
    if (!p.empty()) R.violate("form:" + tname(*a), p);
    R.count("records scanned");
    if (i < 3) R.sample(std::string(t.d->inst_name) + " " + show(v) + " -> " + hex(bytes));
  });
}

// ---------------------------------------------------------------- C03
static void c03();
static Prop p_c03("C03", c03);
static void c03() {
  uint64_t n = registry().size();
  cases("decode", 400 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    std::string bytes = g_encode(v);
    set_case(std::string(t.d->inst_name) + " value " + show(v) + " bytes " + hex(bytes));
    R.eval(fnv(bytes, fnv(std::string(t.d->inst_name))), !bytes.empty());
    R.count("type " + std::string(t.d->full_name));
    R.count("bytes", bytes.size());
    MsgVal g(t.d);
    if (!g_parse(t.d, bytes, g) || g != v) harness_error("reference encoder and decoder disagree: " + diff(v, g));
    auto m = fresh(t, r);
    Error e = deser(*m, bytes, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
    if (e != Error::NO_ERRORS) { R.violate(std::string("refused:") + err_name(e) + ":" + tname(*m), std::string("refused with ") + err_name(e)); return; }
    MsgVal d = dump(*m, c);
    if (d != v) R.violate("value:" + where(v, d), "decoded as " + diff(v, d));
    std::string op = oneof_problem(*m);
    if (!op.empty()) R.violate("oneof:" + tname(*m), op);
    if (i < 3) R.sample(std::string(t.d->inst_name) + " " + hex(bytes) + " -> " + show(d));
  });
}

// ---------------------------------------------------------------- C04, C05
__attribute__((weak)) void guided(uint64_t runs, const std::function<void(const TypeEntry&, const std::string&, Rng&)>& judge);   // msg_robust.cpp
static void judge04(const TypeEntry& t, const std::string& b, Rng& r) {
  Ref ref = RefDec::decode(t.d, b);
  MsgVal want(t.d);
  if (ref.st != Ref::OK || !g_parse(t.d, b, want) || want != ref.v) return;   // Google also refuses text that is not UTF-8
  Ctx c(r.next());
  R.eval(fnv(b, fnv(std::string(t.d->inst_name))), true);
  R.count("guided: valid encodings");
  auto m = fresh(t, r);
  Error e = deser(*m, b);
  if (e != Error::NO_ERRORS) { R.violate(std::string("refused:") + err_name(e) + ":" + tname(*m), std::string("valid encoding refused with ") + err_name(e)); return; }
  MsgVal d = dump(*m, c);
  if (d != want) R.violate("value:" + where(want, d), "decoded as " + diff(want, d));
}
static void c04();
static Prop p_c04("C04", c04);
static void c04() {
  uint64_t n = registry().size();
  cases("valid", 300 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    std::string b1, b2;
    MsgVal want(t.d);
    for (int k = 0; k < 20; ++k) {
      Enc e1(r, random_enc(r, false)), e2(r, random_enc(r, false));
      b1 = e1.message(gen_any(t.d, r));
      b2 = r.chance(1, 2) ? "" : e2.message(gen_any(t.d, r));
      if (k == 19) b2 = "";
      if (!reference(t.d, b1 + b2, want)) { b1.clear(); continue; }
      R.count("padded varints", e1.n_padded + e2.n_padded);
      R.count("varints with other bits than the type has", e1.n_wide + e2.n_wide);
      R.count("repeated or split values", e1.n_repeat + e2.n_repeat);
      R.count("unpacked pieces", e1.n_unpacked + e2.n_unpacked);
      if (!b2.empty()) R.count("two encodings");
      break;
    }
    if (b1.empty() && b2.empty()) { R.count("nothing to decode"); return; }
    set_case(std::string(t.d->inst_name) + " bytes " + hex(b1) + " then " + hex(b2));
    R.eval(fnv(b1 + b2, fnv(std::string(t.d->inst_name))), true);
    R.count("type " + std::string(t.d->full_name));
    auto m = fresh(t, r);
    Error e = deser(*m, b1 + b2, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
    if (e != Error::NO_ERRORS) { R.violate(std::string("refused:") + err_name(e) + ":" + tname(*m), std::string("valid encoding refused with ") + err_name(e)); return; }
    MsgVal d = dump(*m, c);
    if (d != want) R.violate("value:" + where(want, d), "decoded as " + diff(want, d));
    if (!b2.empty()) {
      auto m2 = fresh(t, r);
      Error ea = deser(*m2, b1), eb = deser(*m2, b2);
      if (ea != Error::NO_ERRORS || eb != Error::NO_ERRORS) { R.violate("refused2:" + tname(*m), "refused when decoded in two steps"); return; }
      MsgVal d2 = dump(*m2, c);
      if (d2 != want) R.violate("concat:" + where(want, d2), "decoded in two steps as " + diff(want, d2));
    }
    if (i < 3) R.sample(std::string(t.d->inst_name) + " " + hex(b1) + "|" + hex(b2) + " -> " + show(d));
  });
  if (guided) guided(300, judge04);
}
static void c05();
static Prop p_c05("C05", c05);
static void c05() {
  uint64_t n = registry().size();
  cases("unknown", 300 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    EncOpt o = random_enc(r, false);
    o.repeat = false;
    std::string base = encode(v, r, o);
    // Insert unknown fields at field boundaries of the encoding, at every level.
    std::vector<Rec> tree;
    if (!parse_tree(t.d, base, tree)) harness_error("parse_tree");
    EncOpt u; u.pad = r.chance(1, 2);
    Enc enc(r, u);
    std::vector<Level> ls;
    levels(tree, t.d, 0, ls);
    unsigned k = unsigned(1 + r.below(4));
    // Later levels first: inserting in a list moves the records of deeper levels.
    for (size_t li = ls.size(); li-- > 0;) {
      unsigned m = li ? unsigned(r.below(2)) : k;
      if (ls.size() > 1 && li == 0 && r.chance(1, 2)) m = 0;
      for (; m > 0; --m) {
        auto& l = *ls[li].recs;
        l.insert(l.begin() + long(r.below(l.size() + 1)), raw(enc.unknown_field(ls[li].d)));
        R.count("inserted at depth " + std::to_string(std::min(ls[li].depth, 6)));
      }
    }
    std::string bytes = emit(tree);
    MsgVal want(t.d);
    if (!reference(t.d, bytes, want) || want != v) harness_error("an unknown field changed the reference result");
    set_case(std::string(t.d->inst_name) + " bytes " + hex(bytes));
    R.eval(fnv(bytes, fnv(std::string(t.d->inst_name))), enc.n_unknown > 0);
    auto m = fresh(t, r);
    Error e = deser(*m, bytes, r.chance(1, 2) ? MonRead::TOTAL : MonRead::REMAINING);
    if (e != Error::NO_ERRORS) { R.violate(std::string("refused:") + err_name(e), std::string("unknown fields refused with ") + err_name(e)); return; }
    MsgVal d = dump(*m, c);
    if (d != want) R.violate("value:" + where(want, d), "with unknown fields decoded as " + diff(want, d));
    if (i < 3) R.sample(std::string(t.d->inst_name) + " " + hex(bytes) + " -> " + show(d));
  });
  cases("group", 60 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    MsgVal v = gen_any(t.d, r);
    std::vector<Rec> tree;
    EncOpt o = random_enc(r, false);
    o.repeat = false;
    if (!parse_tree(t.d, encode(v, r, o), tree)) harness_error("parse_tree");
    std::vector<Level> ls;
    levels(tree, t.d, 0, ls);
    auto& l = ls[r.below(ls.size())];
    uint32_t num;
    do num = 1 + uint32_t(r.chance(1, 2) ? r.below(60) : r.below(0x1fffffff)); while (l.d->find(num) >= 0);
    std::string g;
    put_varint(g, uint64_t(num) << 3 | (r.chance(3, 4) ? 3 : 4));
    if (r.chance(2, 3)) {   // content: fields of the enclosing message, then the end of the group
      g += encode(gen_any(l.d, r), r);
      put_varint(g, uint64_t(num) << 3 | 4);
    }
    size_t at = r.below(l.recs->size() + 1);
    l.recs->insert(l.recs->begin() + long(at), raw(g));
    std::string bytes = emit(tree);
    set_case(std::string(t.d->inst_name) + " group in bytes " + hex(bytes));
    R.eval(fnv(bytes, fnv(std::string(t.d->inst_name))), true);
    R.count("groups at depth " + std::to_string(std::min(l.depth, 6)));
    auto m = fresh(t, r);
    Error e = deser(*m, bytes);
    if (e != Error::INVALID_WIRETYPE) R.violate(std::string("group:") + err_name(e), std::string("a group gives ") + err_name(e));
  });
}


// ---------------------------------------------------------------- C21: generated classes agree with the schema
static void c21();
static Prop p_c21("C21", c21);
static void c21() {
  uint64_t n = registry().size();
  cases("names", n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    auto m = fresh(t, r);
    for (auto& f : t.d->fields) {
      const char* s = m->number_to_name(f.number);
      R.eval(fnv(std::string(t.d->inst_name) + f.name), true);
      if (!s || std::string(s) != f.name) R.violate("name:" + std::string(t.d->full_name), "number " + std::to_string(f.number) + " is named '" + (s ? s : "(null)") + "' and not '" + f.name + "'");
    }
    m->check_caps(c);
    if (!c.anomaly.empty()) R.violate("capacity:" + std::string(t.d->full_name), c.anomaly);
  });
  cases("exchange", 60 * n, [&](Rng& r, uint64_t i) {
    const auto& t = pick_type(i);
    Ctx c(r.next());
    MsgVal v = gen_any(t.d, r);
    std::string hd = std::string(t.d->inst_name) + " value " + show(v);
    set_case(hd);
    std::string bytes = g_encode(v);
    R.eval(fnv(bytes, fnv(std::string(t.d->inst_name))), !v.all_absent());
    R.count("type " + std::string(t.d->full_name));
    normalise(v);
    auto m = fresh(t, r);
    set_case(hd + " bytes " + hex(bytes));
    Error e = deser(*m, bytes);
    if (e != Error::NO_ERRORS) { R.violate("decode:" + tname(*m), std::string("bytes of the standard implementation are refused with ") + err_name(e)); return; }
    MsgVal g = dump(*m, c);
    if (g != v) { R.violate("decode-value:" + where(v, g), diff(v, g)); return; }
    auto w = r.chance(1, 2) ? std::move(m) : holding(t, v, r, c);
    std::string own = ser(*w, &e);
    if (e != Error::NO_ERRORS) { R.violate("encode:" + tname(*w), std::string("serialize returned ") + err_name(e)); return; }
    MsgVal h(t.d);
    size_t unknown = 0;
    set_case(hd + " own bytes " + hex(own));
    if (!g_parse(t.d, own, h, &unknown)) R.violate("encode-refused:" + tname(*w), "the standard implementation refuses the bytes");
    else if (unknown) R.violate("encode-unknown:" + tname(*w), "the bytes hold fields the schema does not have");
    else if (h != v) R.violate("encode-value:" + where(v, h), diff(v, h));
    if (!c.anomaly.empty()) R.violate("odd:" + tname(*w), c.anomaly);
    if (i < 3) R.sample(hd + " <-> " + hex(own));
  });
}

}  // namespace vf
