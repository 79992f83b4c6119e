#!/usr/bin/env python3
"""Writes adapters between generated EmbeddedProto classes and the neutral values of core.h.

usage: gen_adapter.py DESCRIPTOR_SET OUT_DIR N_UNITS PARAM_SEED FILE.proto [FILE.proto ...]

The schema is read from protoc's descriptor set. The order of template parameters follows the documentation, not the
plugin: parameters in the order in which the fields are declared, oneof members after the other fields, those of
nested messages in place.
"""
import os, sys
from google.protobuf.descriptor_pb2 import FileDescriptorSet, FieldDescriptorProto as FD

KIND = {FD.TYPE_DOUBLE: "K_DOUBLE", FD.TYPE_FLOAT: "K_FLOAT", FD.TYPE_INT64: "K_INT64", FD.TYPE_UINT64: "K_UINT64",
        FD.TYPE_INT32: "K_INT32", FD.TYPE_FIXED64: "K_FIXED64", FD.TYPE_FIXED32: "K_FIXED32", FD.TYPE_BOOL: "K_BOOL",
        FD.TYPE_STRING: "K_STRING", FD.TYPE_MESSAGE: "K_MSG", FD.TYPE_BYTES: "K_BYTES", FD.TYPE_UINT32: "K_UINT32",
        FD.TYPE_ENUM: "K_ENUM", FD.TYPE_SFIXED32: "K_SFIXED32", FD.TYPE_SFIXED64: "K_SFIXED64",
        FD.TYPE_SINT32: "K_SINT32", FD.TYPE_SINT64: "K_SINT64"}


def option_length(field):
    """The maxLength option, read from the raw bytes of the options (extension 1141, field 1)."""
    def scan(data, want):
        i, found = 0, None
        def varint():
            nonlocal i
            v = s = 0
            while True:
                b = data[i]; i += 1
                v |= (b & 127) << s; s += 7
                if b < 128:
                    return v
        while i < len(data):
            tag = varint()
            if tag & 7 == 0:
                v = varint()
            elif tag & 7 == 2:
                n = varint(); v = data[i:i + n]; i += n
            elif tag & 7 == 5:
                v = data[i:i + 4]; i += 4
            else:
                v = data[i:i + 8]; i += 8
            if tag >> 3 == want:
                found = v
        return found
    sub = scan(field.options.SerializeToString(), 1141)
    return (scan(sub, 1) or 0) if sub is not None else 0


class Def:
    def __init__(self, desc, full, cpp, file, ident):
        self.desc, self.full, self.cpp, self.file, self.ident = desc, full, cpp, file, ident


def collect(fds):
    defs = {}
    def add(m, prefix, cpp, file):
        full = prefix + "." + m.name
        defs[full] = Def(m, full, cpp + m.name, file, len(defs))
        for n in m.nested_type:
            add(n, full, cpp + m.name + "::", file)
    for f in fds.file:
        ns = "".join("::" + p for p in f.package.split(".")) + "::" if f.package else "::"
        for m in f.message_type:
            add(m, "." + f.package if f.package else "", ns, f.name)
    return defs


def ordered(m):
    """(field, oneof index or None) in the order of the template parameters."""
    real = [i for i in range(len(m.oneof_decl)) if not any(f.HasField("oneof_index") and f.oneof_index == i and f.proto3_optional for f in m.field)]
    res = [(f, None) for f in m.field if not f.HasField("oneof_index") or f.proto3_optional]
    for k, i in enumerate(real):
        res += [(f, k) for f in m.field if f.HasField("oneof_index") and f.oneof_index == i and not f.proto3_optional]
    return res, [m.oneof_decl[i].name for i in real]


def n_params(defs, d):
    n = 0
    for f, _ in ordered(d.desc)[0]:
        if f.label == FD.LABEL_REPEATED and not option_length(f):
            n += 1
        if f.type in (FD.TYPE_STRING, FD.TYPE_BYTES) and not option_length(f):
            n += 1
        if f.type == FD.TYPE_MESSAGE:
            n += n_params(defs, defs[f.type_name])
    return n


class Inst:
    """A message definition with values for its template parameters."""
    def __init__(self, defs, d, params):
        self.d, self.params = d, list(params)
        it = iter(params)
        caps = {}
        for f, _ in ordered(d.desc)[0]:
            opt = option_length(f)
            rep = strc = 0
            sub = None
            if f.label == FD.LABEL_REPEATED:
                rep = opt or next(it)
            if f.type in (FD.TYPE_STRING, FD.TYPE_BYTES):
                strc = opt or next(it)
            if f.type == FD.TYPE_MESSAGE:
                sd = defs[f.type_name]
                sub = Inst(defs, sd, [next(it) for _ in range(n_params(defs, sd))])
            caps[f.number] = (rep, strc, sub)
        self.fields = []
        order, self.oneofs = ordered(d.desc)
        oneof_of = {f.number: k for f, k in order}
        for f in d.desc.field:
            rep, strc, sub = caps[f.number]
            k = oneof_of[f.number]
            label = ("REPEATED" if f.label == FD.LABEL_REPEATED else "OPTIONAL" if f.proto3_optional
                     else "ONEOF" if k is not None else "IMPLICIT")
            self.fields.append((f, label, -1 if k is None else k, rep, strc, sub))

    def key(self):
        return (self.d.full, tuple(self.params))

    def cpp(self):
        return self.d.cpp + ("<" + ", ".join(map(str, self.params)) + ">" if self.params else "")


def emit_desc(inst, done, out):
    if inst.key() in done:
        return done[inst.key()]
    subs = [emit_desc(s, done, out) if s else "nullptr" for (_, _, _, _, _, s) in inst.fields]
    name = "desc_%d" % len(done)
    done[inst.key()] = name + "()"
    rows = []
    for (f, label, k, rep, strc, _), sub in zip(inst.fields, subs):
        rows.append('{"%s", %du, %s, %s, %d, %du, %du, %s}' % (f.name, f.number, KIND[f.type], label, k, rep, strc, sub))
    out.append('const MsgDesc* %s() { static MsgDesc d{"%s", "%s", {%s}, {%s}}; return &d; }' % (
        name, inst.d.full[1:], inst.cpp(), ", ".join(rows), ", ".join('"%s"' % o for o in inst.oneofs)))
    return done[inst.key()]


def emit_adapter(defs, d, done, out):
    if d.full in done:
        return
    done.add(d.full)
    order, oneofs = ordered(d.desc)
    kof = {f.number: k for f, k in order}
    for f in d.desc.field:
        if f.type == FD.TYPE_MESSAGE:
            emit_adapter(defs, defs[f.type_name], done, out)
    S, G, C, TO, HT, HA, AD, CC, GR, EL = [], [], [], [], [], [], [], [], [], []
    for i, f in enumerate(d.desc.field):
        n = f.name
        rep = f.label == FD.LABEL_REPEATED
        k = kof[f.number]
        opt = f.proto3_optional
        one = k is not None and not opt
        msg, stri = f.type == FD.TYPE_MESSAGE, f.type in (FD.TYPE_STRING, FD.TYPE_BYTES)
        enum = f.type == FD.TYPE_ENUM
        sub = "A_%d" % defs[f.type_name].ident if msg else None
        F = "using F = typename std::decay<decltype(m.get_%s())>::type;" % n
        s, g = [], []
        if rep:
            DT = F + " using DT = typename std::decay<decltype(std::declval<const F&>().get_const(0))>::type;"
            SUB = "%s<DT>" % sub if msg else "void"
            s.append(DT)
            s.append("const size_t n = v.size(); unsigned how = c.rng.below(6);")
            s.append("if (how < 4) LIB(m.clear_%s());" % n)
            s.append("if (how == 4) { F t; for (size_t i = 0; i < n; ++i) { DT e; make_elem<DT, %s>(e, v, i, c); LIB(t.add(e)); } LIB(m.set_%s(t)); return; }" % (SUB, n))
            s.append("if (how == 5) { std::vector<DT> t(n); for (size_t i = 0; i < n; ++i) make_elem<DT, %s>(t[i], v, i, c); Error e = LIB(m.mutable_%s().set_data(t.data(), n)); if (e != Error::NO_ERRORS) c.odd(\"set_data of a value that fits was refused\"); return; }" % (SUB, n))
            s.append("for (size_t i = 0; i < n; ++i) {")
            s.append("  if (how == 3) { auto& e = LIB(m.mutable_%s(i)); make_elem<DT, %s>(e, v, i, c); continue; }" % (n, SUB))
            s.append("  DT e; make_elem<DT, %s>(e, v, i, c);" % SUB)
            s.append("  if (how == 0) LIB(m.add_%s(e)); else if (how == 1) { if (i & 1) LIB(m.set_%s(i, e)); else LIB(m.set_%s(i, std::move(e))); }" % (n, n, n))
            s.append("  else if (i & 1) LIB(m.mutable_%s()[i] = e); else { Error r = LIB(m.mutable_%s().add(e)); if (r != Error::NO_ERRORS) c.odd(\"add of a value that fits was refused\"); }" % (n, n))
            s.append("}")
            g.append(DT)
            g.append("const F& x = c.rng.chance(1, 2) ? LIB(m.get_%s()) : LIB(m.%s()); read_rep<F, %s>(x, v, fd, c);" % (n, n, SUB))
            g.append("if (v.size()) { uint32_t i = c.rng.below(v.size()); if (&LIB(m.%s(i)) != &LIB(m.get_%s().get_const(i)) || &LIB(m.get_%s()[i]) != &LIB(m.get_%s().get_const(i))) c.odd(\"indexed getters of a repeated field disagree\");" % (n, n, n, n))
            g.append("  DT e; FieldVal one; if (LIB(m.get_%s().get_const(i, e)) != Error::NO_ERRORS) c.odd(\"checked read of an element failed\"); else { read_elem<DT, %s>(e, one, fd.sub, c); bool same = true; if (!v.nums.empty()) same = one.nums[0] == v.nums[i]; if (!v.strs.empty()) same = one.strs[0] == v.strs[i]; if (!v.msgs.empty()) same = one.msgs[0] == v.msgs[i]; if (!same) c.odd(\"checked read of an element differs\"); } }" % (n, SUB))
            TO.append("case %d: LIB(m.mutable_%s()); break;" % (i, n))
            HT.append("case %d: return true;" % i)
            GR.append("case %d: LIB(m.mutable_%s(n - 1)); break;" % (i, n))
            EL.append("case %d: { %s DT e; make_elem<DT, %s>(e, v, 0, c);" % (i, DT, SUB))
            EL.append("  switch (how) { case 0: LIB(m.set_%s(at, e)); break; case 1: LIB(m.set_%s(at, std::move(e))); break; case 2: LIB(m.mutable_%s(at) = e); break; default: LIB(m.add_%s(e)); } break; }" % (n, n, n, n))
            CC.append("{ using F = typename std::decay<decltype(std::declval<const T&>().get_%s())>::type; check_rep_limit<F>(d.fields[%d].rep_cap, \"%s.%s\", c);" % (n, i, d.desc.name, n))
            if stri or msg:
                CC.append("  using DT = typename std::decay<decltype(std::declval<const F&>().get_const(0))>::type;")
                if stri:
                    CC.append("  check_str_limit<DT>(d.fields[%d].str_cap, \"element of %s.%s\", c);" % (i, d.desc.name, n))
                else:
                    CC.append("  %s<DT>::check_caps(*d.fields[%d].sub, c);" % (sub, i))
            CC.append("}")
        elif msg:
            s.append(F)
            s.append("if (v.empty()) { LIB(m.clear_%s()); return; }" % n)
            s.append("switch (c.rng.below(3)) { case 0: { auto& x = LIB(m.mutable_%s()); %s<F>::load(x, v.msgs[0], c); break; }" % (n, sub))
            s.append("  case 1: { F t; %s<F>::load(t, v.msgs[0], c); LIB(m.set_%s(t)); break; }" % (sub, n))
            s.append("  default: { F t; %s<F>::load(t, v.msgs[0], c); LIB(m.set_%s(std::move(t))); break; } }" % (sub, n))
            if opt or one:
                g.append("if (!LIB(m.has_%s())) return;" % n)
            g.append(F)
            g.append("const F& x = c.rng.chance(1, 2) ? LIB(m.get_%s()) : LIB(m.%s()); MsgVal s(fd.sub); %s<F>::dump(x, s, c); v.msgs.push_back(std::move(s));" % (n, n, sub))
            TO.append("case %d: LIB(m.mutable_%s()); break;" % (i, n))
            HT.append("case %d: return true;" % i)
            CC.append("{ using F = typename std::decay<decltype(std::declval<const T&>().get_%s())>::type; %s<F>::check_caps(*d.fields[%d].sub, c); }" % (n, sub, i))
            if opt:
                AD.append("case %d: if (!LIB(m.has_%s())) { if (LIB(m.get_%s().serialized_size())) return \"message has content\"; if (&LIB(m.%s()) != &LIB(m.get_%s())) return \"getters disagree\"; } break;" % (i, n, n, n, n))
        elif stri:
            s.append(F)
            s.append("if (v.empty()) { LIB(m.clear_%s()); return; }" % n)
            s.append("if (c.rng.chance(2, 3)) { auto& x = LIB(m.mutable_%s()); set_str(x, v.strs[0], c); } else { F t; set_str(t, v.strs[0], c); LIB(m.set_%s(t)); }" % (n, n))
            if opt or one:
                g.append("if (!LIB(m.has_%s())) return;" % n)
            g.append("{ const auto& x = LIB(m.get_%s()); v.strs.push_back(get_str(x, c)); if (LIB(m.%s()) != x.get_const()) c.odd(\"getters of a string disagree\"); }" % (n, n))
            TO.append("case %d: LIB(m.mutable_%s()); break;" % (i, n))
            HT.append("case %d: return true;" % i)
            CC.append("{ using F = typename std::decay<decltype(std::declval<const T&>().get_%s())>::type; check_str_limit<F>(d.fields[%d].str_cap, \"%s.%s\", c); }" % (n, i, d.desc.name, n))
            GR.append("case %d: LIB(m.mutable_%s()[n - 1]); break;" % (i, n))
            EL.append("case %d: { using CH = typename std::decay<decltype(m.mutable_%s()[0])>::type; if (how & 1) LIB(m.mutable_%s()[at] = CH(v.strs[0][0])); else LIB(m.mutable_%s().get(at) = CH(v.strs[0][0])); break; }" % (i, n, n, n))
            if opt:
                AD.append("case %d: if (!LIB(m.has_%s())) { if (LIB(m.get_%s().get_length())) return \"string has content\"; if (LIB(m.%s()) != LIB(m.get_%s().get_const())) return \"getters disagree\"; } break;" % (i, n, n, n, n))
        else:
            s.append("using V = typename std::decay<decltype(m.get_%s())>::type;" % n)
            if opt or one:
                s.append("if (v.empty()) { LIB(m.clear_%s()); return; }" % n)
            else:
                s.append("if (v.empty() && c.rng.chance(1, 2)) { LIB(m.clear_%s()); return; }" % n)
            s.append("V x = unbits<V>(v.empty() ? 0 : v.nums[0]);")
            if enum or one:
                s.append("if (c.rng.chance(1, 2)) LIB(m.set_%s(x)); else LIB(m.set_%s(unbits<V>(v.empty() ? 0 : v.nums[0])));" % (n, n))
            else:
                s.append("switch (c.rng.below(3)) { case 0: LIB(m.set_%s(x)); break; case 1: LIB(m.set_%s(unbits<V>(v.empty() ? 0 : v.nums[0]))); break; default: LIB(m.mutable_%s() = x); }" % (n, n, n))
                TO.append("case %d: LIB(m.mutable_%s()); break;" % (i, n))
                HT.append("case %d: return true;" % i)
            if opt or one:
                g.append("if (!LIB(m.has_%s())) return;" % n)
            g.append("{ auto x = LIB(m.get_%s()); auto y = LIB(m.%s()); v.nums.push_back(bits(x)); if (bits(x) != bits(y)) c.odd(\"getters of a field disagree\"); }" % (n, n))
            if opt:
                AD.append("case %d: if (!LIB(m.has_%s())) { auto x = LIB(m.get_%s()); auto y = LIB(m.%s()); if (bits(x) || bits(y)) return \"value is not the default\"; } break;" % (i, n, n, n))
        S.append("case %d: { %s break; }" % (i, "\n        ".join(s)))
        G.append("case %d: { %s break; }" % (i, "\n        ".join(g)))
        C.append("case %d: LIB(m.clear_%s()); break;" % (i, n))
        if opt or one:
            HA.append("case %d: return LIB(m.has_%s()) ? 1 : 0;" % (i, n))
    W = ["case %d: return uint32_t(LIB(m.get_which_%s()));" % (k, o) for k, o in enumerate(oneofs)]
    nf = len(d.desc.field)
    onef = [i for i, f in enumerate(d.desc.field) if kof[f.number] is not None and not f.proto3_optional]
    j = "\n      ".join
    out.append("""
template <class T> struct A_%d {  // %s
  static void set_field(T& m, int fi, const FieldVal& v, Ctx& c) {
    (void)m; (void)v; (void)c;
    switch (fi) {
      %s
    }
  }
  static void get_field(const T& m, int fi, FieldVal& v, const FieldDesc& fd, Ctx& c) {
    (void)m; (void)v; (void)c; (void)fd;
    switch (fi) {
      %s
    }
  }
  static void clear_field(T& m, int fi) {
    (void)m;
    switch (fi) {
      %s
    }
  }
  static void touch_field(T& m, int fi, Ctx& c) {
    (void)m; (void)c;
    switch (fi) {
      %s
    }
  }
  static void grow_field(T& m, int fi, uint32_t n) {
    (void)m; (void)n;
    switch (fi) {
      %s
    }
  }
  static void elem_field(T& m, int fi, uint32_t at, unsigned how, const FieldVal& v, Ctx& c) {
    (void)m; (void)at; (void)how; (void)v; (void)c;
    switch (fi) {
      %s
    }
  }
  static bool has_touch(int fi) {
    switch (fi) {
      %s
    }
    return false;
  }
  static int has(const T& m, int fi) {
    (void)m;
    switch (fi) {
      %s
    }
    return -1;
  }
  static uint32_t which(const T& m, int k) {
    (void)m;
    switch (k) {
      %s
    }
    return 0;
  }
  static std::string absent_default(const T& m, int fi) {
    (void)m;
    switch (fi) {
      %s
    }
    return "";
  }
  static void check_caps(const MsgDesc& d, Ctx& c) {
    (void)d; (void)c;
    %s
  }
  static void load(T& m, const MsgVal& v, Ctx& c) {
    (void)m; (void)v; (void)c;
    %s
    for (int i = 0; i < %d; ++i) if (v.d->fields[i].label != ONEOF || !v.f[i].empty()) set_field(m, i, v.f[i], c);
  }
  static void dump(const T& m, MsgVal& v, Ctx& c) {
    for (int i = 0; i < %d; ++i) get_field(m, i, v.f[i], v.d->fields[i], c);
  }
};""" % (d.ident, d.full, j(S), j(G), j(C), j(TO), j(GR), j(EL), j(HT), j(HA), j(W), j(AD), "\n    ".join(CC),
         " ".join("if (v.f[%d].empty()) clear_field(m, %d);" % (i, i) for i in onef), nf, nf))


def weight(inst):
    return 1 + sum(1 + (3 if l == "REPEATED" else 0) + (1 + weight(s) if s else 0) for (_, l, _, _, _, s) in inst.fields)


def main():
    fds_path, out_dir, units, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:]
    fds = FileDescriptorSet.FromString(open(fds_path, "rb").read())
    defs = collect(fds)
    roots = []
    sizes = [3, 5, 2, 7, 4, 9, 6, 11, 8, 13, 1, 10]
    for f in fds.file:
        if f.name not in files:
            continue
        for m in f.message_type:
            d = defs[("." + f.package if f.package else "") + "." + m.name]
            n = n_params(defs, d)
            # Distinct neighbours, so that swapped parameters show.
            params = [sizes[(i * (1 + 2 * (seed % 3)) + seed * 5 + d.ident) % len(sizes)] for i in range(n)]
            for i in range(1, n):
                if params[i] == params[i - 1]:
                    params[i] += 1
            roots.append(Inst(defs, d, params))
    roots.sort(key=lambda r: -weight(r))
    bins = [[] for _ in range(max(1, min(units, len(roots))))]
    load = [0] * len(bins)
    for r in roots:
        k = load.index(min(load))
        bins[k].append(r)
        load[k] += weight(r)
    for k, rs in enumerate(bins):
        descs, ads, regs = [], [], []
        done_d, done_a = {}, set()
        inc = []
        for r in rs:
            h = os.path.splitext(r.d.file)[0] + ".h"
            if h not in inc:
                inc.append(h)
            dn = emit_desc(r, done_d, descs)
            emit_adapter(defs, r.d, done_a, ads)
            t = r.cpp()
            regs.append('std::unique_ptr<IMsg> make_%d(uint64_t p) { using T = %s; return std::unique_ptr<IMsg>(new Holder<T, A_%d<T>>(%s, p, typename Holder<T, A_%d<T>>::Default())); }\nRegister reg_%d({%s, make_%d, "%s"});' % (
                len(regs), t, r.d.ident, dn, r.d.ident, len(regs), dn, len(regs), r.d.file))
        with open(os.path.join(out_dir, "adapter_%d.cpp" % k), "w") as o:
            o.write('#include "adapter.h"\n' + "".join('#include "%s"\n' % h for h in inc) +
                    "namespace vf { namespace {\n" + "\n".join(descs) + "\n".join(ads) + "\n" + "\n".join(regs) + "\n} }\n")
    with open(os.path.join(out_dir, "instances.txt"), "w") as o:
        for r in roots:
            o.write("%s\t%s\n" % (os.path.splitext(r.d.file)[0] + ".h", r.cpp()))
    print(len(bins))


main()
