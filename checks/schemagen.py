"""Random proto3 schemas from the supported features, for C21 and C22.

A message may use messages whose definition (with everything it uses) does not contain it; the order in which the
definitions stand in the file is random. Types defined inside a message that has template parameters are used inside
that message only. Names keep clear of C++ keywords and of each other's generated accessors.
"""
import random

SCALARS = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"]
WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet", "kilo", "lima", "mike", "november", "oscar", "papa",
         "quebec", "romeo", "sierra", "tango", "uniform", "victor", "whiskey", "xray", "yankee", "zulu", "speed", "mode", "state", "index", "value", "data",
         "name", "length", "size", "buffer", "error", "type", "field", "tag", "id", "number", "result", "first", "x", "y", "a", "b", "n", "i", "str", "rhs", "msg", "msb"]
TYPES = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lambda", "Sigma", "Omega", "Sensor", "Motor", "Status", "Report",
         "SensorData", "MotorState", "StatusReport", "Pos", "PosXY", "R2d2", "T_x", "lower_case", "ABC", "A1"]
WELL_KNOWN = {"timestamp": [("Timestamp", 0)], "duration": [("Duration", 0)], "empty": [("Empty", 0)], "field_mask": [("FieldMask", 1)], "any": [("Any", 1)],
              "source_context": [("SourceContext", 1)], "wrappers": [("Int64Value", 0), ("BoolValue", 0), ("FloatValue", 0), ("StringValue", 1), ("BytesValue", 1)]}
PACKAGES = ["", "one", "one.two", "acme", "acme.dev.v1", "one", "acme.prod.v1", "acme.prod.v2", "one.kit.io", "one.two.io"]


class Type:
    def __init__(self, full, kind, template, home):
        self.full, self.kind, self.template, self.home = full, kind, template, home   # home: enclosing message with parameters, or None


class Gen:
    def __init__(self, seed, max_fields=9, weight=60):
        self.r = random.Random(seed)
        self.max_fields = max_fields
        self.weight = weight
        self.w = {}
        self.names = {}
        self.pool = []       # field names of other messages, some are used again

    def type_name(self):
        """Type names are unique: the generated code names a type without its full scope."""
        t = self.r.choice(TYPES)
        k = self.names[t] = self.names.get(t, -1) + 1
        return t + (str(k) if k else "")

    def field_name(self, used):
        r = self.r
        for _ in range(200):
            k = r.choice([1, 1, 2, 2, 3])
            ws = [r.choice(WORDS) for _ in range(k)]
            style = r.randrange(6)
            n = "_".join(ws) if style < 3 else ws[0] + "".join(w.capitalize() for w in ws[1:]) if style == 3 else "_".join(ws) + str(r.randrange(100)) if style == 4 else "".join(w.capitalize() for w in ws) + "Field"
            if self.pool and r.random() < .3:
                n = r.choice(self.pool)
            low = n.lower().replace("_", "")   # JSON names and generated constants must differ too
            if low not in used and n not in TYPES and low != "notset":
                used.add(low)
                self.pool.append(n)
                return n
        raise RuntimeError

    def number(self, used):
        r = self.r
        while True:
            n = r.choice([r.randint(1, 15), r.randint(1, 15), r.randint(16, 200), r.randint(201, 2100), r.randint(2000, 18999), r.randint(20000, 3000000), (1 << 29) - 1 - r.randrange(3)])
            if n not in used:
                used.add(n)
                return n

    def enum(self, name, ind, scope_used):
        r = self.r
        n = r.choice([1, 2, 3, 5, 8])
        vals, names = [], []
        for k in range(n):
            while True:
                v = "%s_%s" % (name.upper(), r.choice(WORDS).upper()) if r.random() < .6 else r.choice(WORDS).upper() + "_" + str(r.randrange(1000))
                if v.lower() not in scope_used:
                    scope_used.add(v.lower())
                    break
            names.append(v)
            while True:
                x = 0 if k == 0 else r.choice([r.randint(1, 10), r.randint(1, 300), r.randint(-100, -1), 2147483647 - r.randrange(3), -2147483648 + r.randrange(3), r.randint(-2**31, 2**31 - 1)])
                if x not in vals:
                    break
            vals.append(x)
        alias = n > 1 and r.random() < .15
        if alias:
            vals[-1] = vals[0] if n == 2 else vals[1]
        s = "%senum %s {\n" % (ind, name)
        if alias:
            s += ind + "  option allow_alias = true;\n"
        for v, x in zip(names, vals):
            s += "%s  %s = %d;\n" % (ind, v, x)
        return s + ind + "}\n"

    def length(self):
        r = self.r
        return r.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, 40])

    def message(self, name, prefix, ind, visible, depth, inside_template=False):
        """Text of the message, its Type, the types it makes visible to others, weight (number of scalar slots)."""
        r = self.r
        full = prefix + "." + name
        inner, text_parts = [], []
        used_types = {name.lower()}
        scope_used = set()
        weight = 1
        may_template = r.random() < .6     # may have template parameters
        inside_template = inside_template or may_template
        if depth < 3 and r.random() < (.5 if depth == 0 else .3):
            for _ in range(r.choice([1, 1, 2, 3])):
                tn = self.type_name()
                used_types.add(tn.lower())
                if r.random() < .4:
                    text_parts.append(self.enum(tn, ind + "  ", scope_used))
                    inner.append(Type(full + "." + tn, "enum", False, None))
                else:
                    t, ty, more = self.message(tn, full, ind + "  ", visible + inner, depth + 1, inside_template)
                    text_parts.append(t)
                    inner.append(ty)
                    # In a template, types that are two levels down are dependent names, which the plugin does not support.
                    if not inside_template:
                        inner += more
        names, numbers = set(t.lower() for t in used_types), set()
        template = False
        nf = r.choice([0, 1, 2, 3, 4, 5, 6, 7, self.max_fields]) if depth else r.randint(1, self.max_fields)
        lines = []
        cands = [t for t in visible + inner if may_template or not t.template]
        inner_cands = [t for t in inner if may_template or not t.template]

        def one(label):
            nonlocal template, weight
            ty = None
            if cands and r.random() < .45:
                ty = r.choice(inner_cands if inner_cands and r.random() < .5 else cands)
                if ty.kind == "msg" and weight + self.w[ty.full] * 2 > self.weight:
                    ty = None
            fn = self.field_name(names)
            num = self.number(numbers)
            tn = ty.full if ty else r.choice(SCALARS)
            opts = []
            var = tn in ("string", "bytes") or label == "repeated"
            rep_str = label == "repeated" and tn in ("string", "bytes")
            if var and (not may_template or r.random() < (.3 if rep_str else .5)):
                opts.append("(EmbeddedProto.options).maxLength = %d" % self.length())
            elif var:
                template = True
            if ty is not None and ty.template:
                template = True
            if r.random() < .05:
                opts.append("deprecated = true")
            if label == "repeated" and not rep_str and (ty is None or ty.kind == "enum") and r.random() < .15:
                opts.append("packed = %s" % r.choice(["true", "false"]))
            r.shuffle(opts)
            weight += (self.w[ty.full] if ty is not None and ty.kind == "msg" else 1) * (2 if label == "repeated" else 1)
            c = "  // %s\n" % r.choice(["a comment", "50% \"done\" \\", "/* x", "see http://x.y/z"]) if r.random() < .06 else "\n"
            return "%s%s %s = %d%s;" % (label + " " if label else "", tn, fn, num, " [" + ", ".join(opts) + "]" if opts else "") + c
        for _ in range(nf):
            k = r.random()
            if k < .14:
                on = self.field_name(names)
                s = ind + "  oneof %s {\n" % on
                for _ in range(r.choice([1, 2, 2, 3, 5])):
                    s += ind + "    " + one("")
                lines.append(s + ind + "  }\n")
            else:
                lines.append(ind + "  " + one("" if k < .42 else "optional" if k < .72 else "repeated"))
        parts = lines + []
        # Definitions stand before, between or behind the fields.
        for t in text_parts:
            parts.insert(r.randint(0, len(parts)), t)
        if r.random() < .08:
            parts.append(ind + "  reserved \"gone\";\n")
        self.w[full] = weight
        # Inside a message with parameters nested types have no name of their own for others.
        visible_out = [] if may_template else inner
        return "%smessage %s {\n%s%s}\n" % (ind, name, "".join(parts), ind), Type(full, "msg", template, None), visible_out

    def files(self, n):
        """A list of (path, text); later files may import earlier ones."""
        r = self.r
        out, made = [], []
        for k in range(n):
            package = r.choice(PACKAGES)
            # The same file name may come in several folders, but not where #include "..." would find the wrong one first.
            while True:
                path = r.choice(["", "sub/", "sub/deep/", "other/"]) + r.choice(["file", "Schema", "my_file", "file", "my_file", "sub_file", "options", "unit_options", "my-file", "v1.file", "2d", "mydescriptor", "my.protos"]) + r.choice(["", "", "_%d" % k, "_%d" % r.randrange(3)]) + ".proto"
                if not any(("/" + m[0].lower()).endswith("/" + path.lower()) or ("/" + path.lower()).endswith("/" + m[0].lower()) for m in made):
                    break
            prefix = "." + package if package else ""
            imports = r.sample(range(len(made)), min(len(made), r.choice([0, 0, 1, 1, 2]))) if made else []
            public = [i for i in imports if r.random() < .3]
            visible, seen = [], set()
            for t in [t for i in imports for t in made[i][4]]:
                if t.full not in seen:
                    seen.add(t.full)
                    visible.append(t)
            google = r.sample(sorted(WELL_KNOWN), r.choice([1, 1, 2, 3])) if r.random() < .2 else []
            for g in google:
                for n, template in WELL_KNOWN[g]:
                    visible.append(Type(".google.protobuf." + n, "msg", bool(template), None))
                    self.w[".google.protobuf." + n] = 2
            parts, mine = [], []
            enum_scope = made_scope(made, package)
            for _ in range(r.choice([1, 2, 3, 4, 5])):
                tn = self.type_name()
                if r.random() < .25:
                    parts.append(self.enum(tn, "", enum_scope))
                    mine.append(Type(prefix + "." + tn, "enum", False, None))
                else:
                    t, ty, more = self.message(tn, prefix, "", visible + mine, 0)
                    parts.append(t)
                    mine.append(ty)
                    mine += more
            r.shuffle(parts)
            text = 'syntax = "proto3";\n'
            if package:
                text += "package %s;\n" % package
            text += 'import "embedded_proto_options.proto";\n'
            for i in imports:
                text += 'import %s"%s";\n' % ("public " if i in public else "", made[i][0])
            for g in google:
                text += 'import "google/protobuf/%s.proto";\n' % g
            if r.random() < .1:
                text += r.choice(['option java_package = "x.y";\n', "option optimize_for = CODE_SIZE;\n", "option cc_enable_arenas = true;\n"])
            msgs = [t.full for t in mine if t.kind == "msg"]
            if msgs and r.random() < .1:
                parts.append("service Serve%d { rpc Do(%s) returns (%s); rpc Feed(stream %s) returns (%s) {} }\n" % ((k,) + tuple(r.choice(msgs) for _ in range(4))))
            out.append((path, text + "".join(parts)))
            # What another file sees that imports this one.
            made.append((path, mine, package, enum_scope, mine + [t for i in public for t in made[i][4]]))
        return out


def made_scope(made, package):
    """Names of enum values are unique in their package."""
    for m in made:
        if m[2] == package:
            return m[3]
    return set()


def cyclic(r, prefix, where):
    """Messages that contain each other in a cycle, as text for the end of a file."""
    k = r.choice([2, 2, 3, 4, 6])
    names = ["Cycle%s%d" % (where, i) for i in range(k)]
    kind = r.randrange(4)
    def use(i, n):
        t = prefix + "." + n
        how = r.randrange(5)
        if how == 4:
            return "  oneof pick%d { uint32 other%d = 21; %s next%d = 22; }\n" % (i, i, t, i)
        return "  %s%s next%d = 22%s;\n" % (["", "optional ", "repeated ", "repeated "][how], t, i, " [(EmbeddedProto.options).maxLength = 3]" if how == 3 else "")
    if kind == 0:      # plain
        ms = ["message %s {\n  uint32 before = 20;\n%s}\n" % (n, use(i, names[(i + 1) % k])) for i, n in enumerate(names)]
    elif kind == 1:    # a nested message closes the cycle
        ms = ["message %s {\n  Nest nest = 1;\n  message Nest {\n%s  }\n}\n" % (n, use(i, names[(i + 1) % k])) if i == 0 else "message %s {\n%s}\n" % (n, use(i, names[(i + 1) % k])) for i, n in enumerate(names)]
    elif kind == 2:    # nested messages hold the enclosing one, at some depth
        d = r.choice([1, 2, 3])
        s = "message %s {\n  uint32 before = 20;\n" % names[0] + "".join("  In%d in%d = 1;\n  message In%d {\n" % (j, j, j) for j in range(d))
        s += use(0, names[0]) + "  }\n" * d + "}\n"
        ms = [s]
    else:              # siblings inside one message
        s = "message %s {\n" % names[0]
        s += "".join("  message S%d {\n%s  }\n" % (j, use(j, "%s.S%d" % (names[0], (j + 1) % k))) for j in range(k)) + "  S0 s = 1;\n}\n"
        ms = [s]
    r.shuffle(ms)
    return "".join(ms)


PROTO2 = """%spackage old;
message Old { optional uint32 x = 1; %s }
"""


# Shapes that the random schemas reach only now and then; every run of C21 has them.
SHAPES = [
    ("order.proto", """syntax = "proto3";
package shape.order;
import "embedded_proto_options.proto";
// Every use stands before the definition, at each level.
message First {
  Second second = 1;
  One one = 2;
  Level level = 3;
  message One {
    Two two = 1;
    optional Three three = 2;
    message Two {
      Four four = 1;
      repeated Five fives = 2 [(EmbeddedProto.options).maxLength = 2];
      oneof pick { Six six = 3; Last last = 4; uint32 plain = 5; }
      message Four { Five five = 1; Six six = 2; }
      message Five { optional Six six = 1; Last last = 2; }
      message Six { uint32 x = 1; Last last = 2; }
      enum Last { NONE = 0; SOME = 3; }
    }
    message Three { repeated Side sides = 1 [(EmbeddedProto.options).maxLength = 3]; Two.Six six = 2; }
    message Side { Two.Last last = 1; bytes raw = 2 [(EmbeddedProto.options).maxLength = 4]; }
  }
  enum Level { LOW = 0; HIGH = 2147483647; BELOW = -2147483648; }
}
message Second { optional Third third = 1; repeated Third.In ins = 2 [(EmbeddedProto.options).maxLength = 2]; Kind kind = 3; }
message Third { In in_one = 1; oneof o { In in_two = 2; Fourth fourth = 3; } message In { Fourth fourth = 1; Kind kind = 2; } }
message Fourth { Kind kind = 1; repeated Kind kinds = 2 [(EmbeddedProto.options).maxLength = 2]; optional Kind maybe = 3; }
enum Kind { K0 = 0; K1 = 1; }
"""),
    ("params.proto", """syntax = "proto3";
package shape.params;
import "embedded_proto_options.proto";
import "order.proto";
import "only/enums.proto";
// Parameters of messages that are defined later, in and out of oneofs.
message Top {
  oneof first { Mid mid_one = 1; string text = 2; bytes raw = 3 [(EmbeddedProto.options).maxLength = 5]; }
  repeated Mid mids = 4;
  optional Mid maybe = 5;
  repeated Low lows = 6 [(EmbeddedProto.options).maxLength = 2];
  string name = 7;
  repeated string names = 8;
  oneof second { Low low = 9; shape.order.Second other = 10; shape.only.Tone tone = 11; }
  repeated shape.only.Tone tones = 12;
}
message Mid { Low low = 1; bytes raw = 2; repeated Own owns = 3; Own own = 4; message Own { string s = 1; optional bytes b = 2; } }
message Low { repeated double d = 1; optional string s = 2; shape.order.First first = 3; }
message Free { message In { repeated uint32 v = 1; } repeated In ins = 1; optional In one = 2; oneof o { In two = 3; bool b = 4; } }
"""),
    ("only/enums.proto", """syntax = "proto3";
package shape.only;
enum Tone { option allow_alias = true; MUTE = 0; SILENT = 0; LOUD = 7; UNDER = -1; }
"""),
    ("only/nothing.proto", """syntax = "proto3";
package shape.only;
import "params.proto";
"""),
    ("only/through.proto", """syntax = "proto3";
import public "params.proto";
import public "only/enums.proto";
"""),
    ("bare.proto", """syntax = "proto3";
import "only/through.proto";
import "only/nothing.proto";
message bare { shape.params.Free free = 536870911; shape.only.Tone tone = 15; }
message Nothing {}
message Just { oneof one { Nothing nothing = 16; bare bare_one = 2047; } }
message Many { optional Nothing a = 1; repeated Nothing b = 2048; Nothing c = 262143; optional bool d = 262144; }
"""),
    ("joined.proto", """syntax = "proto3";
// Without a package; names that equal the joined names of other messages and the messages nested in them.
message Ab { Zz zz = 1; Cd cd = 2; message Cd { uint32 x = 1; Ef ef = 2; message Ef { sint32 z = 1; } } }
message Zz { optional bool q = 1; }
message Use { AbCd one = 1; optional AbCdEf two = 2; oneof o { CdEf three = 3; uint32 four = 4; } }
message AbCd { uint64 y = 1; }
message AbCdEf { fixed32 y = 1; }
message CdEf { float y = 1; }
"""),
]


# Names that the generated code cannot take at present, each listed in known_findings.txt with its key.
PROBES = [
    ("presence", "message M { optional int32 x = 1; int32 presence = 2; }"),
    ("which", "message M { oneof o { int32 x = 1; int32 y = 3; } int32 which_o = 2; }"),
    ("parameter", "message N { string b = 1; } message M { N x = 1; string x_N_b = 2; }"),
    ("base-class", "message Field { int32 x = 1; } message M { Field f = 1; }"),
    ("keyword", "message M { int32 x = 1; enum E { first = 0; delete = 1; } E e = 2; }"),
    ("not-set", "message M { int32 not_set = 1; }"),
]
