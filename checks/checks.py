"""The checks: for each property how it is run, the deciding technique, the level, what it assumes, and the rule by which cases count."""


ASAN_FLAGS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


def msg(env):
    import os
    guided = env.prop in ("C04", "C06", "C07", "C08")   # these run coverage guided inputs too
    env.run_shards(env.build_what_compiles("cov", flags=ASAN_FLAGS + ["-fsanitize-coverage=inline-8bit-counters"]) if guided else env.build_what_compiles("msg"))
    random_schemas(env, int(os.environ.get("VF_RANDOM", 4 if env.thorough else 0)))
    optimised(env, env.build_what_compiles, "msgopt")


def optimised(env, build, name, **kw):
    """The same check on code compiled as users do, optimised and not instrumented: what undefined behaviour can do to results."""
    import os
    if not (env.thorough or os.environ.get("VF_OPTIMISED")):
        return
    cc = env.cc
    for c in ("clang++", "g++"):
        env.cc = c
        env.run_shards(build(name, flags=["-D_GLIBCXX_ASSERTIONS"], adapter_opt="-O2", **kw), factor=2)
        env.counters["runs of code compiled with " + c + " -O2"] = 1
    env.cc = cc


def random_schemas(env, rounds, per=10):
    """The same check on the messages of random schemas. A schema for which no usable code is generated is the business of C21."""
    import random, run, schemagen
    for k in range(rounds):
        files = schemagen.Gen(random.Random(env.seed * 6007 + k).randrange(1 << 30)).files(per)
        d = write_schema(env, "s%d" % k, files)
        try:
            b = env.build("s%d" % k, proto_dir=d, files=[p for p, _ in files], drivers=("msg_main.cpp", "msg_codec.cpp", "msg_state.cpp", "msg_robust.cpp"), param_seed=100 + k, cache=False)
        except run.BuildError:
            if env.prop == "C23":
                raise
            env.counters["random schemas left out, no code that compiles"] = env.counters.get("random schemas left out, no code that compiles", 0) + 1
            continue
        env.run_shards(b, extra=["--salt", str(k)])
        env.counters["random schema files"] = env.counters.get("random schema files", 0) + len(files)


PRIM = ("prim_main.cpp", "prim_containers.cpp", "prim_buffers.cpp", "prim_wire.cpp")


def prim(env):
    kw = dict(drivers=(), instrumented=PRIM, adapters=False, gen_only=True, bridge=False,
              files=["scalars.proto", "texts.proto", "sub/imported.proto", "nested.proto"])
    env.run_shards(env.build("prim", **kw))
    optimised(env, env.build, "primopt", **kw)


ASAN = "ASan and UBSan watch every call"
ORACLE = "Trusts: Google's protobuf 3.21 as the standard implementation, the harness's reference decoder (cross-checked with it at run time)."
SAMPLE = "Random exploration by seed, not a proof. "
VALUES = "one case = one random value of one of the message types of /verif/proto; non-trivial: the value is not empty; distinct by type and bytes"
CHECKS = {}


def check(pid, run, technique, rule, level="exploration", note=SAMPLE + ORACLE, **kw):
    CHECKS[pid] = dict(run=run, technique=technique, level=level, rule=rule, note=note, **kw)


check("C01", msg, "runtime monitoring: round trip of random values compared bit for bit, under ASan and UBSan", VALUES)
check("C02", msg, "runtime monitoring: serialized bytes judged online by Google's protobuf parser and a structural scanner, under ASan and UBSan", VALUES)
check("C03", msg, "runtime monitoring: encodings of Google's protobuf decoded and compared, under ASan and UBSan", VALUES)
check("C04", msg, "runtime monitoring: non-canonical encodings decoded in lock step with a reference decoder and Google's protobuf", "one case = one or two valid encodings (reordered, repeated, split, padded) of random values; distinct by type and bytes")
check("C05", msg, "runtime monitoring: decoding with and without inserted unknown fields compared, under ASan and UBSan", "one case = a valid encoding with unknown fields or groups inserted at random boundaries and depths; distinct by type and bytes")
check("C06", msg, "sanitizers (ASan, UBSan) and buffer call monitors under hostile input", "one case = one or two hostile inputs (random bytes, random records, cut or changed encodings) into a new or used message, then the message is read, serialized, copied, cleared and used again; distinct by type and input")
check("C07", msg, "runtime monitoring: error codes judged by a reference decoder over truncated, damaged and hostile input", "one case = one input the reference decoder finds malformed: every prefix of encodings, one defect at a random place and depth, hostile bytes; distinct by type and input")
check("C08", msg, "runtime monitoring: inputs around every capacity judged by a capacity-aware reference decoder", "one case = an encoding in which one string or array at any depth has one less, exactly, or more than its capacity; distinct by type and bytes")
check("C09", msg, "runtime monitoring: serialization into guarded buffers of every size, checked against the full encoding", "one case = one value and one amount of free space; for encodings up to 200 bytes every amount from 0 to size+2; non-trivial: the encoding is not empty", level="fault_enumeration",
      note="Enumerates every buffer size for each sampled value; values are sampled. " + ORACLE)
check("C10", msg, "runtime monitoring: announced sizes and length prefixes compared with the bytes counted by monitored buffers", VALUES)
check("C11", msg, "runtime monitoring: random operation histories in lock step with a presence model", "one evaluation = the state after one operation of a random history on messages with optional fields; distinct by type and state, non-trivial: something is set")
check("C12", msg, "runtime monitoring: random operation histories in lock step with a oneof model", "one evaluation = the state after one operation of a random history on messages with oneofs; distinct by type and state, non-trivial: something is set")
check("C13", msg, "runtime monitoring: copies observed after every kind of copy and later change, under ASan", "one case = one history, then one kind of copy or assignment, then a change of one of the two; distinct by type, bytes and kind")
check("C14", msg, "runtime monitoring: cleared and new messages driven in lock step, and every state compared with a model", "one evaluation = a cleared and a new message compared after the same operations, or a message compared with its model after one operation; distinct by history or state")
check("C19", lambda env: env.run_shards(env.build_what_compiles("alloc", drivers=("msg_main.cpp", "msg_state.cpp", "msg_robust.cpp"), flags=ASAN_FLAGS + ["-DMSG_TO_STRING"])), "runtime monitoring: allocator hooks armed around every library call", "one case = all kinds of operations on one random value with the allocation hook of the sanitizer armed; distinct by type and bytes",
      note=SAMPLE + "Heap requests are seen through the allocator hooks of ASan.")


def capacities(env):
    env.run_shards(env.build("msg"))
    random_schemas(env, 20 if env.thorough else 3)


check("C23", capacities, "runtime monitoring: capacities probed through setters and from the wire, compared with a model of the declared lengths", "one case = all capacities of one instantiation, or an encoding at or just beyond the capacity of one field; distinct by type and bytes", build_failure_is_violation=True)
check("C25", msg, "runtime monitoring with fault injection: every call of the user's buffer made to fail in turn", "one case = one value (or encoding) and one call of the user's buffer that fails, once or from then on; every call for messages of up to 300 calls; distinct by type, bytes and call", level="fault_enumeration",
      note="Enumerates every failure position for each sampled value; values are sampled.")
check("C27", msg, "runtime monitoring: bytes of equal values reached through different histories compared", "one case = one random history whose value is serialized repeatedly and compared with the same value reached in another way; distinct by type and bytes")
check("C28", msg, "runtime monitoring: one input decoded from seven kinds of buffers, results compared", "one case = one input decoded from seven kinds of buffers, or a stream of messages in one buffer; distinct by type and input")

check("C17", prim, "runtime monitoring: random operation histories on read buffers and nested sections in lock step with a model, under ASan and UBSan", "one evaluation = one operation on a buffer or on one of up to four nested sections; distinct by buffer size and the operations just before")
check("C18", prim, "runtime monitoring: random push histories in lock step with a model, under ASan and UBSan", "one evaluation = the state after one operation; distinct by buffer size, content and the operations just before")
check("C26", prim, "runtime monitoring: every primitive and scalar field class judged by an independent encoder over limit, random and enumerated values, under ASan and UBSan", "one evaluation = one value through all primitives or one field class; non-trivial: not zero; distinct by value and width",
      note="Limit values and random patterns; the thorough tier runs the 32-bit primitives over all 2^32 values. Trusts the harness's own encoder.")
check("C15", lambda env: (prim(env), msg(env)), "runtime monitoring: random operation histories on repeated fields in lock step with a sequence model, on the field classes and through generated accessors, under ASan", "one evaluation = the state after one operation; distinct by field type and the operations just before (by type and state for messages); non-trivial: not empty")
check("C16", lambda env: (prim(env), msg(env)), "runtime monitoring: random operation histories on string and bytes fields in lock step with a byte sequence model, on the field classes and through generated accessors, under ASan", "one evaluation = the state after one operation; distinct by content, operation and capacity; non-trivial: not empty")
check("C20", lambda env: env.run_shards(env.build_what_compiles("str", drivers=("msg_main.cpp", "msg_string.cpp"), flags=ASAN_FLAGS + ["-DMSG_TO_STRING"])), "runtime monitoring: to_string into exactly sized heap arrays of every size under ASan, the text read back along the value", "one evaluation = one value and one array size (all sizes up to the text length plus two for short texts); non-trivial: the array is not empty; distinct by value and size", level="fault_enumeration",
      note="Enumerates array sizes for each sampled value; values are sampled. Floating point is compared within the six decimals shown.")
check("C24", lambda env: env.run_shards(env.build_what_compiles("tsan", drivers=("msg_main.cpp", "msg_threads.cpp"), flags=["-fsanitize=thread", "-DMSG_TO_STRING"]), shards=2), "race detector (ThreadSanitizer) and comparison of each thread's results with a run alone", "one case = six threads with random operations on own messages and reads of a common one, with injected delays; distinct by the order in which operations of the threads followed each other; non-trivial: at least one switch",
      note=SAMPLE + "ThreadSanitizer also reports races that did not change a result in the run.")


def write_schema(env, name, files):
    import os
    d = os.path.join(env.scratch, name)
    for path, text in files:
        os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
        with open(os.path.join(d, path), "w") as f:
            f.write(text)
    return d


def standards(env, name, stds):
    """Compiles each generated header alone, all messages instantiated, with both compilers and several standards."""
    import hashlib, os, run
    from concurrent.futures import ThreadPoolExecutor
    out = os.path.dirname(env.gen_dir)
    by = {}
    for line in open(os.path.join(out, "instances.txt")):
        h, t = line.rstrip("\n").split("\t")
        by.setdefault(h, []).append(t)
    jobs = []
    for k, (h, types) in enumerate(sorted(by.items())):
        src = os.path.join(env.scratch, "%s_std_%d.cpp" % (name, k))
        with open(src, "w") as f:
            # Twice: a header must be safe to include again.
            f.write('#include "%s"\n#include "%s"\n' % (h, h))
            for i, t in enumerate(types):
                if "<" in t:
                    f.write("template class %s;\n" % t[2:])
                f.write("unsigned long long use_%d() { %s a, b(a); a = b; EmbeddedProto::MessageSizeCalculator c; a.serialize(c); a.clear(); return a.serialized_size() + sizeof(a); }\n" % (i, t))
        jobs += [(h, src, cc, s) for cc, s in stds]

    def one(j):
        h, src, cc, s = j
        return j, run.sh([cc, "-std=" + s, "-fsyntax-only", "-w", "-I" + os.path.join(run.REPO, "src"), "-I" + env.gen_dir, src], timeout=600)
    with ThreadPoolExecutor(run.JOBS) as ex:
        for (h, src, cc, s), r in ex.map(one, jobs):
            env.evaluations += 1
            env.counters["headers compiled as " + cc + " " + s] = env.counters.get("headers compiled as " + cc + " " + s, 0) + 1
            env.distinct.add(int(hashlib.sha256((open(os.path.join(env.gen_dir, h)).read() + cc + s).encode()).hexdigest()[:15], 16))
            if r.returncode:
                env.fails.append(("compile:" + s, "%s does not compile with %s -std=%s: %s" % (h, cc, s, r.stderr.decode(errors="replace")[:3000])))


def names(env):
    """Schemas with names that clash in the generated code."""
    import os, run, schemagen
    from concurrent.futures import ThreadPoolExecutor
    env.plugin()

    def one(p):
        key, text = p
        d = write_schema(env, "name_" + key, [("m.proto", 'syntax = "proto3";\n' + text + "\n")])
        out = os.path.join(env.scratch, "out_name_" + key)
        r = env.protoc(d, ["m.proto"], out)
        if not r.returncode:
            src = os.path.join(d, "m.cpp")
            with open(src, "w") as f:
                f.write('#include "m.h"\n')
            r = run.sh(["g++", "-std=c++14", "-fsyntax-only", "-w", "-I" + os.path.join(run.REPO, "src"), "-I" + out, src], timeout=300)
        return key, text, r
    with ThreadPoolExecutor(run.JOBS) as ex:
        for key, text, r in ex.map(one, schemagen.PROBES):
            env.evaluations += 1
            env.counters["schemas with clashing names"] = env.counters.get("schemas with clashing names", 0) + 1
            if r.returncode:
                env.fails.append(("name:" + key, "%s: %s" % (text, r.stderr.decode(errors="replace")[:1500])))


def schemas(env):
    import random, run, schemagen
    stds = [("clang++", "c++11"), ("g++", "c++14"), ("clang++", "c++20"), ("g++", "c++11")]
    env.run_shards(env.build("msg"))
    standards(env, "fixed", stds)
    names(env)
    rounds, per = (40, 12) if env.thorough else (7, 8)
    for k in range(-1, rounds):
        seed = random.Random(env.seed * 7919 + k).randrange(1 << 30)
        files = schemagen.Gen(seed).files(per) if k >= 0 else schemagen.SHAPES
        d = write_schema(env, "s%d" % k, files)
        what = "random schema files" if k >= 0 else "files of fixed shapes"
        env.counters[what] = env.counters.get(what, 0) + len(files)
        if k == 0:
            env.samples.append(files[-1][1])
        try:
            b = env.build("s%d" % k, proto_dir=d, files=[p for p, _ in files], drivers=("msg_main.cpp", "msg_codec.cpp"), param_seed=2 + k, cache=False)
            env.run_shards(b, extra=["--salt", str(k)])
            standards(env, "s%d" % k, stds if env.thorough or k <= 0 else [stds[k % 4]])
        except run.BuildError as e:
            import os
            env.fails.append(("build:" + e.what.split(":")[0].replace(" ", "_"), "schema seed %d: %s\n%s\n%s" % (seed, e.what, e.detail, "\n".join("--- %s\n%s" % f for f in files)[:20000])))


check("C21", schemas, "runtime monitoring: random schemas through the plugin and the compilers, then exchange of random values with Google's protobuf, under ASan and UBSan", "one evaluation = one field's name, one value exchanged both ways, or one header compiled by one compiler; distinct by type and bytes, or by header, compiler and standard; non-trivial: the value is not empty", build_failure_is_violation=True)


def refusals(env):
    import glob, hashlib, os, random, run, schemagen, shutil
    from concurrent.futures import ThreadPoolExecutor
    env.plugin()
    rounds, per = (300, 8) if env.thorough else (60, 5)

    def outputs(d):
        return {os.path.relpath(f, d): open(f, "rb").read() for f in glob.glob(d + "/**", recursive=True) if os.path.isfile(f)}

    def call(proto_dir, files, tag, **e):
        out = os.path.join(env.scratch, "o_" + tag)
        r = env.protoc(proto_dir, files, out, env=dict(run.RUN_ENV, **e))
        res = outputs(out)
        shutil.rmtree(out, ignore_errors=True)
        return r.returncode, r.stderr.decode(errors="replace"), res

    def note(what, key):
        env.evaluations += 1
        env.counters[what] = env.counters.get(what, 0) + 1
        env.distinct.add(int(hashlib.sha256(key.encode()).hexdigest()[:15], 16))

    def one(k):
        r = random.Random(env.seed * 104729 + k)
        files = schemagen.Gen(r.randrange(1 << 30)).files(per)
        names = [p for p, _ in files]
        d = write_schema(env, "c22_%d" % k, files)
        text = "".join(t for _, t in files)
        found = []
        code, err, base = call(d, names, "%d_0" % k, PYTHONHASHSEED="0")
        if code or sorted(b for b in base if not b.startswith("google/protobuf/")) != sorted(n[:-6] + ".h" for n in names):
            return [("accept", "a supported schema is not accepted: %s %s\n%s" % (sorted(base), err, text))], []
        notes = [("requests of supported schemas", text)]
        # The same text whatever the hash seed, the order and the company.
        runs = [("again", names, dict(PYTHONHASHSEED="0")), ("hash seed", names, dict(PYTHONHASHSEED=str(r.randrange(1, 4000000000)))),
                ("order", r.sample(names, len(names)), dict(PYTHONHASHSEED="random", LC_ALL="C", TZ="Asia/Tokyo"))]
        runs += [("alone", [n], dict(PYTHONHASHSEED=str(r.randrange(1, 4000000000)))) for n in names]
        runs += [("pair", r.sample(names, 2), {})]
        for j, (what, ns, e) in enumerate(runs):
            code, err, res = call(d, ns, "%d_%d" % (k, j + 1), **e)
            notes.append(("runs compared: " + what, text + what + repr((ns, e))))
            missing = [n for n in ns if n[:-6] + ".h" not in res]
            if code or missing:
                found.append(("refused:" + what, "request %s fails: %s %s\n%s" % (ns, missing, err, text)))
            for h in sorted(res):
                if h in base and res[h] != base[h]:
                    found.append(("differs:" + what, "%s of the request %s %s differs from the first run\n%s" % (h, ns, e, text)))
        # What is not supported is refused, and nothing is written.
        for j in range(4):
            f = dict(files)
            victim = r.choice(names)
            pack = [l for l in f[victim].splitlines() if l.startswith("package ")]
            prefix = "." + pack[0][8:-1] if pack else ""
            if j < 3:
                what = "cycle"
                bad = schemagen.cyclic(r, prefix, "X")
                f[victim] += bad
            else:
                what = "proto2"
                bad = schemagen.PROTO2 % (r.choice(['syntax = "proto2";\n', ""]), r.choice(["", "required int32 y = 2;", "optional int32 y = 2 [default = 5];", "repeated int32 y = 2;", "extensions 100 to 200;"]))
                f["old_one.proto"] = bad
                if r.random() < .5:
                    f[victim] = f[victim].replace('import "embedded', 'import "old_one.proto";\nimport "embedded', 1)
            d2 = write_schema(env, "c22_%d_%d" % (k, j), f.items())
            ns = [victim] if r.random() < .3 and (what == "cycle" or "old_one" in f[victim]) else list(f)
            code, err, res = call(d2, ns, "%d_x%d" % (k, j), PYTHONHASHSEED=str(r.randrange(1, 4000000000)))
            if code and "eams_out" not in err:
                raise run.HarnessError("protoc itself refuses: " + err + bad)
            notes.append(("unsupported: " + what, bad + repr(ns)))
            if not code:
                found.append(("accepted:" + what, "no error for %s of %s" % (bad, ns)))
            if res:
                found.append(("written:" + what, "files %s written in spite of %s" % (sorted(res), bad)))
            shutil.rmtree(d2, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        return found, notes

    with ThreadPoolExecutor(run.JOBS) as ex:
        for found, notes in ex.map(one, range(rounds)):
            env.fails += found
            for what, key in notes:
                note(what, key)
    env.samples += [schemagen.cyclic(random.Random(env.seed + i), ".p", "X") for i in range(3)]


check("C22", refusals, "runtime monitoring: the plugin run by protoc over random schemas, its output compared over repeated, reordered, separate and combined requests; unsupported schemas injected", "one evaluation = one run of the plugin: a supported schema with another hash seed, order or company, or a schema with a cycle or proto2 file added; distinct by request")

# The quick tier of the fast checks runs this many times the cases named in the drivers.
for _pid, _n in {'C01': 6, 'C02': 6, 'C03': 6, 'C04': 6, 'C05': 8, 'C06': 3, 'C07': 5, 'C08': 5, 'C10': 8, 'C11': 4, 'C12': 10, 'C13': 10, 'C14': 3, 'C19': 8, 'C23': 5, 'C27': 10, 'C18': 4, 'C26': 3}.items():
    CHECKS[_pid]["quick"] = _n
