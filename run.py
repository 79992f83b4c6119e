#!/usr/bin/env python3
"""Runs one check: run.py Cxx [--tier quick|thorough] [--seed N] [--only name:index]

Builds the plugin's output and the harness from /repo's working tree, runs the monitored workload of the property, writes
/verif/evidence/Cxx.json and gives the verdict: exit 0 held, exit 1 with a VIOLATION line, exit 2 error of the check.
"""
import argparse, array, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
JOBS = max(2, min(8, os.cpu_count() or 2))


class HarnessError(Exception):
    pass


class BuildError(Exception):
    """The plugin refused a supported schema, or its output does not compile."""
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail
        self.headers = set()     # generated headers the compiler complains about


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if "__pycache__" not in d and not f.endswith(".pyc"))
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
RUN_ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
               ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=4096",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=77:halt_on_error=1",
               TSAN_OPTIONS="exitcode=66:halt_on_error=1")
PROTOS = ["huge.proto", "scalars.proto", "texts.proto", "nested.proto", "oneofs.proto", "numbers.proto", "nopackage.proto", "many.proto", "sub/imported.proto"]


class Env:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.plugin_dir = None
        self.only = None
        self.cc = os.environ.get("VF_CC", "clang++")
        self.build_s = 0.0
        self.fails = []          # (key, text)
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- plugin
    def plugin(self):
        """A copy of the generator with its options module generated, and a wrapper protoc can call."""
        if self.plugin_dir:
            return self.plugin_dir
        d = os.path.join(self.scratch, "plugin")
        shutil.copytree(os.path.join(REPO, "generator"), d, ignore=shutil.ignore_patterns("__pycache__", "*.egg-info", "embedded_proto_options_pb2.py"))
        r = sh(["protoc", "-I", d, "--python_out=" + os.path.join(d, "EmbeddedProto"), os.path.join(d, "embedded_proto_options.proto")])
        if r.returncode:
            raise HarnessError("options module: " + r.stderr.decode()[-2000:])
        w = os.path.join(d, "plugin.sh")
        with open(w, "w") as f:
            f.write("#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s exec %s -c 'import sys; from EmbeddedProto.main import main_plugin; sys.exit(main_plugin())'\n" % (d, os.path.join(REPO, "venv/bin/python")))
        os.chmod(w, 0o755)
        self.plugin_dir = d
        return d

    def protoc(self, proto_dir, files, out, env=None):
        d = self.plugin()
        os.makedirs(out, exist_ok=True)
        return sh(["protoc", "--plugin=protoc-gen-eams=" + os.path.join(d, "plugin.sh"), "-I" + proto_dir, "-I" + os.path.join(REPO, "generator"),
                   "--eams_out=" + out] + files, env=env or RUN_ENV)

    def descriptor_set(self, proto_dir, files, out):
        r = sh(["protoc", "-I" + proto_dir, "-I" + os.path.join(REPO, "generator"), "--include_imports", "-o", out] + files)
        if r.returncode:
            raise HarnessError("descriptor set: " + r.stderr.decode()[-2000:])

    # ---------------------------------------------------------------- compiling
    def compile_all(self, jobs):
        """jobs: list of (source, object, flags). Raises BuildError with the first failing source."""
        def one(j):
            src, obj, flags = j
            r = sh([self.cc, "-c", src, "-o", obj] + flags, timeout=800)
            return src, r.returncode, r.stderr.decode(errors="replace")
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, jobs))
        bad = [(s, e) for s, c, e in res if c]
        if bad:
            e = BuildError("does not compile: " + os.path.basename(bad[0][0]), bad[0][1][:6000])
            text = "\n".join(x[1] for x in bad)
            e.headers = set(re.findall(r"/gen/(\S+)\.h:\d+:\d+: error", text)) or set(re.findall(r"/gen/(\S+)\.h:\d+", text))
            raise e

    def build(self, name, **kw):
        """As build_with(), with g++ when clang++ does not accept the code: what one of them refuses is the business of C21."""
        try:
            return self.build_with(name, **kw)
        except BuildError:
            if self.prop == "C21" or self.cc == "g++":
                raise
            self.cc = "g++"
            self.counters["built with g++, clang++ refuses the code"] = 1
            if kw.get("flags"):
                kw = dict(kw, flags=[f for f in kw["flags"] if "coverage" not in f])   # not known to g++
            return self.build_with(name, **kw)

    def build_with(self, name, proto_dir=None, files=None, drivers=("msg_main.cpp", "msg_codec.cpp", "msg_state.cpp", "msg_robust.cpp"), instrumented=("glue.cpp",), flags=None, adapter_opt=None, param_seed=1, units=8, adapters=True, gen_only=False,
              bridge=True, lib_sources=True, link=None, cache=True):
        """Generate, compile and link; returns the binary. The result is kept in .build, keyed by everything it depends on."""
        t0 = time.time()
        proto_dir = proto_dir or os.path.join(HERE, "proto")
        files = files or PROTOS
        flags = list(flags if flags is not None else ASAN)
        adapter_opt = adapter_opt or ("-O1" if self.thorough else "-O0")
        H = os.path.join(HERE, "harness")
        key = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "generator/EmbeddedProto"), os.path.join(REPO, "generator/embedded_proto_options.proto"), H, proto_dir)
        key = hashlib.sha256(repr((key, self.cc, name, files, drivers, instrumented, flags, adapter_opt, param_seed, units, adapters, bridge, link)).encode()).hexdigest()[:16]
        root = os.path.join(HERE, ".build") if cache else os.path.join(self.scratch, "b")
        out = os.path.join(root, name + "-" + key)
        binary, fds = os.path.join(out, "drv"), os.path.join(out, "fds.bin")
        if cache and os.path.exists(os.path.join(out, "done")):
            self.fds = fds
            self.gen_dir = os.path.join(out, "gen")
            return binary
        if cache:
            for old in glob.glob(os.path.join(root, name + "-*")):
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        gen = os.path.join(out, "gen")
        os.makedirs(gen, exist_ok=True)
        common = ["-std=c++17", "-g1", "-I" + H, "-I" + os.path.join(REPO, "src"), "-I" + gen, "-w"]
        jobs = []
        if adapters or gen_only:
            r = self.protoc(proto_dir, files, gen)
            if r.returncode:
                raise BuildError("the plugin refuses a supported schema", r.stderr.decode(errors="replace")[-4000:])
        if adapters:
            self.descriptor_set(proto_dir, files, fds)
            r = sh([os.path.join(REPO, "venv/bin/python"), os.path.join(H, "gen_adapter.py"), fds, out, str(units), str(param_seed)] + files, env=RUN_ENV)
            if r.returncode:
                raise HarnessError("gen_adapter: " + r.stderr.decode()[-3000:])
            n = int(r.stdout)
            jobs += [(os.path.join(out, "adapter_%d.cpp" % k), os.path.join(out, "adapter_%d.o" % k), common + flags + [adapter_opt]) for k in range(n)]
        # Code that only observes is compiled without instrumentation.
        for d in list(drivers) + ["runtime.cpp"] + (["bridge.cpp"] if bridge else []):
            jobs.append((os.path.join(H, d), os.path.join(out, d[:-4] + ".o"), common + ["-D_GLIBCXX_ASSERTIONS", "-O2" if self.thorough else "-O0"]))
        for d in instrumented:
            jobs.append((os.path.join(H, d), os.path.join(out, d[:-4] + ".o"), common + flags + [adapter_opt]))
        if lib_sources:
            for s in sorted(glob.glob(os.path.join(REPO, "src/*.cpp"))):
                jobs.append((s, os.path.join(out, "lib_" + os.path.basename(s)[:-4] + ".o"), common + flags + [adapter_opt]))
        self.compile_all(jobs)
        r = sh([self.cc] + flags + [j[1] for j in jobs] + (["-lprotobuf"] if bridge else []) + ["-lpthread", "-o", binary] + (link or []))
        if r.returncode:
            raise BuildError("does not link", r.stderr.decode(errors="replace")[-4000:])
        for j in jobs:
            os.unlink(j[1])
        open(os.path.join(out, "done"), "w").close()
        self.fds, self.gen_dir = fds, gen
        self.build_s += time.time() - t0
        return binary

    def build_what_compiles(self, name, **kw):
        """As build(), but schemas for which no usable code is generated are left out: that defect is the business of C21, and the
        property is decided with the others."""
        files = list(PROTOS)
        while True:
            try:
                return self.build(name, files=files, **kw)
            except BuildError as e:
                if e.headers:
                    bad = {f for f in files if f[:-6] in e.headers}
                else:
                    bad = {f for f in files if self.protoc(os.path.join(HERE, "proto"), [f], os.path.join(self.scratch, "alone")).returncode}
                text = {f: open(os.path.join(HERE, "proto", f)).read() for f in files}
                left = list(files)
                while bad & set(left) or any('import "%s"' % b in text[f] for f in left for b in bad):
                    bad |= {f for f in left if any('import "%s"' % b in text[f] for b in bad)}
                    left = [f for f in left if f not in bad]
                if not bad or not left:
                    raise
                for f in files:
                    if f not in left:
                        self.counters["schema left out, no code that compiles: " + f] = 1
                files = left

    # ---------------------------------------------------------------- running
    def run_shards(self, binary, prop=None, shards=None, timeout=None, extra=(), env=None, factor=None):
        prop = prop or self.prop
        shards = 1 if self.only else (shards or JOBS)
        timeout = timeout or (10800 if self.thorough else 300)
        e = dict(RUN_ENV, VF_FDS=getattr(self, "fds", ""))
        e.update(env or {})

        def one(k, attempt=0):
            out = os.path.join(self.scratch, "r%d_%d_%d.json" % (id(binary) % 99991, k, attempt))
            case = out + ".case"
            cmd = [binary, "--property", prop, "--seed", str(self.seed), "--tier", self.tier, "--shard", "%d/%d" % (k, shards), "--out", out, "--case", case] + list(extra)
            if factor:
                cmd += ["--factor", str(factor)]
            q = sys.modules["checks"].CHECKS.get(prop, {}).get("quick")
            if q:
                cmd += ["--quick", str(q)]
            if self.only:
                cmd += ["--only", self.only]
            try:
                r = sh(cmd, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                where = open(case, "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(case) else ""
                if attempt == 0:
                    res = one(k, 1)
                    if res[0] != "timeout":
                        return res
                    if res[1] == where:
                        return ("hang", where, None)
                    raise HarnessError("time limit reached twice, in different cases")
                return ("timeout", where, None)
            where = open(case, "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(case) else ""
            return (r, where, out)

        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, range(shards)))
        for r, where, out in results:
            if r == "hang":
                self.fails.append(("hang", "the same case did not end within %d s, twice: %s" % (timeout, where)))
                continue
            so, se = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
            for line in so.splitlines():
                m = re.match(r"FAIL key=(\S.*?) :: (.*)", line)
                if m:
                    self.fails.append((m.group(1), m.group(2)))
            if r.returncode == 2 or "HARNESS ERROR" in se:
                raise HarnessError(se[-3000:])
            if r.returncode not in (0, 3):
                s = re.search(r"SUMMARY: (\S+: \S+ [^\n]*)", se) or re.search(r"(runtime error: [^\n]*)", se) or re.search(r"(Assertion [^\n]*)", se) or re.search(r"(WARNING: ThreadSanitizer: [^\n]*)", se)
                kind = re.sub(r"0x[0-9a-f]+|/\S*/|\d+", "", s.group(1))[:120].strip() if s else "exit %d" % r.returncode
                self.fails.append(("crash:" + kind.replace(" ", "_"), "the process died (%s) in case: %s\n%s" % (r.returncode, where, se[-6000:])))
            self.merge(out)

    def merge(self, out):
        if out and os.path.exists(out):
            d = json.load(open(out))
            self.evaluations += d["evaluations"]
            for k, v in d["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            self.samples += d["samples"]
            a = array.array("Q")
            with open(out + ".hashes", "rb") as f:
                a.frombytes(f.read())
            self.distinct.update(a)


def known_findings(prop):
    res = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res


def setup():
    """Everything is built by the checks themselves; this only tells early if a tool is missing."""
    for tool in ("clang++", "protoc", os.path.join(REPO, "venv/bin/python")):
        if not shutil.which(tool):
            print("missing: " + tool, file=sys.stderr)
            return 2
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        sys.exit(setup())
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.modules["run"] = sys.modules[__name__]   # so that checks.py sees the same classes
    import checks
    t0 = time.time()
    env = Env(a.property, a.tier, a.seed)
    env.only = a.only
    spec = checks.CHECKS[a.property]
    code = 0
    try:
        try:
            spec["run"](env)
        except BuildError as e:
            if not spec.get("build_failure_is_violation"):
                raise HarnessError(e.what + "\n" + e.detail)
            env.fails.append(("build:" + e.what.split(":")[0].replace(" ", "_"), e.what + "\n" + e.detail))
        if not env.fails and not env.evaluations and not a.only:
            raise HarnessError("nothing was observed")
        known = known_findings(a.property)
        seen, new = {}, []
        for key, text in env.fails:
            for k, what in known:
                if fnmatch.fnmatchcase(key, k):
                    seen.setdefault(k, what)
                    break
            else:
                new.append((key, text))
        for k, what in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (a.property, what))
        if new:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s.json" % (a.property, hashlib.sha256(repr(sorted(new)).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": a.property, "tier": a.tier, "seed": a.seed,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s  (add --only NAME:INDEX with the case named below to run just that case)" % (a.seed, a.tier, a.property),
                           "violations": [{"key": k, "what": t} for k, t in new[:20]]}, f, indent=1)
            for k, t in new[:8]:
                print("  %s: %s" % (k, t.replace("\n", " | ")[:700]))
            print("VIOLATION property=%s replay=%s" % (a.property, path))
            code = 1
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"evaluations": env.evaluations, "distinct_nontrivial": len(env.distinct), "rule": spec["rule"], "samples": env.samples[:5],
               "observed": dict(sorted(env.counters.items())), "build_s": round(env.build_s, 1)}
        if seen:
            cov["known_findings_observed"] = sorted(seen)
        with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
            json.dump({"property": a.property, "tier": a.tier, "seed": a.seed, "level": spec["level"], "coverage": cov,
                       "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}, f, indent=1)
        if code == 0:
            print("%s held: %d evaluations, %d distinct and non-trivial, %.1f s" % (a.property, env.evaluations, len(env.distinct), time.time() - t0))
    except HarnessError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        code = 2
    finally:
        if a.keep:
            print("kept", env.scratch)
        else:
            env.cleanup()
    sys.exit(code)


if __name__ == "__main__":
    main()
