#!/usr/bin/env python3
"""Builds the monitors of one property from /repo's working tree and runs them.

usage: run.py ID            quick tier (VERIF_TIER=thorough: thorough tier)
       run.py --setup       check the toolchain and build everything once
       run.py --replay F    re-run the witness of a reported violation
Exit: 0 held on everything explored, 1 violation (with a VIOLATION line),
2 no verdict (build failure, monitor failure, nothing observed, time).
"""
import glob, concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS, BUILDS  # noqa: E402

CXX = "clang++-18"
BUILD = os.path.join(VERIF, "build")
JAR = "/usr/share/java/proto-google-common-protos.jar"
FUZZ_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"
SHARDS = 8
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=88:detect_leaks=0:quarantine_size_mb=48:max_allocation_size_mb=2500:hard_rss_limit_mb=3500:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=89",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=87:history_size=4:hard_rss_limit_mb=3500:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_bytes(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ building
# Whatever else of abseil the code under test may come to use.
ABSL_ANY = ["-Wl,--as-needed"] + sorted("-l" + os.path.basename(f)[3:-3] for f in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))
def tree_hash():
    """Content of everything a build reads."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "shim")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cc", ".h", ".proto", ".inc")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + file_bytes(p) + b"\0")
    h.update(file_bytes(os.path.join(VERIF, "tools", "props.py")))
    h.update(file_bytes(os.path.abspath(__file__)))
    return h.hexdigest()[:24]


def gen_protos(gen):
    os.makedirs(gen, exist_ok=True)
    z = zipfile.ZipFile(JAR)
    for n in ("google/api/http.proto", "google/api/annotations.proto"):
        z.extract(n, gen)
    cmds = [["protoc", "-I" + gen, "--cpp_out=" + gen, "google/api/http.proto", "google/api/annotations.proto"]]
    h = os.path.join(VERIF, "harness")
    for p in sorted(f for f in os.listdir(h) if f.endswith(".proto")):
        cmds.append(["protoc", "-I" + h, "--cpp_out=" + gen, p])
        cmds.append(["protoc", "-I" + h, "--include_imports", "--descriptor_set_out=" + os.path.join(gen, p[:-6] + ".ds"), p])
    for c in cmds:
        r = sh(c, cwd=gen)
        if r.returncode:
            raise NoVerdict("protoc failed:\n" + r.stdout)


class Compiler:
    """Objects shared between the binaries of one run; one directory per tree."""

    def __init__(self):
        self.dir = os.path.join(BUILD, tree_hash())
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(self.dir, exist_ok=True)
        # keep the directory of this tree and the newest other one
        others = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.join(BUILD, d) != self.dir), key=os.path.getmtime)
        for d in others[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        done = os.path.join(self.dir, "gen.done")
        if not os.path.exists(done):
            gen_protos(self.gen)
            open(done, "w").close()

    def sources(self, b):
        if "repo_only" in b:
            return [os.path.join(REPO, "src", f) for f in b["repo_only"]]
        out = []
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):
            q = os.path.join(REPO, "src", f)
            if f.endswith(".cc") and f[:-3] not in b.get("exclude", ()):
                if b.get("exclude") and b"google/protobuf/util/converter" in file_bytes(q):
                    continue
                out.append(q)
        return out

    def build(self, names):
        jobs, links = {}, []
        for name in names:
            b = BUILDS[name]
            objs = []
            inc = ["-I" + os.path.join(VERIF, i) for i in b.get("include_first", ())]
            inc += ["-I" + os.path.join(REPO, "src/include"), "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-I" + self.gen]
            todo = [(s, b["repo_flags"]) for s in self.sources(b)]
            todo += [(os.path.join(VERIF, s), b["flags"]) for s in b["harness"]]
            todo += [(os.path.join(VERIF, s), f) for s, f in b.get("plain", {}).items()]
            todo += [(os.path.join(self.gen, s), ["-O1"]) for s in b.get("gen", ())]
            for src, flags in todo:
                real = [] if src in [os.path.join(VERIF, s) for s in b.get("no_shim", ())] else inc
                if not real:
                    real = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim"), "-I" + self.gen]
                cmd = [CXX, "-std=c++20", "-g1", "-fno-omit-frame-pointer", "-w"] + list(flags) + real + ["-c", src]
                key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:16]
                obj = os.path.join(self.dir, os.path.basename(src)[:-3] + "-" + key + ".o")
                jobs[obj] = cmd
                objs.append(obj)
            links.append((name, [CXX] + b["link_flags"] + objs + [FUZZ_RT if x == "FUZZ_RT" else x for x in b["libs"]] + ABSL_ANY))

        def compile_one(item):
            obj, cmd = item
            if os.path.exists(obj):
                return None
            tmp = obj + ".%d.tmp" % os.getpid()
            r = sh(cmd + ["-o", tmp])
            if r.returncode:
                return "compiling failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:]
            os.rename(tmp, obj)
            return None

        with cf.ThreadPoolExecutor(8) as ex:
            # big ones first
            order = sorted(jobs.items(), key=lambda it: -os.path.getsize(it[1][-1]))
            for err in ex.map(compile_one, order):
                if err:
                    raise NoVerdict(err)
        out = {}
        for name, cmd in links:
            exe = os.path.join(self.dir, name)
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                r = sh(cmd + ["-o", tmp])
                if r.returncode:
                    raise NoVerdict("linking failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])
                os.rename(tmp, exe)
            out[name] = exe
        return out


# ---------------------------------------------------------------- dictionary
def harvest(path):
    """Constants of the sources under test, as inputs to try."""
    ints, strs = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if not f.endswith((".cc", ".h")):
                continue
            s = file_bytes(os.path.join(d, f)).decode("utf-8", "replace")
            s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
            s = re.sub(r"//[^\n]*", " ", s)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                try:
                    t = m.group(1).encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace")
                except Exception:
                    continue
                if 0 < len(t) <= 40:
                    strs.add(t)
            for m in re.finditer(r"'((?:[^'\\\n]|\\.){1,4})'", s):
                try:
                    t = m.group(1).encode().decode("unicode_escape").encode("latin-1", "replace")
                except Exception:
                    continue
                if len(t) == 1:
                    strs.add(t)
                    strs.add(t + t)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)(?=[uUlL]*\b)", s):
                t = m.group(1).replace("'", "")
                try:
                    v = int(t, 0) if not (len(t) > 1 and t[0] == "0" and t[1] not in "xX") else int(t, 8)
                except ValueError:
                    continue
                if 1 < v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r"(\d+)\s*<<\s*(\d+)", s):
                if int(m.group(2)) < 63:
                    ints.add(int(m.group(1)) << int(m.group(2)))
            for m in re.finditer(r"(\d+)\s*\*\s*(\d+)", s):
                ints.add(int(m.group(1)) * int(m.group(2)))
    with open(path, "w") as o:
        for v in sorted(ints):
            o.write("i %d\n" % v)
        for t in sorted(strs):
            o.write("s %s\n" % t.hex())
    return len(ints), len(strs)


# ------------------------------------------------------------------- running
class Shard:
    def __init__(self, cmd, out, env, label):
        os.makedirs(out, exist_ok=True)
        self.cmd, self.out, self.label = cmd, out, label
        self.log = open(os.path.join(out, "log"), "wb")
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=self.log, env=env, cwd=out, start_new_session=True)
        self.start = time.time()
        self.last, self.last_t = None, time.time()
        self.hung = False

    def progress(self):
        try:
            return hashlib.md5(file_bytes(os.path.join(self.out, "progress"))).digest() + bytes(str(os.path.getsize(os.path.join(self.out, "log"))), "ascii")
        except OSError:
            return None

    def poll(self, stall):
        rc = self.p.poll()
        if rc is not None:
            return True
        now = self.progress()
        if now != self.last:
            self.last, self.last_t = now, time.time()
        elif time.time() - self.last_t > stall:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self, n=6000):
        self.log.flush()
        b = file_bytes(os.path.join(self.out, "log"))
        # the start of a sanitizer report matters more than its end
        i = b.find(b"ERROR: ")
        j = b.find(b"WARNING: ThreadSanitizer")
        k = b.find(b"runtime error:")
        at = [v for v in (i, j, k) if v >= 0]
        if at:
            return b[max(0, min(at) - 200):min(at) + n].decode("utf-8", "replace")
        return b[-n:].decode("utf-8", "replace")

    def case(self):
        """What was running, from the mapped progress block."""
        try:
            b = file_bytes(os.path.join(self.out, "progress"))
            case_no, seed, shard, shards, done, phase, nl = struct.unpack_from("<QQQQQII", b)
            return {"phase": phase, "seed": seed, "shard": shard, "shards": shards, "note": b[48:48 + nl].decode("utf-8", "replace")}
        except Exception:
            return None


def crash_kind(rc, text):
    m = re.search(r"ERROR: (?:Address|Thread|Leak)Sanitizer: ([\w-]+)", text)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", text)
    if m:
        return "tsan:" + m.group(1).replace(" ", "-")
    if "runtime error:" in text:
        return "ubsan"
    if "libFuzzer: out-of-memory" in text or "hard rss limit" in text:
        return "memory-exhausted"
    if "libFuzzer: timeout" in text:
        return "hang"
    m = re.search(r"ERROR: libFuzzer: ([\w -]+)", text)
    if m:
        return "crash:" + m.group(1).strip().replace(" ", "-")
    if rc < 0:
        return "crash:signal-%d" % -rc
    return "crash:exit-%d" % rc


def run_group(cmds, env, stall, deadline):
    """cmds: list of (cmd, out, label). Runs SHARDS at a time; stops at the
    first shard that fails."""
    todo, running, done = list(cmds), [], []
    fail = None
    while todo or running:
        while todo and len(running) < SHARDS and fail is None:
            c, o, l = todo.pop(0)
            running.append(Shard(c, o, env, l))
        if fail is not None and not running:
            break
        time.sleep(0.02)
        for s in list(running):
            if s.poll(stall):
                running.remove(s)
                done.append(s)
                if (s.hung or s.p.returncode != 0) and fail is None:
                    fail = s
        if fail is not None:
            for s in running:
                s.kill()
            running = []
            todo = []
        if time.time() > deadline:
            for s in running:
                s.kill()
            raise NoVerdict("time limit of the check reached")
    return done, fail


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    d = json.load(open(p))
    return [k for k in d.get("findings", []) if k["property"] == pid]


def main():
    if sys.argv[1:2] == ["--setup"]:
        return setup()
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        return check(pid, tier, seed, t0, work)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, t0, work):
    cfg = PROPS[pid]
    thorough = tier == "thorough"
    deadline = t0 + (3300 if thorough else 840)
    if thorough:
        deadline = t0 + float(os.environ.get("VP_THOROUGH_LIMIT", "860"))
    known = load_known(pid)
    comp = Compiler()
    exes = comp.build(sorted({ph["build"] for ph in cfg["phases"]}))
    built = time.time()
    ni, ns = harvest(os.path.join(work, "dict"))
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["VP_DICT"] = os.path.join(work, "dict")
    env["VP_GEN"] = comp.gen
    counters, evals, samples, distinct, known_seen, phases_done = {}, 0, [], set(), {}, []
    for pi, ph in enumerate(cfg["phases"]):
        cases = ph["thorough" if thorough else "quick"]
        if not cases:
            continue
        cmds = []
        for i in range(SHARDS):
            out = os.path.join(work, "p%d-%d" % (pi, i))
            base = [exes[ph["build"]], "--prop", cfg.get("monitor", pid), "--out", out, "--tier", "1" if thorough else "0"]
            for k in known:
                base += ["--known", k["kind"]]
            if ph["mode"] == "random":
                cmd = base + ["--mode", "random", "--seed", str(seed), "--shard", str(i), "--shards", str(SHARDS), "--cases", str(max(1, cases // SHARDS))]
            else:
                corpus = os.path.join(out, "corpus")
                os.makedirs(corpus)
                cmd = base + ["--mode", "fuzz", "--", "-runs=%d" % max(1, cases // SHARDS), "-seed=%d" % (seed * 1000 + i + 1), "-max_len=%d" % ph.get("max_len", 1500),
                              "-timeout=120", "-rss_limit_mb=3500", "-malloc_limit_mb=2500", "-print_final_stats=1", "-use_value_profile=%d" % (i & 1), "-artifact_prefix=" + out + "/", "-len_control=10", corpus]
            cmds.append((cmd, out, (ph["build"], ph["mode"], i)))
        done, fail = run_group(cmds, env, 60 if not thorough else 90, deadline)
        if fail is not None:
            v = judge(pid, cfg, ph, fail, exes, env, work, known, deadline)
            if v is None:
                # a hang that did not repeat, or a known finding that ends the process
                pass
            else:
                return report(pid, tier, seed, v, t0, cfg, counters, evals)
        for s in done:
            p = os.path.join(s.out, "stats.json")
            if not os.path.exists(p):
                if s is fail:
                    continue
                raise NoVerdict("a monitor wrote no statistics: " + s.tail(300))
            st = json.load(open(p))
            evals += st["evals"]
            for k, n in st["counters"].items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
            for k, n in st["known"].items():
                known_seen[k] = known_seen.get(k, 0) + n
            if ph["mode"] == "random" or not samples:
                samples += st["samples"][:2]
            b = file_bytes(os.path.join(s.out, "distinct.bin"))
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            if ph["mode"] == "fuzz":
                m = re.search(r"#\d+\s+DONE\s+cov: (\d+) ft: (\d+)", s.tail(20000))
                if m:
                    counters["max_fuzz_coverage_edges"] = max(counters.get("max_fuzz_coverage_edges", 0), int(m.group(1)))
        phases_done.append("%s/%s:%d" % (ph["build"], ph["mode"], cases))
        for c, o, l in cmds:
            shutil.rmtree(o, ignore_errors=True)
    missing = [k for k in cfg["required"] if not counters.get(k)]
    if missing:
        raise NoVerdict("the monitors observed nothing of: " + ", ".join(missing))
    for k in known:
        if known_seen.get(k["kind"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    write_evidence(pid, tier, seed, cfg, t0, counters, evals, distinct, samples, phases_done, (ni, ns), built, 0)
    print("%s held on %d cases (%d distinct non-trivial), %.1f s (build %.1f s)" % (pid, evals, len(distinct), time.time() - t0, built - t0))
    return 0


def write_evidence(pid, tier, seed, cfg, t0, counters, evals, distinct, samples, phases, dic, built, violations):
    # what was judged: lookups etc. where a case holds several of them
    units = sum(counters.get(u, 0) for u in cfg.get("unit", ())) or evals
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": units, "cases": evals, "distinct_nontrivial": len(distinct) if not isinstance(distinct, int) else distinct,
            "rule": cfg["rule"], "samples": [s[:1500] for s in samples[:8]] or ["none"],
            "observed": counters, "phases": phases,
            "source_constants_tried": {"integers": dic[0], "strings": dic[1]}, "build_s": round(built - t0, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)


def judge(pid, cfg, ph, s, exes, env, work, known, deadline):
    """What a failed shard means. None: not a violation after all."""
    rc = s.p.returncode
    exe = exes[ph["build"]]
    if rc == 77 and os.path.exists(os.path.join(s.out, "violation.json")):
        v = json.load(open(os.path.join(s.out, "violation.json")))
        return {"kind": v["kind"], "msg": v["msg"], "what": v["what"], "build": ph["build"]}
    if rc == 3:
        raise NoVerdict("monitor failure: " + s.tail(3000))
    c = s.case() or {}
    if ph["mode"] == "fuzz":
        art = [os.path.join(s.out, f) for f in sorted(os.listdir(s.out)) if f.startswith(("crash-", "timeout-", "oom-"))]
        what = "bytes:" + art[0] if art else "unknown"
    elif c.get("phase") == 1:
        what = "seed:%d" % c["seed"]
    else:
        what = "enum:%d:%d" % (c.get("shard", 0), c.get("shards", SHARDS))
    if rc == -signal.SIGKILL and not s.hung:
        raise NoVerdict("a monitor was killed from outside (memory?): " + s.tail(1000))
    text = s.tail()
    note = c.get("note", "")
    if s.hung or "libFuzzer: timeout" in text:
        # decide on a second run of that case alone
        if what == "unknown":
            raise NoVerdict("a fuzzing run made no progress and left no input")
        cmd = [exe, "--prop", cfg.get("monitor", pid), "--mode", "replay", "--what", what, "--out", os.path.join(work, "again")]
        r = Shard(cmd, os.path.join(work, "again"), env, "again")
        while not r.poll(60):
            time.sleep(0.05)
            if time.time() > deadline + 30:
                r.kill()
                raise NoVerdict("a case made no progress; no time to run it again")
        if r.hung:
            return {"kind": "hang", "msg": "no progress for 60 s, twice, in: " + note, "what": what, "build": ph["build"]}
        if r.p.returncode == 0:
            raise NoVerdict("a case stalled once but ran through when repeated: " + what)
        return judge(pid, cfg, dict(ph, mode="random"), r, exes, env, work, known, deadline)
    kind = crash_kind(rc, text)
    return {"kind": kind, "msg": "exit %d in: %s\n%s" % (rc, note, text), "what": what, "build": ph["build"]}


def report(pid, tier, seed, v, t0, cfg, counters, evals):
    for k in load_known(pid):
        if k["kind"] == v["kind"] and (not k.get("match") or k["match"] in v["msg"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            raise NoVerdict("a known finding ended the run early")
    rd = os.path.join(VERIF, "replay")
    os.makedirs(rd, exist_ok=True)
    what = v["what"]
    name = "%s-%s" % (pid, hashlib.sha256((v["kind"] + what + str(seed)).encode()).hexdigest()[:10])
    if what.startswith("bytes:") and os.path.exists(what[6:]):
        shutil.copy(what[6:], os.path.join(rd, name + ".bin"))
        what = "bytes:" + os.path.join(rd, name + ".bin")
    path = os.path.join(rd, name + ".json")
    with open(path, "w") as f:
        json.dump({"property": pid, "kind": v["kind"], "build": v["build"], "what": what, "tier": tier, "seed": seed, "message": v["msg"],
                   "replay_cmd": "python3 %s --replay %s" % (os.path.join(VERIF, "tools/run.py"), path)}, f, indent=1)
        f.write("\n")
    print("%s: %s\n%s" % (pid, v["kind"], v["msg"][:3000]))
    write_evidence(pid, tier, seed, cfg, t0, counters, evals + 1, 0, [v["msg"]], [], (0, 0), time.time(), 1)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def replay(path):
    d = json.load(open(path))
    cfg = PROPS[d["property"]]
    comp = Compiler()
    exe = comp.build([d["build"]])[d["build"]]
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        harvest(os.path.join(work, "dict"))
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["VP_DICT"] = os.path.join(work, "dict")
        env["VP_GEN"] = comp.gen
        r = sh([exe, "--prop", cfg.get("monitor", d["property"]), "--mode", "replay", "--what", d["what"], "--out", work, "--tier", "1" if d["tier"] == "thorough" else "0"], env=env)
        print(r.stdout[-8000:])
        p = os.path.join(work, "violation.json")
        if os.path.exists(p):
            v = json.load(open(p))
            print(v["kind"] + "\n" + v["msg"])
        print("reproduced" if r.returncode else "not reproduced")
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    for tool in (CXX, "protoc"):
        if not shutil.which(tool):
            print("missing tool: " + tool)
            return 1
    os.makedirs(BUILD, exist_ok=True)
    try:
        Compiler().build(sorted({ph["build"] for c in PROPS.values() for ph in c["phases"]}))
    except NoVerdict as e:
        print(e)
        return 1
    print("built all monitors")
    return 0


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    sys.exit(main())
