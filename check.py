#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's working tree.

Builds harness/<id>.cpp against the headers in /repo (plain and with sanitizers),
runs the generated cases, shrinks a failure into a replay file, writes
evidence/<ID>.json.  Exit 0: held on everything explored; 1: VIOLATION line; any
other: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from catalog import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 4
INC = ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "multirotor_simulator"),
       "-I" + os.path.join(REPO, "pid_controller", "include"), "-I/usr/include/eigen3"]
BASE = ["-std=c++17", "-w", "-fmax-errors=20"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment", "-fno-sanitize-recover=all"]
SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:print_stacktrace=0"}
PROBE = "#include <Eigen/Dense>\nint main(){return 0;}\n"


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace") + "\n[timed out]"


def compile_one(src, out, flags, cxx="g++"):
    cmd = [cxx] + [f for f in BASE if cxx == "g++" or not f.startswith("-fmax")] + flags + INC + [src, "-o", out]
    for attempt in range(2):
        rc, log = run(cmd, timeout=600)
        if rc == 0:
            return True, log
    return False, " ".join(cmd) + "\n" + log


class Check:
    def __init__(self, prop, tier, seed):
        self.p, self.tier, self.seed = prop, tier, seed
        self.id = prop["id"]
        self.src = os.path.join(HERE, "harness", self.id.lower() + ".cpp")
        self.build = os.path.join(HERE, "build", self.id)
        self.replays = os.path.join(HERE, "replays")
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": prop["rule"], "samples": [],
                    "oracle": prop["oracle"], "assertions_evaluated": 0, "discarded": 0, "nontrivial": 0,
                    "runs": [], "classes": {}}
        self.violation = None
        kf = json.load(open(os.path.join(HERE, "known_findings.json")))
        self.known = [f for f in kf["findings"] if f["property"] == self.id]
        self.seen = {}

    # -- running -----------------------------------------------------------
    def harness(self, binary, label, cases, seed, max_seconds, env=None):
        """one search; records coverage; sets self.violation on a failure"""
        if self.violation:
            return
        replay = os.path.join(self.replays, "%s.%s.replay" % (self.id, label))
        if os.path.exists(replay):
            os.unlink(replay)
        cmd = [binary, "--seed", str(seed), "--cases", str(cases), "--workers", str(CORES), "--replay-out", replay,
               "--max-seconds", str(max_seconds)]
        for f in self.known:
            cmd += ["--known", f["id"]]
        d = None
        for attempt in range(2):
            out = os.path.join(self.build, label + ".json")
            rc, log = run(cmd + ["--out", out], timeout=max_seconds + 400, env=env)
            try:
                d = json.load(open(out))
            except Exception:
                d = None
            if rc in (0, 1) and d:
                break
            # 3: a failure that its own replay does not repeat: run the whole search again
        if d is None:
            raise RuntimeError("harness %s ended with %s\n%s" % (label, rc, log[-2000:]))
        self.record(label, d)
        if d["status"] != "ok":
            self.violation = (replay, "%s: %s%s" % (d["fail_prop"], d["fail_msg"],
                                                    "" if d["status"] == "fail" else " (not reproduced alone)"))

    def record(self, label, d):
        c = self.cov
        c["evaluations"] += d["cases"]
        c["discarded"] += d["discarded"]
        c["assertions_evaluated"] += d["checks"]
        c["nontrivial"] += d["nontrivial"]
        # the runs use different seeds, hence different cases
        c["distinct_nontrivial"] += d["distinct_nontrivial"]
        if label.startswith("main"):
            for k, v in d["classes"].items():
                c["classes"][k] = c["classes"].get(k, 0) + v
            if len(c["samples"]) < 10:
                c["samples"] += d["samples"][:10 - len(c["samples"])]
        c["runs"].append({"run": label, "seed": d["seed"], "cases": d["cases"], "assertions": d["checks"],
                          "nontrivial": d["nontrivial"], "distinct_nontrivial": d["distinct_nontrivial"]})
        for k, v in d["findings"].items():
            self.seen.setdefault(k, v)

    # -- coverage-guided fuzzing of the same oracle ---------------------------
    def fuzz(self, binary, seconds, opt, san):
        if self.violation:
            return
        scratch = tempfile.mkdtemp(prefix="pbtfuzz")
        try:
            procs = []
            for i in range(CORES):
                wd = os.path.join(scratch, "w%d" % i)
                os.makedirs(os.path.join(wd, "corpus"))
                env = dict(os.environ)
                env.update(SAN_ENV)
                env["PBT_FUZZ_REPLAY"] = os.path.join(wd, "case")
                env["PBT_KNOWN"] = " ".join(f["id"] for f in self.known)
                log = open(os.path.join(wd, "log"), "wb")
                # even workers start from an empty corpus, odd ones from random tapes
                if i % 2:
                    import random
                    r = random.Random(self.seed * 1000 + i)
                    for k in range(20):
                        with open(os.path.join(wd, "corpus", "s%d" % k), "wb") as f:
                            f.write(bytes(r.getrandbits(8) for _ in range(1 + 4 * r.randint(20, 600))))
                procs.append((wd, log, subprocess.Popen(
                    [binary, "-seed=%d" % (self.seed * 100 + i + 1), "-max_total_time=%d" % seconds, "-max_len=6000",
                     "-timeout=120", "-rss_limit_mb=3000", "-close_fd_mask=1", "-print_final_stats=1",
                     "-artifact_prefix=" + wd + "/", "corpus"], cwd=wd, env=env, stdout=log, stderr=log)))
            execs, edges = 0, 0
            crashed = []
            for wd, log, pr in procs:
                try:
                    pr.wait(timeout=seconds + 200)
                except subprocess.TimeoutExpired:
                    pr.kill()
                    pr.wait()
                log.close()
                t = open(os.path.join(wd, "log"), "rb").read().decode("utf-8", "replace")
                m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", t)
                execs += int(m[-1]) if m else 0
                m = re.findall(r"cov: (\d+)", t)
                edges = max([edges] + [int(x) for x in m])
                arts = [x for x in os.listdir(wd) if x.startswith("crash-")]
                if arts:
                    crashed.append((wd, os.path.join(wd, arts[0])))
            self.cov["runs"].append({"run": "libFuzzer", "executions": execs, "edges": edges, "processes": CORES,
                                     "seconds": seconds, "crashes": len(crashed)})
            self.cov["evaluations"] += execs
            for wd, art in crashed:
                case = os.path.join(wd, "case")
                replay = os.path.join(self.replays, "%s.fuzz.replay" % self.id)
                known = sum([["--known", f["id"]] for f in self.known], [])
                done = False
                if os.path.exists(case):
                    for b, env in ((opt, None), (san, SAN_ENV)):
                        rc, _ = run([b, "--shrink-from", case, "--replay-out", replay] + known, timeout=600, env=env)
                        if rc == 1:
                            msg = [x for x in open(replay).read().splitlines() if x.startswith("message ")]
                            self.violation = (replay, "found by libFuzzer: " + (msg[0][8:] if msg else ""))
                            done = True
                            break
                if not done:
                    bad = sum(run([binary, art], timeout=200, env=SAN_ENV)[0] != 0 for _ in range(3))
                    if bad == 3 and not os.path.exists(case):
                        shutil.copy(art, replay)
                        self.violation = (replay, "libFuzzer input makes the code crash")
                    else:
                        self.cov["runs"].append({"run": "libFuzzer", "unconfirmed": 1})
                if self.violation:
                    return
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    # -- the check -----------------------------------------------------------
    def main(self):
        opt, san, fz = (os.path.join(self.build, x) for x in ("opt", "san", "fuzz"))
        thorough = self.tier == "thorough"
        q = self.p["quick"]
        with ThreadPoolExecutor(3) as ex:
            fs = ex.submit(compile_one, self.src, san, ["-O1", "-g0"] + SAN)
            ff = None
            if thorough:
                ff = ex.submit(compile_one, self.src, fz, ["-O1", "-DPBT_FUZZ", "-fsanitize=fuzzer"] + SAN, "clang++")
            ok, log = compile_one(self.src, opt, ["-O2"])
            if not ok:
                self.compile_failure(log)
            else:
                if thorough:
                    for k in range(2):
                        self.harness(opt, "main%d" % k, q * 10, self.seed + 7919 * k, 220)
                else:
                    self.harness(opt, "main", q, self.seed, 200)
                ok, log = fs.result()
                if not ok:
                    self.compile_failure(log)
                else:
                    n = max(200, q // (4 if thorough else 40))
                    self.harness(san, "sanitizers", n, self.seed + 1000003, 120, SAN_ENV)
                    if ff:
                        ok, log = ff.result()
                        if ok:
                            self.fuzz(fz, 150, opt, san)
                        else:
                            self.cov["runs"].append({"run": "libFuzzer", "skipped": "did not build: " + log[-500:]})
        self.finish()

    def compile_failure(self, log):
        if self.violation:
            return
        probe = os.path.join(self.build, "probe.cpp")
        open(probe, "w").write(PROBE)
        ok, plog = compile_one(probe, os.path.join(self.build, "probe"), ["-O0"])
        if not ok:
            raise RuntimeError("the compiler does not work here\n" + plog)
        # the compiler works: the library cannot be instantiated the way the property's
        # public interface requires
        replay = os.path.join(self.replays, "%s.compile.log" % self.id)
        open(replay, "w").write(log)
        errs = [x for x in log.splitlines() if "error" in x]
        self.violation = (replay, "the public interface does not compile: " + (errs[0] if errs else ""))

    def finish(self):
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": self.cov, "assumptions": self.p["assumptions"], "wall_s": round(time.time() - self.t0, 2),
              "violations": 1 if self.violation else 0}
        path = os.path.join(HERE, "evidence", self.id + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        print("%s %s seed %d: %d cases, %d distinct non-trivial, %d assertions, %.0f s"
              % (self.id, self.tier, self.seed, self.cov["evaluations"], self.cov["distinct_nontrivial"],
                 self.cov["assertions_evaluated"], ev["wall_s"]))
        for f in self.known:
            if f["id"] in self.seen:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.id, f["id"], f["what"]))
        if self.violation:
            print("failed: " + self.violation[1][:1500])
            print("VIOLATION property=%s replay=%s" % (self.id, self.violation[0]))
        sys.stdout.flush()
        shutil.rmtree(self.build, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
        sys.exit(1 if self.violation else 0)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        with tempfile.TemporaryDirectory() as d:
            src = os.path.join(d, "p.cpp")
            open(src, "w").write("#include <Eigen/Dense>\nint main(){return 0;}\n")
            ok, log = compile_one(src, os.path.join(d, "p"), ["-O1"] + SAN)
            if not ok:
                print(log)
                sys.exit(2)
        for x in ("build", "replays", "evidence"):
            os.makedirs(os.path.join(HERE, x), exist_ok=True)
        print("setup ok")
        return
    prop = [p for p in PROPS if p["id"] == a[0]][0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        Check(prop, tier, seed).main()
    except RuntimeError as e:
        print("CHECK ERROR:", e)
        sys.exit(2)


main()
