#!/usr/bin/env python3
"""Runs the bounded exhaustive exploration that decides one property of /repo.

  check.py <property> [--tier quick|thorough]    explore; exit 0 (held on everything explored) or 1 (VIOLATION)
  check.py --replay <artefact>                   rebuild from /repo and run the recorded case alone
  check.py --setup                               check that the tools the checks need are there

The spaces are listed in jobs.py; the harnesses (harness/*.cpp) take the headers of /repo's working tree.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CHDR_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from jobs import PROPERTIES, Job  # noqa: E402

CXX = "g++"
BASE = ["-std=c++17", "-w", "-pthread"]
FLAVOURS = {
    "plain": ["-O1"],
    "asan":  ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C.UTF-8")
CORES = os.cpu_count() or 8


class Failure(Exception):
    pass


def compile_(*args):
    cmd = [CXX, *BASE, *args]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Failure("harness does not build: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))


def build(job, out):
    h = os.path.join(ROOT, "harness")
    common = [*job.flags, "-I" + REPO, "-I" + h, *["-D" + d for d in job.defs]]
    if job.flavour == "race":  # instrumented for the scheduler of sched_rt.cpp, which stands in for the sanitizer's run-time
        compile_("-O2", "-fsanitize=thread", *common, "-c", os.path.join(h, job.src), "-o", out + ".o")
        compile_("-O2", "-fno-threadsafe-statics", "-c", os.path.join(h, "sched_rt.cpp"), "-o", out + "rt.o")
        compile_(out + ".o", out + "rt.o", "-o", out, *["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset")], "-ldl")
        return
    if job.units:  # one translation unit per value of UNIT, compiled side by side
        objects = [out + ".%d.o" % u for u in range(job.units)]
        with cf.ThreadPoolExecutor(job.units) as pool:
            list(pool.map(lambda u: compile_(*FLAVOURS[job.flavour], *common, "-DUNIT=%d" % u, "-c", os.path.join(h, job.src), "-o", objects[u]), range(job.units)))
        compile_(*FLAVOURS[job.flavour], *objects, "-o", out, *job.libs)
        return
    compile_(*FLAVOURS[job.flavour], *common, os.path.join(h, job.src), "-o", out, *job.libs)


class Run:
    """One property check: builds every harness, runs all shards in parallel, merges what they report."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.spec = prop, tier, PROPERTIES[prop]
        self.t0 = time.time()
        self.limit = self.spec.get("limit", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
        self.lock = threading.Lock()
        self.families, self.violations, self.errors = {}, [], []
        self.first_violation = None
        self.procs = set()
        self.truncated = False
        self.known = load_known(prop)
        self.dir = tempfile.mkdtemp(prefix="chdrmc-")

    # -- execution -------------------------------------------------------------------------------------------
    def overdue(self):
        now = time.time()
        if now - self.t0 > self.limit:
            return True
        return self.first_violation is not None and now - self.first_violation > (20 if self.tier == "quick" else 120)

    def shard(self, job, exe, i, n):
        if self.overdue():
            self.truncated = True
            return
        cmd = [exe, "--shard", f"{i}/{n}", "--tier", self.tier, *job.args]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        for line in p.stdout:
            try:
                self.take(job, json.loads(line))
            except ValueError:
                self.errors.append("unreadable output of %s: %s" % (job.name, line[:200]))
        rc = p.wait()
        with self.lock:
            self.procs.discard(p)
        if rc != 0 and not self.truncated:
            self.errors.append("%s shard %d/%d ended with %d" % (job.name, i, n, rc))

    def take(self, job, r):
        with self.lock:
            f = self.families.setdefault((job.name, r["family"]), dict(total=r["total"], done=0, nontrivial=0, transitions=0,
                aborted=False, outcomes=set(), samples=[], counters=[0] * 64, seen=0, shards=r["shard"][1]))
            f["done"] += r["done"]; f["nontrivial"] += r["nontrivial"]; f["transitions"] += r["transitions"]
            f["aborted"] |= r["aborted"]; f["outcomes"].update(r["outcomes"]); f["samples"] += r["samples"][:2]
            f["counters"] = [max(a, b) if k < 32 else a + b for k, (a, b) in enumerate(zip(f["counters"], r["counters"]))]
            f["seen"] += 1
            for v in r["violations"]:
                if v["kind"] in job.kinds:
                    self.violations.append((job, r["family"], v))
                    if self.first_violation is None and (v["kind"], case_of(v["text"])) not in self.known:
                        self.first_violation = time.time()

    def watchdog(self, stop):
        while not stop.wait(0.5):
            if self.overdue():
                with self.lock:
                    self.truncated = True
                    for p in list(self.procs):
                        try:
                            os.killpg(p.pid, 9)
                        except OSError:
                            pass

    def explore(self):
        jobs = self.spec["jobs"](self.tier)
        exes = {}
        with cf.ThreadPoolExecutor(CORES) as pool:
            builds = {}
            for j in jobs:
                key = j.binary()
                if key not in builds:
                    exe = os.path.join(self.dir, hashlib.sha1(repr(key).encode()).hexdigest()[:16])
                    builds[key] = pool.submit(build, j, exe)
                    exes[key] = exe
            for b in cf.as_completed(builds.values()):
                b.result()
        stop = threading.Event()
        dog = threading.Thread(target=self.watchdog, args=(stop,), daemon=True)
        dog.start()
        with cf.ThreadPoolExecutor(CORES) as pool:
            todo = [(j, i) for i in range(max(j.shards for j in jobs)) for j in jobs if i < j.shards]
            for f in [pool.submit(self.shard, j, exes[j.binary()], i, j.shards) for j, i in todo]:
                f.result()
        stop.set(); dog.join()
        self.exes = exes

    # -- verdict ---------------------------------------------------------------------------------------------
    def confirm(self, job, family, v):
        """Runs the recorded case alone (with four times the CPU bound) and returns what it reports, if anything."""
        r = replay_case(self.exes[job.binary()], job, family, v["index"], self.tier)
        return [w for w in r if w["kind"] in job.kinds] or None

    def verdict(self):
        known = self.known
        new, seen, flaky, listed = [], set(), [], set()
        for job, family, v in self.violations:
            key = (job.name, family, v["kind"])
            case = case_of(v["text"])
            if (v["kind"], case) in known:
                listed.add((v["kind"], case))
                continue
            if key in seen or len(new) >= 8:
                continue
            c = self.confirm(job, family, v)
            if c is None and len(flaky) < 6:
                flaky.append((job, family, v))
                continue
            if c is None:
                continue
            seen.add(key)
            new.append((job, family, dict(v, text=c[0]["text"], kind=c[0]["kind"]), "case"))
        if not new and flaky:
            # The case alone does not show it: the cases before it in the same process may matter. Run its shard again.
            for job, family, v in flaky[:3]:
                for i in range(job.shards):
                    r = run_raw(self.exes[job.binary()], ["--family", family, "--shard", f"{i}/{job.shards}", "--tier", self.tier, *job.args])
                    again = [w for x in r for w in x["violations"] if w["kind"] in job.kinds and w["index"] == v["index"]]
                    if again:
                        new.append((job, family, dict(again[0], shard=i), "shard"))
                        break
                if new:
                    break
            if not new:
                print("note: %d reports could not be reproduced and are disregarded" % len(flaky))
        for kind, case in sorted(listed):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, kind, case))
        for job, family, v, how in new:
            path = self.artefact(job, family, v, how)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s: %s" % (v["kind"], v["text"][:400]))
        self.evidence(len(new), len(listed))
        return 1 if new else 0

    def artefact(self, job, family, v, how):
        d = os.path.join(ROOT, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        doc = dict(property=self.prop, job=job.to_json(), family=family, index=v["index"], kind=v["kind"], tier=self.tier,
                   how=how, shard=v.get("shard"), text=v["text"], command="python3 check.py --replay <this file>")
        name = hashlib.sha1(json.dumps([doc["job"], family, v["kind"], v["index"]]).encode()).hexdigest()[:12]
        path = os.path.join(d, name + ".json")
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        return path

    def evidence(self, nviol, nlisted):
        fam = self.families
        tot = lambda k: sum(f[k] for f in fam.values())
        complete = bool(fam) and all(f["done"] == f["total"] and not f["aborted"] for f in fam.values()) and not self.truncated
        outcomes = sum(len(f["outcomes"]) for f in fam.values())
        samples, per = [], {}
        for (name, family), f in sorted(fam.items()):
            e = per.setdefault(family, dict(configurations=0, cases=0, nontrivial=0))
            e["configurations"] += 1; e["cases"] += f["done"]; e["nontrivial"] += f["nontrivial"]
            if f["samples"] and len(samples) < 12 and (len(samples) < 4 or hash(family) % 3 == 0):
                samples.append(f["samples"][0])
        level = self.spec["level"]
        cov = dict(exhaustive=complete, samples=samples or ["(none)"], rule=self.spec["rule"], families=per)
        if level == "model_checking":
            cov.update(states=outcomes, transitions=tot("transitions"), traces_validated_against_impl=tot("done"))
        else:
            cov.update(evaluations=tot("done"), distinct_nontrivial=tot("nontrivial"), distinct_outcomes=outcomes, steps_checked=tot("transitions"))
        for i, label in self.spec.get("counters", {}).items():
            vals = [f["counters"][i] for f in fam.values()]
            cov[label] = max(vals) if i < 32 else sum(vals)
        if self.truncated:
            cov["truncated"] = "stopped after a violation or at the time limit; the counts are what was covered until then"
        doc = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
                   assumptions=self.spec.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", self.prop + ".json"))
        n = cov.get("evaluations", cov.get("traces_validated_against_impl"))
        print("%s %s: %d families, %d executions, %s, %d distinct outcomes, %.1f s%s" % (
            self.prop, self.tier, len(fam), n, "exhaustive" if complete else "NOT complete", outcomes, time.time() - self.t0,
            ", %d known findings" % nlisted if nlisted else ""))


def case_of(text):
    return re.split(r" :: | answer=", text)[0].strip()


def load_known(prop):
    """known_findings.txt: `finding: property=<id> kind=<kind> case=<case as printed>` and `fixed: ...` (information only)."""
    known = set()
    path = os.path.join(ROOT, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) kind=(\S+) case=(.*)", line)
        if m and m[1] == prop:
            known.add((m[2], m[3].strip()))
    return known


def run_raw(exe, args, ticks=None, timeout=600, stderr=subprocess.DEVNULL):
    env = dict(ENV, MC_TICKS=str(ticks)) if ticks else ENV
    p = subprocess.Popen([exe, *args], stdout=subprocess.PIPE, stderr=stderr, text=True, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
    res = []
    for l in out.splitlines():
        try:
            res.append(json.loads(l))
        except ValueError:
            pass
    return res


def replay_case(exe, job, family, index, tier, stderr=subprocess.DEVNULL):
    r = run_raw(exe, ["--family", family, "--replay", str(index), "--tier", tier, *job.args], ticks=64, stderr=stderr)
    return [w for x in r for w in x["violations"]]


def replay(path):
    doc = json.load(open(path))
    job = Job.from_json(doc["job"])
    d = tempfile.mkdtemp(prefix="chdrmc-")
    try:
        exe = os.path.join(d, "harness")
        build(job, exe)
        if doc["how"] == "case":
            r = replay_case(exe, job, doc["family"], doc["index"], doc["tier"], stderr=None)
        else:
            r = [w for x in run_raw(exe, ["--family", doc["family"], "--shard", f"{doc['shard']}/{job.shards}", "--tier", doc["tier"], *job.args], stderr=None)
                 for w in x["violations"]]
        for w in r:
            print("%s: %s" % (w["kind"], w["text"]))
        bad = [w for w in r if w["kind"] in job.kinds]
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--setup":
        for tool in (CXX, "clang++"):
            if shutil.which(tool) is None:
                print("missing: " + tool)
                return 2
        return 0
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    run = Run(prop, tier)
    try:
        run.explore()
        code = run.verdict()
        if code == 0 and run.errors:
            print("\n".join(run.errors[:10]))
            return 2
        return code
    except Failure as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
