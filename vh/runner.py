"""Decides one property: builds the tree, runs its checks in parallel workers,
writes the evidence, and reports (exit 0 / exit 1 with VIOLATION / exit 2)."""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as build_mod

VERIF = build_mod.VERIF
N_CPU = max(1, min(8, os.cpu_count() or 1))
KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


def derive_seed(*parts):
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:7], "big")


def read_known(prop):
    """Lines `known: property=<id> key=<key> <what>`; `fixed:` lines are ignored."""
    known = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                fields = line.split(None, 3)
                if len(fields) == 4 and fields[0] == "known:" and fields[1] == "property=" + prop \
                        and fields[2].startswith("key="):
                    known[fields[2][4:]] = fields[3].strip()
    return known


class Job:
    def __init__(self, prop, check, mode, arg, variant, tmp, envs, idx):
        self.check = check
        self.out = os.path.join(tmp, "out-%s.json" % idx)
        self.journal = os.path.join(tmp, "journal-%s.json" % idx)
        self.stderr = os.path.join(tmp, "err-%s.txt" % idx)
        self.cwd = os.path.join(tmp, "cwd-%s" % idx)
        os.makedirs(self.cwd)
        self.cmd = [build_mod.PYTHON, "-m", "vh.worker", prop, check, str(mode), str(arg), self.out, self.journal]
        self.env = dict(envs[variant])
        self.env["VH_SCRATCH"] = self.cwd
        self.env["TMPDIR"] = self.cwd
        # spacepy rewrites its configuration on every import
        self.env["SPACEPY"] = os.path.join(tmp, "spacepy-%s" % idx)
        shutil.copytree(envs[variant]["SPACEPY"], self.env["SPACEPY"])
        self.variant = variant
        self.process = None
        self.started = None
        self.mode = mode

    def start(self):
        self.started = time.time()
        self.process = subprocess.Popen(
            self.cmd, cwd=self.cwd, env=self.env, stdin=subprocess.DEVNULL,
            stdout=open(self.stderr, "wb"), stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.process.wait()

    def result(self):
        rc = self.process.returncode
        if rc == 0 and os.path.exists(self.out):
            with open(self.out) as f:
                res = json.load(f)
        else:
            res = {"status": "crash", "rc": rc, "message": "worker process ended with status %s%s" % (
                rc, " (%s)" % signal.Signals(-rc).name if rc is not None and rc < 0 else "")}
            try:
                with open(self.stderr, errors="replace") as f:
                    res["message"] += "\n" + f.read()[-3000:]
            except OSError:
                pass
            try:
                with open(self.journal) as f:
                    res["case"] = json.loads(f.read())
            except (OSError, ValueError):
                res["case"] = None
        return res


def run_jobs(jobs, time_limit):
    pending, running, done = list(jobs), [], []
    end = time.time() + time_limit
    stop = False
    while pending or running:
        while pending and len(running) < N_CPU and not stop:
            job = pending.pop(0)
            job.start()
            running.append(job)
        if stop:
            pending = []
        time.sleep(0.02)
        for job in list(running):
            if job.process.poll() is not None:
                running.remove(job)
                res = job.result()
                done.append((job, res))
                if res["status"] != "ok":
                    stop = True
                    # let the others have a moment, the first failure decides
                    end = min(end, time.time() + 5)
        if time.time() > end:
            for job in running:
                job.kill()
                if not stop:
                    done.append((job, {"status": "error", "message": "time limit (inconclusive)", "case": None}))
            running, pending = [], []
    return done


def asan_env(target):
    env = build_mod.worker_env(target)
    libs = []
    for lib in ("libasan.so", "libubsan.so"):
        path = subprocess.check_output(["gcc", "-print-file-name=" + lib], text=True).strip()
        libs.append(os.path.realpath(path))
    env["LD_PRELOAD"] = " ".join(libs)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1000:detect_odr_violation=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["PYTHONMALLOC"] = "malloc"
    return env


class Replayer:
    """runs histories of cases, each in a new process"""

    def __init__(self, prop, tmp, envs):
        self.prop, self.tmp, self.envs, self.count = prop, tmp, envs, 0

    def __call__(self, check, variant, cases, limit):
        self.count += 1
        path = os.path.join(self.tmp, "replay-%d.txt" % self.count)
        with open(path, "w") as f:
            f.write("".join(text + "\n" for text in cases))
        job = Job(self.prop, check, "replay", path, variant, self.tmp, self.envs, "replay-%d" % self.count)
        done = run_jobs([job], limit)
        return done[0][1] if done else {"status": "error", "message": "time limit (inconclusive)"}


def confirm(replayer, job, res, confirmed, started):
    """Reproduces a failure. Returns the cases needed before the failing one
    (none, for a failure which does not depend on the history) or None.
    """
    def left():
        return max(30, 800 - (time.time() - started))

    def fails(cases):
        out = replayer(job.check, job.variant, cases, min(300, left()))
        if out["status"] not in ("violation", "crash"):
            return False
        res["message"] = out.get("message") or res["message"]
        if out.get("case") is not None:
            res["case"] = out["case"]
        return True

    if fails([json.dumps(res["case"])]):
        return []
    if confirmed:
        return None
    try:
        with open(job.journal + ".history") as f:
            cases = f.read().splitlines()
    except OSError:
        return None
    # the shortest sufficient tail, then without its needless parts
    size = 2
    while not fails(cases[-size:]):
        if size >= len(cases):
            return None
        size *= 4
    cases = cases[-size:]
    end = time.time() + min(120, left() / 2)
    block = len(cases) // 2
    while block and time.time() < end:
        pos = 0
        while pos + block < len(cases) and time.time() < end:
            trial = cases[:pos] + cases[pos + block:]
            if fails(trial):
                cases = trial
            else:
                pos += block
        block //= 2
    fails(cases)
    return cases[:-1]


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    parser.add_argument("--only", help="run only this check")
    parser.add_argument("--scale", type=float, default=1.0, help="multiplies the numbers of cases")
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    prop = args.property
    started = time.time()

    tmp = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        return decide(args, prop, tier, seed, tmp, started)
    except build_mod.BuildError as error:
        print("ERROR: the tree does not build: %s" % error)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(args, prop, tier, seed, tmp, started):
    sys.path.insert(0, build_mod.site())
    target = build_mod.build("plain")
    envs = {"plain": build_mod.worker_env(target)}

    # list of the checks of the property (in a process with the tree under test)
    code = ("import json,warnings; warnings.simplefilter('ignore')\n"
            "from vh.worker import load; r,k=load(%r)\n"
            "print('CHECKS'+json.dumps([[c.name,c.quick,c.thorough,c.rule,c.variant,c.shards] for c in r.values()])"
            "+'|'+json.dumps(sorted(k)))" % prop)
    listing_env = dict(envs["plain"], SPACEPY=os.path.join(tmp, "spacepy-list"))
    shutil.copytree(envs["plain"]["SPACEPY"], listing_env["SPACEPY"])
    listing = subprocess.run([build_mod.PYTHON, "-c", code], env=listing_env, cwd=tmp,
                             stdin=subprocess.DEVNULL, capture_output=True, text=True)
    lines = [l for l in listing.stdout.splitlines() if l.startswith("CHECKS")]
    if listing.returncode != 0 or not lines:
        print("ERROR: cannot load the checks of %s:\n%s" % (prop, (listing.stdout + listing.stderr)[-3000:]))
        return 2
    checks, probes = [json.loads(part) for part in lines[-1][6:].split("|")]
    if args.only:
        checks = [c for c in checks if c[0] in args.only.split(",")]
    if any(c[4] == "asan" for c in checks):
        envs["asan"] = asan_env(build_mod.build("asan"))

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        variant = {c[0]: c[4] for c in checks}[data["check"]]
        cases = [json.dumps(item) for item in data.get("history", []) + [data["case"]]]
        res = Replayer(prop, tmp, envs)(data["check"], variant, cases, 800)
        print(res.get("message") or res["status"])
        if res["status"] in ("violation", "crash"):
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        return 0 if res["status"] == "ok" else 2

    idx, jobs = 0, []
    if probes:
        jobs.append(Job(prop, "-", "known", "-", "plain", tmp, envs, idx))
        idx += 1
    plan = []
    for name, quick, thorough, rule, variant, shards in checks:
        n_total = max(1, int((quick if tier == "quick" else thorough) * args.scale))
        n_shards = shards or max(1, min(N_CPU, n_total // 50))
        if tier == "thorough":
            n_shards = max(n_shards, min(64, n_total // 400))
        per_shard = -(-n_total // n_shards)
        for i in range(n_shards):
            plan.append((i, name, per_shard, variant))
    plan.sort(key=lambda item: item[0])
    for i, name, per_shard, variant in plan:
        jobs.append(Job(prop, name, derive_seed(seed, prop, name, i), per_shard, variant, tmp, envs, idx))
        idx += 1
    limit = 840 - (time.time() - started) if tier == "quick" else 6 * 3600
    done = run_jobs(jobs, limit)

    known = read_known(prop)
    violations, errors, found_known = [], [], {}
    evaluations, nontrivial, labels, samples, per_check, cpu = 0, 0, {}, [], {}, {}
    for job, res in done:
        evaluations += res.get("evaluations", 0) or 0
        nontrivial += res.get("nontrivial", 0) or 0
        entry = per_check.setdefault(job.check, {"evaluations": 0, "nontrivial": 0})
        entry["evaluations"] += res.get("evaluations", 0) or 0
        entry["nontrivial"] += res.get("nontrivial", 0) or 0
        cpu[job.check] = cpu.get(job.check, 0) + 0
        for key, value in (res.get("labels") or {}).items():
            labels[job.check + ":" + key] = labels.get(job.check + ":" + key, 0) + value
        if len([s for s in samples if s["check"] == job.check]) < 2:
            for sample in (res.get("samples") or [])[:2]:
                text = json.dumps(sample)
                samples.append({"check": job.check, "case": sample if len(text) < 1500 else text[:1500] + "..."})
        if job.mode == "known" and res["status"] == "ok":
            found_known = res["known"]
        elif res["status"] == "violation":
            violations.append((job, res))
        elif res["status"] == "crash":
            if res.get("case") is not None:
                violations.append((job, res))
            else:
                errors.append((job, res))
        elif res["status"] == "error":
            errors.append((job, res))
    per_check.pop("-", None)

    # crashes and violations are confirmed by independent replays
    confirmed = []
    replayer = Replayer(prop, tmp, envs)
    for job, res in violations[:4]:
        if confirmed and time.time() - started > 500:
            break
        history = confirm(replayer, job, res, confirmed, started)
        if history is None and res["status"] == "crash":
            errors.append((job, {"status": "error", "message": "not reproduced by a replay of %s\n%s" % (
                json.dumps(res["case"])[:3000], res["message"])}))
            continue
        if history is None:
            # the oracles are deterministic: the answer of the code was wrong even if it is not every time
            res["message"] += "\n(not reproduced by replays of the case and of the cases before it)"
        elif history:
            res["message"] += "\n(after %d other cases in the same process)" % len(history)
            res["history"] = [json.loads(item) for item in history]
        confirmed.append((job, res))

    for key, text in sorted(found_known.items()):
        if text:
            if key in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[key]))
            else:
                confirmed.append((None, {"case": {"known": key}, "message": text}))

    for i, (job, res) in enumerate(confirmed):
        res["check"] = job.check if job else "known:" + res["case"]["known"]
    reported = []
    for res in [r for _, r in confirmed]:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        data = {"property": prop, "check": res["check"], "case": res["case"], "message": res["message"]}
        if res.get("history"):
            data["history"] = res["history"]
        text = json.dumps(data, indent=1)
        name = "%s-%s.json" % (prop, hashlib.sha256((res["check"] + json.dumps(res["case"])).encode()).hexdigest()[:12])
        path = os.path.join(VERIF, "evidence", "replay", name)
        with open(path, "w") as f:
            f.write(text)
        reported.append((path, res))

    rules = "; ".join("%s: %s" % (c[0], c[3] or "every generated case") for c in checks)
    evidence = {
        "property": prop, "tier": tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontrivial, "rule": rules,
            "samples": samples[:12] or [{"check": "-", "case": None}],
            "per_check": per_check, "labels": labels,
        },
        "assumptions": [
            "generated cases are a sample of the quantified domain",
            "numerical agreement is required within the tolerances stated in DESIGN.md",
        ],
        "wall_s": round(time.time() - started, 2),
        "violations": len(reported),
        "violation_details": [{"replay": path, "check": res["check"], "message": res["message"][:600]}
                              for path, res in reported],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for name, entry in sorted(per_check.items()):
        print("%s %s: %d cases, %d distinct non-trivial" % (prop, name, entry["evaluations"], entry["nontrivial"]))
    if args.verbose:
        for key in sorted(labels):
            print("   ", key, labels[key])
    if reported:
        for path, res in reported:
            print("---- %s\n%s" % (res["check"], res["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for job, res in errors:
            print("ERROR in %s: %s" % (job.check, res.get("message")))
        return 2
    print("%s: held on everything explored (%.1f s)" % (prop, time.time() - started))
    return 0


if __name__ == "__main__":
    sys.exit(main())
