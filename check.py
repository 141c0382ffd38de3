#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Builds the harness against /repo's working tree, runs the property's workloads under its monitors, writes
evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION line; 2: no verdict.
Tier and seed come from VERIF_TIER and VERIF_SEED.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from checks import CHECKS, RULES, ASSUME

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
T0 = time.time()

def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def log(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)

def known_findings(prop):
    sigs = {}
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) sig=(.*?) :: (.*)", l.rstrip("\n"))
        if m and m[1] == prop:
            sigs[m[2]] = m[3]
    return sigs

def env_for(fl):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST", "MIRI")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update(CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
    e.update(fl.get("env", {}))
    return e

class Build:
    """One flavour of a harness crate."""
    def __init__(self, name, fl):
        self.name, self.fl, self.rc, self.out = name, fl, None, ""
    def cmd(self):
        f = self.fl
        if f.get("miri"):
            # builds, and runs nothing
            return miri_cmd(f) + ["--", "none"]
        c = ["cargo"] + (["+nightly"] if f.get("nightly") else [])
        c += ["build", "--offline", "-q", "--manifest-path", os.path.join(f.get("crate", os.path.join(ROOT, "harness")), "Cargo.toml")]
        if f.get("features"): c += ["--features", f["features"]]
        if f.get("release"): c += ["--release"]
        if f.get("build_std"): c += ["-Zbuild-std"]
        if f.get("target"): c += ["--target", f["target"]]
        return c
    def run(self):
        c = self.cmd()
        if c is None:
            self.rc = 0
            return
        e = env_for(self.fl)
        o = str(self.fl.get("opt", 0))
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = o
        if self.fl.get("miri"): e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
        if self.fl.get("tdir"): e["CARGO_TARGET_DIR"] = os.path.join(TARGET, self.fl["tdir"])
        if self.fl.get("delay"):
            # calls back on every edge and memory access of everything that is compiled from source
            obj = os.path.join(TARGET, self.fl["tdir"], "delay.o")
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            p = subprocess.run(["gcc", "-O2", "-c", os.path.join(ROOT, "harness", "delay", "delay.c"), "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                self.rc, self.out = p.returncode, p.stdout
                return
            san = "level=3 trace-pc=1 trace-loads=1 trace-stores=1".split()
            e["RUSTFLAGS"] = " ".join(["--cfg vh_delay", "-Cpasses=sancov-module", f"-Clink-arg={obj}"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in san])
        try:
            p = subprocess.run(c, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            self.rc, self.out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            self.rc, self.out = -1, "build timed out"
    def binary(self):
        d = os.path.join(TARGET, self.fl["tdir"]) if self.fl.get("tdir") else TARGET
        if self.fl.get("target"): d = os.path.join(d, self.fl["target"])
        return os.path.join(d, "release" if self.fl.get("release") else "debug", self.fl.get("bin", "vh"))

def miri_cmd(fl):
    c = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
    return c + (["--features", fl["features"]] if fl.get("features") else [])

CRASH = {signal.SIGSEGV: "SIGSEGV", signal.SIGABRT: "SIGABRT", signal.SIGBUS: "SIGBUS", signal.SIGILL: "SIGILL", signal.SIGFPE: "SIGFPE"}

def run_job(prop, job, tier, seed, known_path, results, only=None):
    """One execution of a built harness; appends a dict to results."""
    b, r = job["build"], {"job": job["name"], "violations": [], "errors": [], "json": None}
    out = os.path.join(ROOT, "build", f"{prop}-{job['name']}{job.get('miri_seed', '')}.json")
    crumb = out + ".crumb"
    for f in (out, crumb):
        if os.path.exists(f): os.remove(f)
    args = [job.get("arg", prop), "--seed", str(seed), "--tier", tier]
    if "arg" in job: args += ["--as", prop]
    if not b.fl.get("miri"): args += ["--out", out, "--known", known_path, "--crumb", crumb]
    if job.get("budget"): args += ["--budget", str(job["budget"])]
    args += [str(a) for a in job.get("args", [])]
    if only is not None and not b.fl.get("miri"): args += ["--only", str(only)]
    e = env_for(b.fl)
    e.update(job.get("env", {}))
    timeout = job.get("timeout", 700 if tier == "quick" else 3000)
    if b.fl.get("miri"):
        c = miri_cmd(b.fl) + ["--"] + args
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
        e["MIRIFLAGS"] = f"-Zmiri-seed={seed % 1000003 * 1000 + job['miri_seed']} " + job.get("miriflags", "")
    else:
        c = [b.binary()] + args
    def pre():
        if not b.fl.get("nolimit"):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    try:
        p = subprocess.Popen(c, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, preexec_fn=pre)
        txt, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        txt, _ = p.communicate()
        rc = None
    r["wall"] = time.time() - t
    case = None
    try:
        case = int.from_bytes(open(crumb, "rb").read(8), "little")
    except OSError:
        pass
    tail = txt[-3000:]
    if os.path.exists(out):
        try:
            r["json"] = json.load(open(out))
        except ValueError:
            pass
    if b.fl.get("miri"):
        for l in re.findall(r'^(\{"property".*\})$', txt, re.M):
            r["json"] = json.loads(l)
            r["json"]["stats"]["Miri executions"] = 1
        # what didn't finish in time wasn't explored
        if rc is None:
            r["cut"], rc = True, 0
            r["json"] = r["json"] or {"evaluations": 0, "distinct": 0, "errors": [], "samples": [], "known": [], "violations": [],
                                      "stats": {"Miri executions cut off": 1}}
    def viol(sig, msg, case=case):
        r["violations"].append({"sig": sig, "msg": msg, "case": case})
    san = job.get("sanitizer")
    if san and (m := san(txt)):
        viol("sanitizer:" + m[0], m[1] + "\n" + tail)
    elif rc is None:
        r["errors"].append(f"timed out after {timeout} s\n{tail}")
    elif rc in (0, 1) and r["json"] is not None:
        for v in r["json"]["violations"]:
            m = re.search(r"\[case (\d+)\]", v["msg"])
            viol(v["sig"], v["msg"], int(m[1]) if m else case)
        r["errors"] += r["json"]["errors"]
    elif rc == 71:
        viol("stuck", "deadlock: every thread asleep for 10 s\n" + tail)
    elif rc == 72:
        viol("spin", "one step used 60 s of CPU time without finishing\n" + tail)
    elif rc < 0 and -rc in CRASH:
        viol("crash:" + CRASH[-rc], f"the process died of {CRASH[-rc]}\n{tail}")
    else:
        r["errors"].append(f"exit status {rc}\n{tail}" + ("\n" + "\n".join(r["json"]["errors"]) if r["json"] else ""))
    r["case"] = case
    results.append(r)

def merge(prop, tier, seed, results, extra):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[prop], "samples": [], "runs": []}
    stats = {}
    for r in results:
        j = r["json"]
        if not j: continue
        cov["evaluations"] += j["evaluations"]
        cov["distinct_nontrivial"] += j["distinct"]
        cov["samples"] += [s[:600] for s in j["samples"][:3]]
        x = next((x for x in cov["runs"] if x["run"] == r["job"]), None)
        if x is None: cov["runs"].append(x := {"run": r["job"], "evaluations": 0, "wall_s": 0.0})
        x["evaluations"] += j["evaluations"]
        x["wall_s"] = round(x["wall_s"] + r["wall"], 2)
        for k, v in j["stats"].items():
            if k.startswith(("longest", "max", "most", "largest", "biggest")):
                stats[k] = max(stats.get(k, 0), v)
            else:
                stats[k] = stats.get(k, 0) + v
    cov["observed"] = stats
    cov.update(extra)
    if not cov["samples"]: cov["samples"] = ["none"]
    return cov

def main():
    prop = sys.argv[1]
    if prop not in CHECKS: die(f"no check for {prop}")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed, only = replay["tier"], replay["seed"], replay["case"]
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev_path): os.remove(ev_path)
    known = known_findings(prop)
    known_path = os.path.join(ROOT, "build", prop + "-known.txt")
    open(known_path, "w").write("\n".join(known) + "\n")
    chk = CHECKS[prop](tier, seed, ROOT)
    violations, errors, extra = list(chk.get("violations", [])), list(chk.get("errors", [])), chk.get("coverage", {})
    builds = {n: Build(n, f) for n, f in chk["builds"].items()}
    ts = [threading.Thread(target=b.run) for b in builds.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    log("built " + ", ".join(builds))
    for b in builds.values():
        if b.rc != 0:
            on = chk.get("on_build_failure")
            v = on(b.name, b.out) if on else None
            if v:
                violations.append(v)
            else:
                errors.append(f"building {b.name} failed:\n{b.out[-3000:]}")
    results = []
    if not errors and not violations:
        jobs = [dict(j, build=builds[j["build"]]) for j in chk["jobs"]]
        if replay and replay.get("run") and any(j["name"] == replay["run"] for j in jobs):
            jobs = [j for j in jobs if j["name"] == replay["run"]]
        # what Miri executes, one seed at a time, by turns
        units = [(i, j) for i, j in enumerate(jobs) if "seeds" not in j]
        miri = [(k, i, dict(j, miri_seed=k)) for i, j in enumerate(jobs) for k in range(j.get("seeds", 0))]
        units += [(i, j) for k, i, j in sorted(miri, key=lambda x: x[:2])]
        started, lock = time.time(), threading.Lock()
        def work():
            while True:
                with lock:
                    if not units: return
                    i, j = units.pop(0)
                if "miri_seed" in j and time.time() - started > chk.get("miri_budget", 1e9):
                    extra["miri_executions_not_started"] = extra.get("miri_executions_not_started", 0) + 1
                    continue
                try:
                    run_job(prop, j, tier, seed if "miri_seed" in j else j.get("seed", seed + 1000003 * i), known_path, results, only)
                except Exception as x:
                    errors.append(f"{j['name']}: {x!r}")
        ts = [threading.Thread(target=work) for _ in range(chk.get("parallel", 4))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        results.sort(key=lambda r: [j["name"] for j in jobs].index(r["job"]))
    hits = {}
    for r in results:
        for v in r["violations"]:
            violations.append(dict(v, run=r["job"]))
        errors += [f"{r['job']}: {e}" for e in r["errors"]]
        for k in (r["json"] or {}).get("known", []):
            hits.setdefault(k["sig"], k["msg"])
    cov = merge(prop, tier, seed, results, extra)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ASSUME, "wall_s": round(time.time() - T0, 2), "violations": len(violations)},
              open(ev_path, "w"), indent=1)
    for s, d in known.items():
        print(f"KNOWN-FINDING: property={prop} {d} [{s}]")
    if violations:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        for v in violations:
            if v["sig"] in seen: continue
            seen.add(v["sig"])
            n = 0
            while os.path.exists(p := os.path.join(ROOT, "replays", f"{prop}-{n}.json")): n += 1
            json.dump({"property": prop, "tier": tier, "seed": seed, "run": v.get("run"), "case": v.get("case"), "sig": v["sig"], "message": v["msg"],
                       "how": f"python3 check.py {prop} --replay {os.path.relpath(p, ROOT)}"}, open(p, "w"), indent=1)
            print(f"{v['sig']}: {v['msg'][:1500]}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(p, ROOT)}")
        sys.exit(1)
    if errors:
        for e in errors[:5]: print("ERROR: " + e[:3000])
        sys.exit(2)
    if cov["evaluations"] < chk.get("min_evaluations", 10):
        die(f"only {cov['evaluations']} cases were evaluated")
    log(f"{prop} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct; {cov['observed']}")
    sys.exit(0)

main()
