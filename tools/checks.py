"""What each check builds and runs."""
import os, re, subprocess, sys

ASSUME = [
    "verdicts cover the executions of this run only",
    "the reference models of the harness state the property correctly",
    "x86-64 Linux, little-endian; code for SPIR-V is executed by G01 only, compiled for the host, with checked stand-ins for the GPU's intrinsics",
]
RULES = {}
CHECKS = {}
X86 = "x86_64-unknown-linux-gnu"

def check(prop, rule):
    def deco(f):
        CHECKS[prop] = f
        RULES[prop] = rule
        return f
    return deco

def chk(features, opt=0, **k):
    return dict(features=features, opt=opt, **k)

def rel(features, opt=0, **k):
    return dict(features=features, opt=opt, release=True, **k)

def both(features, opt=0, budget=(60, 900), min_ev=1000, **job):
    """The same workload with and without debug assertions and overflow checks."""
    def f(tier, seed, root):
        b = budget[tier == "thorough"]
        return {
            "builds": {"chk": chk(features, opt), "rel": rel(features, opt)},
            "jobs": [dict(name="chk", build="chk", budget=b, **job), dict(name="rel", build="rel", budget=b, **job)],
            "min_evaluations": min_ev,
        }
    return f

RT = ("one case = one write of 1-4 items of a catalogue type into a dirty slab at one position through one of 6 routes and 3 slab "
      "implementations, read back 3 times with everything else changed in between; distinct by type, route, position and encoding; "
      "types of size zero do not count")
check("M01", RT)(both("marsh"))
check("M02", RT)(both("marsh"))
check("M03", RT)(both("marsh"))
check("M04", "one case = a read of arbitrary or slightly damaged words as one type, distinct by type and words; or one id against one slab length")(both("marsh"))
check("M05", "one case = one write of one type that does not fit, distinct by operation, type, position, length and count")(both("marsh"))
check("M07", "one case = one typed array addressed at hostile indices and one bulk transfer, distinct by type, place and lengths")(both("marsh"))
check("M08", "one case = one random history of growable-slab operations on one of 4 slabs, distinct by the operations")(both("grow", 1))
check("M10", "one case = one pair of index words pushed through every operation of ids and arrays, distinct by the pair")(both("marsh"))

def write_gen(gen, s, n, cov):
    """Generate type definitions into a file."""
    os.makedirs(os.path.dirname(gen), exist_ok=True)
    subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_types.py"), "--seed", str(s), "-n", str(n),
                    "--prefix", "vh", gen], check=True)
    src = open(gen).read()
    for k, c in (("type_definitions_compiled", "TYPES"), ("variants", "VARIANTS"), ("fields", "FIELDS")):
        cov[k] = cov.get(k, 0) + int(re.search(c + r": usize = (\d+)", src)[1])

ALLOW = "#![allow(non_camel_case_types, non_snake_case, dead_code, clippy::all)]\n"
GLAM = 'glam = { version = "0.29", default-features = false, features = ["std"] }\n'

def write_crate(d, name, deps, src, root, lib=None, workspace=None):
    """A crate with the given dependencies; the profiles are those of the harness."""
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    toml = f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n'
    if lib: toml += f'\n[lib]\npath = "{lib}"\n'
    toml += "\n[dependencies]\n" + deps + "\n"
    if workspace:
        toml += "[workspace]\n"
        t = open(os.path.join(root, "harness", "Cargo.toml")).read()
        toml += t[t.index("# with the checks of debug builds"):]
        if not os.path.exists(os.path.join(d, "Cargo.lock")):
            open(os.path.join(d, "Cargo.lock"), "w").write(open(os.path.join(root, workspace, "Cargo.lock")).read())
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    if src: open(os.path.join(d, "src", "lib.rs" if "fn main" not in src else "main.rs"), "w").write(src)

def compile_error(what):
    m = re.search(r"-->\s*(\S*gen(?:_catalog)?\.rs:\d+)", what)
    return m and {"sig": "derive-does-not-compile", "msg": "deriving for a generated type does not compile:\n" + what[:3000], "case": None}

def generated(prop):
    def f(tier, seed, root):
        crates = 1 if tier == "quick" else 6
        n = 60 if tier == "quick" else 120
        out = {"builds": {}, "jobs": [], "coverage": {}, "parallel": 6}
        for k in range(crates):
            s = seed + 7919 * k
            d = os.path.join(root, "build", f"gen-{prop}-{k}")
            gen = os.path.join(d, "src", "gen.rs")
            write_gen(gen, s, n, out["coverage"])
            open(gen, "a").write("pub fn visit_all(m: &mut vh::marsh::Marsh) { visit(m) }\n")
            name = f"gen{prop.lower()}{k}"
            write_crate(d, name, f'vh = {{ path = "{root}/harness", features = ["marsh"] }}\ncrabslab = {{ path = "/repo/crates/crabslab" }}\n' + GLAM,
                        ALLOW + "mod gen;\nfn main() {\n    vh::cli(|ctx| vh::marsh::run_generated(ctx, gen::visit_all, gen::offset_checks()))\n}\n", root,
                        workspace="harness")
            for fl, x in (("chk", {}), ("rel", {"release": True})):
                if k and fl == "rel": continue
                out["builds"][f"{fl}{k}"] = dict(crate=d, bin=name, **x)
                out["jobs"].append(dict(name=f"{fl}{k}", build=f"{fl}{k}", seed=s + (500 if x else 0), budget=60 if tier == "quick" else 600))
        def on_fail(name, txt):
            v = compile_error(txt)
            return v and dict(v, run=name)
        out["on_build_failure"] = on_fail
        out["min_evaluations"] = 1000
        return out
    return f

check("M06", "one case = one field offset (or composition of two) of one generated or catalogue struct used to read and write one random value, "
      "distinct by field and encoding")(generated("M06"))
check("M09", "one case = one round trip or one read of arbitrary words of one generated type definition, distinct by type and words")(generated("M09"))

def g01(tier, seed, root):
    q = tier == "quick"
    g = os.path.join(root, "gpu")
    out = {"builds": {"chk": dict(crate=g, bin="vhg", opt=1), "rel": dict(crate=g, bin="vhg", opt=1, release=True)}, "coverage": {}, "parallel": 6, "min_evaluations": 1000}
    b = 60 if q else 600
    out["jobs"] = [dict(name=x, build=x, budget=b) for x in ("chk", "rel")]
    for k in range(1 if q else 5):
        d = os.path.join(root, "build", f"gen-G01-{k}")
        write_gen(os.path.join(d, "src", "gen.rs"), seed + 104729 * (k + 1), 40 if q else 100, out["coverage"])
        open(os.path.join(d, "src", "side.rs"), "w").write(
            ALLOW + "mod gen;\npub fn side() -> twin::Side {\n    vh::side(|c| gen::visit(c), gen::offset_checks())\n}\n")
        for side, c in (("cpu", 'crabslab = { path = "/repo/crates/crabslab" }'), ("gpu", f'crabslab = {{ package = "crabslab-gpu", path = "{g}/crabslab" }}')):
            write_crate(os.path.join(d, side), f"gen{side}", f'vh = {{ package = "side-{side}", path = "{g}/side-{side}" }}\n'
                        f'twin = {{ path = "{g}/twin" }}\n{c}\n' + GLAM, None, root, lib="../src/side.rs")
        write_crate(d, f"geng01{k}", f'vh = {{ path = "{root}/harness" }}\nvhg = {{ path = "{g}" }}\ngencpu = {{ path = "cpu" }}\ngengpu = {{ path = "gpu" }}\n',
                    "fn main() {\n    vh::cli(|ctx| vhg::run(ctx, gencpu::side(), gengpu::side()));\n}\n", root, workspace="gpu")
        out["builds"][f"gen{k}"] = dict(crate=d, bin=f"geng01{k}", opt=0)
        out["jobs"].append(dict(name=f"gen{k}", build=f"gen{k}", seed=seed + k, budget=b))
    def on_fail(name, txt):
        for crate, what in (("crabslab-gpu", "the crate does not compile for the GPU"), ("gengpu", "a generated type does not compile for the GPU"),
                            ("side-gpu", "the catalogue of types does not compile for the GPU")):
            cpu = {"crabslab-gpu": "crabslab", "gengpu": "gencpu", "side-gpu": "side-cpu"}[crate]
            # what the stand-in for the GPU's intrinsics lacks proves nothing
            if f"could not compile `{crate}`" in txt and f"could not compile `{cpu}`" not in txt and not re.search(r"error.*spirv_std|error.*IndexUnchecked", txt):
                return {"sig": "gpu-build", "msg": what + ":\n" + txt[:3000], "run": name, "case": None}
        return None
    out["on_build_failure"] = on_fail
    return out

check("G01", "one case = 0-4 items of one type written by the CPU and the GPU build at one place in a dirty slab and read by both, or one read of "
      "arbitrary words or of an arbitrary id by both; distinct by type, place, way of writing and values")(g01)

WORLD = ("one case = one commit of a random history of one allocator checked against the model, or one whole history; distinct by the "
         "placement, contents and operations so far")
for p in ("A01", "A02", "A03", "A04", "A05", "A07", "A08", "A09", "A10", "A11", "A14", "A15"):
    check(p, WORLD)(both("world", 1))

def a09(tier, seed, root):
    out = both("world,conc", 1)(tier, seed, root)
    b = 10 if tier == "quick" else 300
    out["builds"]["delay"] = rel("conc", 1, delay=True, target=X86, tdir="delay")
    out["jobs"] += [dict(name=f"threads {x}", build=x, arg="H04", budget=b) for x in ("rel", "delay")]
    return out

check("A09", WORLD + "; or one scenario of threads asking for the status during assignments and commits")(a09)

check("A06", "one case = one random history of adding and removing ranges over one index space, distinct by the operations")(both("mgr", 1))
check("A12", "one case = one random sequence of overlapping updates, merged and applied in 3 orders, distinct by the places updated")(both("mgr", 1))
check("A13", "one case = one random history of copies, batches and reads of a CPU buffer, distinct by the operations")(both("mgr", 1))

def w01(tier, seed, root):
    w, b = os.path.join(root, "wharness"), 40 if tier == "quick" else 800
    return {
        "builds": {"chk": dict(crate=w, bin="vhw", opt=1), "rel": dict(crate=w, bin="vhw", opt=1, release=True)},
        "jobs": [dict(name=x, build=x, budget=b) for x in ("chk", "rel")],
        "min_evaluations": 1000,
    }

check("W01", "one case = one random history of buffers on both runtimes, one commit of a random history of an allocator on both runtimes at once or "
      "on wgpu alone, or one scenario of threads reading during commits; distinct by the operations")(w01)

CONC = ("one case = one scenario: 2-5 threads running scripts on one allocator under random preemption and pauses, judged from the log of "
        "what each operation returned and from the state afterwards; distinct by scripts and interleaving seen")

def conc(tier, seed, root):
    b = 22 if tier == "quick" else 600
    return {
        "builds": {"chk": chk("conc", 1), "rel": rel("conc", 1), "delay": rel("conc", 1, delay=True, target=X86, tdir="delay")},
        "jobs": [dict(name=x, build=x, budget=b) for x in ("chk", "rel", "delay")]
                + [dict(name=f"cpu {x}", build=x, arg="H03", budget=b // 2) for x in ("rel", "delay")],
        "min_evaluations": 1000,
    }

for p in ("C01", "C02", "C03", "C04", "C05"):
    check(p, CONC)(conc)

def c06(tier, seed, root):
    out = conc(tier, seed, root)
    b = 15 if tier == "quick" else 400
    out["builds"].update(chk=chk("world,conc", 1), rel=rel("world,conc", 1))
    out["jobs"] += [dict(name=f"alone {x}", build=x, arg="H05", budget=b) for x in ("chk", "rel")]
    return out

check("C06", CONC + "; or one commit of a random history of a single thread, with operations nested in callbacks")(c06)

def c08(tier, seed, root):
    b = 25 if tier == "quick" else 600
    return {
        "builds": {"chk": chk("conc", 1), "rel": rel("conc", 1), "delay": rel("conc", 1, delay=True, target=X86, tdir="delay")},
        "jobs": [dict(name=x, build=x, budget=b) for x in ("chk", "rel", "delay")],
        "min_evaluations": 1000,
    }

check("C08", "one case = one scenario: 2-4 threads reading and assigning one or two values or arrays through all kinds of handles, judged from the log "
      "of calls, returns and values seen; distinct by what was seen in which order")(c08)
check("A16", "one case = one history: thousands of commits with bounded live data, rounds of threads, queries only, or 3-60 steps after each of "
      "which the buffers alive are counted; distinct by the operations")(both("mem", 1))

def sanitizer_report(txt):
    """(signature, what) of a report of a sanitizer or of Miri."""
    m = re.search(r"error: (Undefined Behavior: .*|memory leaked: .*|the evaluated program leaked.*|the evaluated program deadlocked.*|.*attempting to .*)", txt)
    if m:
        w = re.sub(r"alloc\d+|0x[0-9a-f]+|\d+", "_", m[1])
        at = re.search(r"--> (/repo/crates/)?([^\s:]+):(\d+)", txt[m.start():])
        return w[:80], m[1] + (f" at {at[2]}:{at[3]}" if at else "") + "\n" + txt[m.start():m.start() + 2500]
    m = re.search(r"SUMMARY: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): (\S+ ?\S*)", txt)
    if m:
        k = max(0, txt.rfind("==", 0, m.start()) - 1)
        i = txt.find("ERROR: ") if "ERROR: " in txt else txt.find("WARNING: ThreadSanitizer")
        return f"{m[1]}: {re.sub(r'[0-9]+', '_', m[2])}", txt[max(0, i):max(0, i) + 2500]
    return None

def c07(tier, seed, root):
    q = tier == "quick"
    feats = "marsh,world,grow,mgr,conc"
    t = dict(nightly=True, target=X86, nolimit=True)
    asan = dict(ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
    builds = {
        "asan": dict(t, features=feats, release=True, opt=0, tdir="asan", env={"RUSTFLAGS": "-Zsanitizer=address"}),
        "tsan": dict(t, features="conc", opt=1, tdir="tsan", build_std=True, env={"RUSTFLAGS": "-Zsanitizer=thread"}),
        "miri": dict(features=feats, miri=True, nolimit=True),
        "chk": chk(feats, 1),
        "rel": rel(feats, 1),
    }
    S = dict(sanitizer=sanitizer_report)
    jobs = [dict(S, name="tsan threads", build="tsan", arg="C06", budget=15 if q else 600, env={"TSAN_OPTIONS": "exitcode=99:halt_on_error=1"}),
            dict(S, name="tsan values", build="tsan", arg="C08", budget=10 if q else 300, env={"TSAN_OPTIONS": "exitcode=99:halt_on_error=1"}),
            dict(S, name="tsan cpu", build="tsan", arg="H03", budget=12 if q else 300, env={"TSAN_OPTIONS": "exitcode=99:halt_on_error=1"})]
    b = 20 if q else 300
    for x in ("chk", "rel"):
        jobs.append(dict(S, name=f"plain {x}", build=x, arg="H01", budget=b))
        jobs.append(dict(S, name=f"plain {x} arguments", build=x, arg="H02", budget=b))
    for w, scale in (("H01", 1), ("H02", 1), ("M01", 5), ("M04", 12), ("M05", 12), ("M07", 10), ("M08", 20), ("M10", 5), ("A01", 60), ("A14", 50), ("A15", 40),
                     ("A06", 25), ("A12", 25), ("A13", 16), ("C06", 1)):
        jobs.append(dict(S, name=f"asan {w}", build="asan", arg=w, budget=8 if w == "C06" and q else b, args=["--scale", scale if q else 1], env=asan))
    n = 8 if q else 100
    for w, a, seeds in (("C06", ["--budget", 2], 3 * n), ("H03", ["--budget", 2], n), ("H01", ["--scale", 100], n), ("H02", ["--scale", 300], n), ("A15", [], n), ("A01", [], n), ("M04", ["--scale", 1000], n), ("M07", ["--scale", 150], n),
                        ("M05", ["--scale", 1600], n), ("M01", ["--scale", 500], n), ("M08", ["--scale", 10000], n), ("A13", ["--scale", 20000], n)):
        jobs.append(dict(S, name=f"miri {w}", build="miri", arg=w, args=a, seeds=seeds, timeout=240 if q else 900))
    return {"builds": builds, "jobs": jobs, "min_evaluations": 1000, "parallel": 8, "miri_budget": 200 if q else 4000}

check("C07", "one case = one case of the workload of another property (one written item, one hostile access, one step or history of an allocator, "
      "one concurrent scenario), executed under ThreadSanitizer, AddressSanitizer with leak detection, or Miri")(c07)
