#!/usr/bin/env python3
"""Runs one property's check against /repo's working tree:  check.py C01 quick|thorough
   check.py replay FILE   re-executes a replay file.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself could not run."""
import hashlib, json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
REPLAYS = os.path.join(HERE, "replays")
CPUS = str(os.cpu_count() or 4)

# seeded runs per tier (default build); the thorough tier also runs half of them on the fma build
RUNS = {
    "C01": (2500, 80000), "C02": (9000, 250000), "C03": (7500, 300000), "C04": (3000, 80000), "C05": (60000, 1500000),
    "C06": (40000, 2000000), "C07": (80000, 1500000), "C08": (30000, 800000), "C09": (16000, 400000), "C10": (18000, 400000), "C19": (1200, 30000),
}
RULES = {
    "C01": "One case = one simulated process in which 2-4 real threads make 1-3 calls each on shared interpolators under a seeded schedule (hand-overs at single machine instructions, single arithmetic operations, or at breakpoints while the calls repeat at full speed); non-trivial = at least two hand-overs happened inside calls. Distinct = distinct (interleaving hash, step count).",
    "C02": "One case = a seeded history of evaluations, failures, repetitions, refused tables, table updates and replacements; non-trivial = at least two evaluations. Distinct = distinct hash of all outcomes.",
    "C03": "One case = evaluations of which some are interrupted (thread stopped at an instruction, panic or failed conversion inside the arithmetic, failing point); non-trivial = an interruption really happened. Distinct = distinct hash of interleaving and outcomes.",
    "C04": "One case = 2-4 callers of which some stop for ever at a seeded step inside a call; non-trivial = a stall fired and a hand-over followed. Distinct = distinct (interleaving hash, step count).",
    "C05": "One case = a history with bits of stored values, grids, starts, steps or requests overwritten and restored; non-trivial = at least one stored element was overwritten. Distinct = distinct hash of steps and outcomes.",
    "C06": "One case = a history with damaged values and points; non-trivial = at least one point outside the damage was compared while damage was present. Distinct = distinct hash of compared outcomes.",
    "C07": "One case = constructions and calls made while every heap request is refused; all are non-trivial. Distinct = distinct hash of outcomes.",
    "C08": "One case = calibration calls on the smallest grid, then calls on larger grids and batches, each measured on a painted stack; non-trivial = calibration present. Distinct = distinct measurements.",
    "C09": "One case = evaluations over storage whose reads fail on a seeded plan; non-trivial = at least one read failed. Distinct = distinct hash of outcomes and failures.",
    "C10": "One case = a sequence of intact and damaged requests; non-trivial = at least one damaged request was refused. Distinct = distinct sequence.",
    "C19": "One case = a program making the same calls over and over while interrupt handlers, some of them interrupted themselves, make other calls at seeded instructions in the middle of them; non-trivial = at least one call was made inside another. Distinct = distinct (hash of the interruptions, step count).",
}
REAL = {
    "C09": ["interpn::one_dim interpolators, grids (compiled from /repo)", "process memory with guard pages"],
}
STUB = {
    "C01": ["scheduler: who runs after each instruction or arithmetic operation is decided by the seed", "number type SimF64 (f64 arithmetic with a scheduling point per operation) in the per-operation runs"],
    "C02": ["none: real arithmetic, allocator and memory; each lone execution is a fresh forked process"],
    "C03": ["scheduler", "number type SimF64 whose operations panic or whose conversions fail where the seed says"],
    "C04": ["scheduler; a stalled thread never gets a turn again"],
    "C05": ["memory: elements overwritten between calls", "number type SimF64 (step counter) in half of the runs"],
    "C06": ["memory: elements overwritten between calls"],
    "C07": ["global allocator that refuses every request during a call"],
    "C08": ["a painted thread stack of 1 MB"],
    "C09": ["storage behind Grid1D: wrapper around the library's grids, or a storage of the simulator's own, whose reads fail or panic on plan"],
    "C10": ["the channel that damages requests"],
    "C19": ["the interrupt: a breakpoint planted at a recorded instruction of the call, whose signal handler makes the other call on the same stack"],
}
ASSUME = {
    "C01": ["Interleaving is at instruction granularity on one logical CPU (sequential consistency); weak-memory reorderings are not simulated. The library forbids unsafe code, so it cannot race without a synchronising primitive."],
    "C02": ["The rounding tolerance of the reference model is a running error bound times 8."],
    "C08": ["512 bytes of slack per measurement; stack of the dev-profile build with opt-level 2."],
}

def sh(cmd, cwd, log):
    t = time.time()
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; exec " + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-4000:])
        sys.stderr.write(f"\ncheck: {log} failed\n")
        FAILED.append(log)
        sys.exit(2)
    return time.time() - t

FAILED = []

def source_hash():
    """Content of everything the native library is built from (modification times are not trusted)."""
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(a, f) for a, _, fs in os.walk(p) for f in fs if not f.endswith((".pyc", ".py")))
        for f in files:
            h.update(f.encode() + b"\0" + hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()

def fresh(crate, target):
    """Forget the library's build products unless they were made from exactly this source."""
    p = os.path.join(crate, "target", target, "source.sha256")
    if os.path.isdir(os.path.dirname(p)) and (not os.path.exists(p) or open(p).read() != source_hash()):
        if os.path.exists(p):
            os.unlink(p)
        sh(f"cargo clean --offline --quiet -p interpn --target-dir target/{target}", crate, "cleaning")

def stamp(crate, target):
    open(os.path.join(crate, "target", target, "source.sha256"), "w").write(source_hash())

def build_sims(variants):
    """Builds the simulator against /repo (default and/or fma), each in its own target directory."""
    d = os.path.join(HERE, "sim")
    def one(fma):
        fresh(d, "fma" if fma else "default")
        sh(f"cargo build --offline --quiet --target-dir target/{'fma --features fma' if fma else 'default'}", d, "building the simulator")
    ts = [threading.Thread(target=one, args=(v,)) for v in variants[1:]]
    for t in ts:
        t.start()
    one(variants[0])
    for t in ts:
        t.join()
    if FAILED:
        sys.exit(2)
    for v in variants:
        stamp(d, "fma" if v else "default")
    return [os.path.join(d, "target", "fma" if v else "default", "debug", "sim") for v in variants]

def known():
    p = os.path.join(HERE, "known_findings.txt")
    res = []
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)", line.strip())
        if m:
            res.append(m.groups())
    return res

def finish(prop, tier, seed, runs, t0, rule, real, stub, assume, extra=None):
    """runs: list of raw results. Writes the evidence, prints the verdict, returns the exit code."""
    total = lambda k: sum(r[k] for r in runs)
    counts = {}
    for r in runs:
        for k, v in r["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if "(maximum)" in k else counts.get(k, 0) + v
    wall = sum(r["wall_s"] for r in runs)
    per_hour = round(total("runs") / wall * 3600) if wall > 0 else 0
    cov = {
        "evaluations": total("runs"),
        "distinct_nontrivial": total("distinct"),
        "rule": rule,
        "samples": [s for r in runs for s in r["samples"]][:3],
        "seeds": total("runs"),
        "simulated_runs_per_hour": per_hour,
        "simulated_processes": total("processes"),
        "injected_and_simulated": counts,
        "distinct_final_states": total("states"),
        "repeated_runs": total("twice"),
        "repeated_runs_identical": total("same"),
        "all_planned_runs_done": all(r["complete"] for r in runs),
        "builds": [r["features"] for r in runs],
        "real_components": real,
        "stubbed_components": stub,
    }
    if extra:
        cov.update(extra)
    bad = [r for r in runs if r["violation"]]
    code = 0
    viol = []
    for r in bad:
        hit = next((k for k in known() if k[0] == prop and k[1] in r["violation"]), None)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[2]}")
            continue
        viol.append({"what": r["violation"], "replay": r["replay"]})
        print(r["violation"].replace("\n", " "))
        print(f"VIOLATION property={prop} replay={r['replay']}")
        code = 1
    if viol:
        cov["violation_details"] = viol
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assume, "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not bad:
        print(f"{prop}: held in {total('runs')} simulated runs ({total('distinct')} distinct non-trivial), {time.time() - t0:.0f} s")
    return code

def rust(prop, tier, seed):
    t0 = time.time()
    n, deep = RUNS[prop]
    runs = []
    if tier == "quick":
        plan = [(False, n, 240)] + ([(True, n // 3, 120)] if prop == "C02" else [])
    else:
        plan = [(False, deep, 2400), (True, deep // 2, 1200)]
    exes = build_sims([p[0] for p in plan])
    for (fma, k, cap), exe in zip(plan, exes):
        raw = os.path.join(HERE, "sim", "target", f"raw-{prop}-{os.getpid()}.json")
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--runs", str(k), "--secs", str(cap), "--workers", CPUS, "--out", raw, "--replays", REPLAYS]
        if tier != "quick":
            cmd.append("--thorough")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0 or not os.path.exists(raw):
            sys.stderr.write(p.stderr[-3000:])
            sys.stderr.write("check: the simulator failed\n")
            return 2
        runs.append(json.load(open(raw)))
        os.unlink(raw)
        if runs[-1]["violation"]:
            break
    real = REAL.get(prop, ["the interpn crate compiled from /repo", "its real threads and memory, grid and value arrays between guard pages"])
    return finish(prop, tier, seed, runs, t0, RULES[prop], real, STUB[prop], ASSUME.get(prop, []),
                  {"single_stepping_available": runs[0]["single_stepping"]})

def replay(path):
    path = os.path.abspath(path)
    doc = json.load(open(path))
    if doc["property"] in RUNS:
        exe = build_sims([doc.get("features") == "fma"])[0]
        return subprocess.run([exe, "replay", path]).returncode
    import pysim_driver
    return pysim_driver.replay(path)

def main():
    if sys.argv[1] == "setup":
        import pysim_driver
        pysim_driver.build()
        build_sims([False, True])
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop in RUNS:
        return rust(prop, tier, seed)
    import pysim_driver
    return pysim_driver.check(prop, tier, seed)

if __name__ == "__main__":
    sys.exit(main())
