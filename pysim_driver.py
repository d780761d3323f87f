"""Builds the Python extension from /repo and drives the Python simulations."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
import check as base

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = base.REPO
PY = "/opt/vp/venv/bin/python"
TARGET = os.path.join(HERE, "build", "pytarget")
PKG = os.path.join(HERE, "build", "pkg")


def build():
    """A package directory made of /repo's Python sources and an extension built from its Rust sources."""
    os.makedirs(TARGET, exist_ok=True)
    shim = os.path.join(HERE, "pysim", "shim.c")
    h = base.source_hash() + hashlib.sha256(open(shim, "rb").read()).hexdigest()
    stamp = os.path.join(TARGET, "source.sha256")
    so = os.path.join(TARGET, "debug", "libinterpn.so")
    if not (os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(so)):
        if os.path.exists(stamp):
            os.unlink(stamp)
        env = f"CARGO_TARGET_DIR={TARGET}"
        if os.path.exists(so):
            base.sh(f"env {env} cargo clean --offline --quiet -p interpn", REPO, "cleaning")
        obj = os.path.join(TARGET, "shim.o")
        base.sh(f"gcc -O1 -fPIC -mno-red-zone -Wall -c {shim} -o {obj}", HERE, "compiling the scheduling shim")
        wrap = f"-C link-arg={obj} -C link-arg=-Wl,--wrap=PyEval_SaveThread,--wrap=PyEval_RestoreThread,--wrap=PyGILState_Ensure"
        base.sh(f"env {env} cargo rustc --lib --crate-type cdylib --features python,fma --profile dev --offline --quiet --locked -- {wrap}", REPO, "building the Python extension")
        open(stamp, "w").write(h)
    if os.path.exists(PKG):
        shutil.rmtree(PKG)
    os.makedirs(os.path.join(PKG, "interpn"))
    for f in glob.glob(os.path.join(REPO, "src", "interpn", "*.py")):
        shutil.copy(f, os.path.join(PKG, "interpn"))
    shutil.copy(so, os.path.join(PKG, "interpn", "interpn.abi3.so"))
    d = os.path.join(PKG, "interpn-0.8.2.dist-info")
    os.makedirs(d)
    open(os.path.join(d, "METADATA"), "w").write("Metadata-Version: 2.1\nName: interpn\nVersion: 0.8.2\n")


def environ():
    return {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "PYTHONPATH": PKG, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "LC_ALL": "C.UTF-8", "SIM_PKG": PKG}


def py(*args, **kw):
    # fixed addresses where permitted
    pre = ["setarch", "-R"] if shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
    return pre + [PY, "-s", os.path.join(HERE, "pysim", "worker.py"), *map(str, args)]


def explore(prop, seed, runs, secs, workers):
    tmp = tempfile.mkdtemp(dir=os.path.join(HERE, "build"))
    try:
        best = os.path.join(tmp, "best")
        t = time.time()
        ps = []
        for k in range(workers):
            out = os.path.join(tmp, f"{k}.json")
            cmd = py("run", prop, seed, k, runs, workers, secs, out, best)
            ps.append((subprocess.Popen(cmd, env=environ(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
        res = []
        for p, out in ps:
            log = p.communicate()[0]
            if p.returncode != 0:
                sys.stderr.write(log[-4000:] + "\ncheck: a worker failed\n")
                for q, _ in ps:
                    q.kill()
                sys.exit(2)
            res.append(json.load(open(out)))
        return res, time.time() - t
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed):
    t0 = time.time()
    build()
    sys.path.insert(0, os.path.join(HERE, "pysim"))
    import plans
    quick, deep = plans.RUNS[prop]
    runs, secs = (quick, 240) if tier == "quick" else (deep, 3600)
    workers = int(base.CPUS)
    res, wall = explore(prop, seed, runs, secs, workers)
    found = min((r["found"] for r in res if r["found"]), key=lambda f: f["index"], default=None)
    counts = {}
    for r in res:
        for k, v in r["n"].items():
            counts[k] = counts.get(k, 0) + v
    violation = path = None
    if found:
        os.makedirs(base.REPLAYS, exist_ok=True)
        path = os.path.join(base.REPLAYS, f"{prop}-seed{seed}-{found['index']}.json")
        doc = dict(property=prop, seed=seed, index=found["index"], violation=found["violation"], scenario=found["scenario"], features="python,fma")
        json.dump(doc, open(path, "w"), indent=1)
        small = path + ".small"
        shutil.copy(path, small)
        subprocess.run(py("shrink", small, 45), env=environ(), stdout=subprocess.DEVNULL)
        cand = json.load(open(small))
        again = subprocess.run(py("replay", small), env=environ(), stdout=subprocess.PIPE, text=True)
        if cand["violation"].replace("\n", " ") in again.stdout:
            cand["reproduced_in_a_fresh_process"] = True
            doc = cand
        else:
            again = subprocess.run(py("replay", path), env=environ(), stdout=subprocess.PIPE, text=True)
            doc["reproduced_in_a_fresh_process"] = again.returncode == 1
        os.unlink(small)
        json.dump(doc, open(path, "w"), indent=1)
        violation = doc["violation"]
    samples = sorted((s for r in res for s in r["samples"]), key=lambda s: s["run"])[:3]
    raw = dict(violation=violation, replay=path, runs=sum(r["runs"] for r in res), nontrivial=sum(r["nontrivial"] for r in res),
               distinct=len({s for r in res for s in r["sigs"]}), states=len({s for r in res for s in r["states"]}), counts=counts, samples=samples,
               wall_s=wall, twice=sum(r["twice"] for r in res), same=sum(r["same"] for r in res), processes=sum(r["processes"] for r in res),
               complete=all(r["complete"] for r in res), features="python,fma")
    return base.finish(prop, tier, seed, [raw], t0, plans.RULES[prop], plans.REAL, plans.STUB[prop], plans.ASSUME.get(prop, []))


def replay(path):
    build()
    return subprocess.run(py("replay", path), env=environ()).returncode
