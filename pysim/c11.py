"""Outputs that share memory with inputs, with each other or with an interpolator's own data."""
from numpy.lib.stride_tricks import as_strided
from ops import *

SHRINK = ["calls"]
FLAVOURS = ["slice", "slice", "view", "ndarray", "strided", "frombuffer", "memoryview", "dlpack"]
PAD = 24


def generate(r):
    w = world(r, max_nodes=100, max_n=3, odd=0.0)
    calls = []
    for _ in range(r.choice([2, 4, 6])):
        n = len(w["dims"])
        big = r.random() < 0.14 and n <= 3
        m = r.choice([130, 300, 600, 1025, 1030, 2049, 2500, 4500]) if big else r.choice([1, 2, 3, 5, 8])
        kinds = ["obs"] * 5 + ["vals"] * 3 + (["starts", "steps"] if w["reg"] else ["grid", "grid"]) + ["own", "own", "two", "none"]
        c = dict(cols=points(r, w, m), via=r.choice(["raw", "raw", "eval", "unchecked", "front", "front", "bounds"]), victim=r.choice(kinds), d=r.randrange(n),
                 vf=r.choice(FLAVOURS), of=r.choice(FLAVOURS), shift=r.choice([0, 0, 1, -1, r.randint(-m, m), r.randint(-9, 9)]), step=r.choice([1, 1, 1, 1, -1, 2]), vstep=r.choice([1, 1, 1, -1]),
                 shape=r.random() < 0.15, check=r.random() < 0.2, u=r.random())
        if big:
            c["victim"] = r.choice(["obs", "obs", "obs", "two", c["victim"]])
            c["via"] = r.choice(["eval", "unchecked", "front", c["via"]])
            c["shift"] = r.choice([0, 1, -1, m // 2, -m // 2, m // 3, m - 1, 1 - m, 64, 256, 1024, -1024, r.randint(-m, m), r.randint(-m, m)])
        if c["via"] == "bounds":
            c["victim"] = r.choice(["obs", "obs", "starts", "steps", "none"] if w["reg"] else ["obs", "obs", "grid", "none"])
        calls.append(c)
    return dict(worlds=[w], calls=calls)


def view(mem, lo, n, step, flavour):
    """n elements of mem starting at element lo (the whole stretch reversed or thinned by step), reached in some way."""
    t, k = mem.dtype, mem.dtype.itemsize
    if flavour == "slice":
        x = mem
    elif flavour == "view":
        x = mem.view(np.uint8).view(np.uint32).view(t)
    elif flavour == "ndarray":
        x = np.ndarray((mem.size,), dtype=t, buffer=mem)
    elif flavour == "strided":
        x = as_strided(mem, (mem.size,), (k,))
    elif flavour == "frombuffer":
        x = np.frombuffer(memoryview(mem).cast("B"), dtype=t)
    elif flavour == "memoryview":
        x = np.asarray(memoryview(mem))
    else:
        x = np.from_dlpack(mem)
    if step < 0:
        return x[lo:lo + n][::-1]
    return x[lo:lo + n * step:step]


def check(sc, lab):
    w = sc["worlds"][0]

    def go():
        res = []
        a = WorldArrays(w)
        i = construct(a)
        t = DT[w["ty"]]
        for c in sc["calls"]:
            res.append(one(a, i, t, c))
        return res

    def one(a, i, t, c):
        obs = [arr(x, w["ty"]) for x in c["cols"]]
        m = len(obs[0])
        grids = [g.copy() for g in a.full_grids()] if c["via"] == "front" else [g.copy() for g in a.grids]
        inputs = dict(vals=a.vals.copy(), starts=a.starts.copy(), steps=a.steps.copy(), grids=grids)
        victim, d = c["victim"], c["d"]
        if c["via"] == "front" and victim in ("starts", "steps"):
            victim = "grid"
        if c["via"] in ("eval", "unchecked") and victim in ("vals", "starts", "steps", "grid"):
            victim = "own"
        if victim == "own" and c["via"] not in ("eval", "unchecked"):
            victim = "vals"
        bounds = c["via"] == "bounds"
        nout = len(w["dims"]) if bounds else m
        x = {"obs": lambda: obs[d], "vals": lambda: inputs["vals"], "starts": lambda: inputs["starts"], "steps": lambda: inputs["steps"], "grid": lambda: grids[d],
             "own": lambda: None, "two": lambda: None, "none": lambda: None}[victim]()
        pad = PAD if m <= 8 else m + PAD
        size = pad * 2 + (x.size if x is not None else 0) + 2 * nout + 16
        mem = np.zeros(size, dtype=t)
        mem[:] = np.linspace(-3, 3, size)
        lo = pad
        if x is not None:
            v = view(mem, lo, x.size, c["vstep"], c["vf"])
            v[...] = x
            if victim == "obs":
                obs[d] = v
            elif victim == "grid":
                grids[d] = v
            else:
                inputs[victim] = v
        # the output
        if victim == "own":
            own = [y for y in own_arrays(i)]
            y = own[int(c["u"] * len(own))]
            out = y[:m] if y.size >= m else y
            mem = y
        elif victim in ("two", "none"):
            out = view(mem, lo, nout, c["step"], c["of"])
        else:
            at = max(0, min(lo + c["shift"], size - nout * 2))
            if bounds:
                out = view(mem.view(np.uint8).view(bool), lo * t().itemsize + int(c["u"] * x.size * t().itemsize) - min(2, nout), nout, 1, "slice" if c["of"] in ("view", "frombuffer") else c["of"])
            else:
                out = view(mem, at, nout, c["step"], c["of"])
        if victim == "two":  # observation points that are a view of the output itself
            obs[d] = out if c["u"] < 0.5 else out[:]
        if c["shape"] and out.ndim == 1 and not bounds:
            out = out.reshape(1, -1)
        a2 = WorldArrays(w)
        a2.vals, a2.starts, a2.steps = inputs["vals"], inputs["starts"], inputs["steps"]
        if c["via"] != "front":
            a2.grids = grids
        # what is right: the same call on copies of everything as it is now
        o2 = [np.ascontiguousarray(y).copy() for y in obs]
        a3 = WorldArrays(w)
        a3.vals, a3.starts, a3.steps = (inputs[k].copy() for k in ("vals", "starts", "steps"))
        a3.grids = [np.ascontiguousarray(g).copy() for g in grids]
        right = np.full(out.shape, -1, dtype=t) if not bounds else np.zeros(nout, dtype=bool)
        if c["via"] == "front":
            ref = outcome(lambda: interpn.interpn(o2, a3.grids, a3.vals, method=w["m"], linearize_extrapolation=w["lin"], assume_regular=w["reg"] and c["u"] < 0.5, check_bounds=c["check"]))
        elif bounds:
            right = out.copy()
            ref = outcome(lambda: raw_bounds(w, a3, o2, 1e-8, right))
        elif c["via"] == "raw":
            right = np.full(nout, -1, dtype=t)
            ref = outcome(lambda: raw_eval(w, a3, o2, right))
        else:
            ref = outcome(lambda: i.eval(o2))
        if ref[0] == "array":
            right = np.frombuffer(ref[3], dtype=ref[1])
        regions = [mem] + [y for y in (*obs, *grids, *inputs.values()) if isinstance(y, np.ndarray)] + own_arrays(i)
        before = [y.copy() for y in regions]
        if c["via"] == "front":
            f = lambda: interpn.interpn(obs, grids, inputs["vals"], method=w["m"], out=out, linearize_extrapolation=w["lin"], assume_regular=w["reg"] and c["u"] < 0.5, check_bounds=c["check"])
        elif bounds:
            f = lambda: raw_bounds(w, a2, obs, 1e-8, out)
        elif c["via"] == "raw":
            f = lambda: raw_eval(w, a2, obs, out)
        else:
            e = i.eval if c["via"] == "eval" else i.eval_unchecked
            f = lambda: e(obs, out)
        name = f"{c['via']} with the output sharing memory with {victim}{d if victim in ('obs', 'grid') else ''} ({c['vf']}/{c['of']}, shift {c['shift']}, step {c['step']})"
        shares = any(np.shares_memory(out, y) for y in (*obs, *grids, *inputs.values(), *own_arrays(i)) if isinstance(y, np.ndarray))
        g = outcome(f)
        if g[0] == "panic":
            raise Bad(f"{name}: {g}")
        if g[0] == "error":
            for y, b in zip(regions, before):
                if y.tobytes() != b.tobytes():
                    raise Bad(f"{name} raised {g[1:]} but changed memory: {b} -> {y}")
        else:
            if ref[0] in ("error", "panic"):
                raise Bad(f"{name} returned although the same call on separate arrays raises {ref}")
            got = out.reshape(-1)
            if got.tobytes() != np.ascontiguousarray(right).reshape(-1).tobytes():
                raise Bad(f"{name} returned {got} but the inputs' initial contents give {right}")
            # nothing outside the output changed
            # (with the output's old contents written back, everything is as before)
            keep = out.copy()
            out[...] = c0(before, out, mem)
            for y, b in zip(regions, before):
                if y.tobytes() != b.tobytes():
                    raise Bad(f"{name} changed memory outside its output: {b} -> {y}")
            out[...] = keep
        # nothing stays locked
        u = still_usable([y for y in (*obs, *grids, inputs["vals"], inputs["starts"], inputs["steps"], *own_arrays(i)) if y.size] + ([out] if not bounds else []))
        if u:
            raise Bad(f"{name}: {u}")
        return c["via"], victim, bool(shares), g[0]

    def c0(before, out, mem):
        """The output's contents before the call."""
        old = before[0]
        off = out.__array_interface__["data"][0] - mem.__array_interface__["data"][0]
        raw_ = np.frombuffer(bytearray(old.tobytes()), dtype=np.uint8)
        return np.ndarray(out.shape, dtype=out.dtype, buffer=raw_, offset=off, strides=out.strides)

    res = lab.run(go)
    for via, victim, shares, g in res:
        lab.add("calls")
        if shares:
            lab.add(f"fault: output shares memory with {victim}")
        lab.add("refused" if g == "error" else "computed correctly")
    return Verdict(nontrivial=any(s for _, _, s, _ in res), sig=digest(res, sc["calls"]), state=digest([(c["via"], v, c["vf"], c["of"], c["shift"], c["step"]) for c, (_, v, _, _) in zip(sc["calls"], res)]))
