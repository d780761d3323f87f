"""The caller's arrays are rewritten, resized or freed at seeded instants; interpolators must not notice."""
import gc
from ops import *
import sched

SHRINK = ["steps", "steps/*/during"]
MUTATIONS = ["fill", "write", "nan", "sort", "swap", "resize", "free", "reuse", "list"]


def generate(r):
    worlds = [world(r, max_nodes=150) for _ in range(r.choice([1, 1, 2]))]
    for w in worlds:
        w["src"] = r.choice(["new", "new", "new2d", "ctor", "lists", "dicts", "json", "bytearray", "strided", "view", "foreign"])
        w["readonly"] = r.random() < 0.2
    obs = [obs_set(r, worlds, w) for w in range(len(worlds)) for _ in range(r.choice([1, 2]))]
    steps = []
    for _ in range(r.choice([2, 4, 6])):
        k = r.random()
        mut = lambda: [r.choice(MUTATIONS), r.randrange(len(worlds)), r.random(), r.uniform(-1e3, 1e3)]
        if k < 0.35:
            steps.append(dict(k="mutate", what=[mut() for _ in range(r.choice([1, 2, 4]))]))
        else:
            op = some_op(r, worlds, obs, ["eval"] * 6 + ["bounds"] * 2 + ["save", "bad"])
            if op.get("via") in ("raw", "front"):
                op["via"] = "eval"
            during = [[r.random(), *mut()] for _ in range(r.choice([0, 0, 1, 3]))]
            steps.append(dict(k="call", op=op, during=during, scribble=r.random() < 0.6, lock=r.random() < 0.3))
    return dict(worlds=worlds, obs=obs, steps=steps)


class Source:
    """The caller's side of one interpolator."""

    def __init__(self, w, text):
        self.w = w
        a = self.a = WorldArrays(w)
        src = w["src"]
        self.buffer = None
        if src == "strided":
            for k in ("vals", "starts", "steps"):
                setattr(a, k, self.strided(getattr(a, k)))
        elif src == "view":  # parts of one larger array
            t = DT[w["ty"]]
            n = a.vals.size + a.starts.size + a.steps.size + sum(g.size for g in a.grids)
            self.base = np.zeros(n + 8, dtype=t)
            at = 3
            for k in ("vals", "starts", "steps"):
                x = getattr(a, k)
                v = self.base[at:at + x.size]
                v[...] = x
                setattr(a, k, v)
                at += x.size
            for d, x in enumerate(a.grids):
                v = self.base[at:at + x.size]
                v[...] = x
                a.grids[d] = v
                at += x.size
        elif src == "foreign":  # memory of another object
            def f(x):
                return np.frombuffer(bytearray(x.tobytes()), dtype=x.dtype) if x.size else x
            for k in ("vals", "starts", "steps"):
                setattr(a, k, f(getattr(a, k)))
            a.grids = [f(g) for g in a.grids]
        elif src == "new2d":
            a.vals = a.vals.reshape(w["dims"])
        self.lists = None
        if w["readonly"]:
            for x in a.all():
                x.flags.writeable = False
        self.arrays = a.all()
        c = CLASSES[w["m"], w["reg"]]
        kw = {"linearize_extrapolation": w["lin"]} if w["m"] == "cubic" else {}
        self.dims = list(w["dims"])
        if src in ("json", "bytearray"):
            self.buffer = bytearray(text.encode())
            self.i = c.model_validate_json(self.buffer if src == "bytearray" else text)
        elif src == "lists":
            from interpn.serialization import ArrayF32, ArrayF64
            t = ArrayF64 if w["ty"] == "f8" else ArrayF32
            self.lists = [x.tolist() for x in (a.starts, a.steps, a.vals, *a.grids)]
            l = [t(data=x) for x in self.lists]
            self.wrappers = l[3:]
            self.i = c(dims=self.dims, starts=l[0], steps=l[1], vals=l[2], **kw) if w["reg"] else c(grids=self.wrappers, vals=l[2], **kw)
        elif src in ("ctor", "dicts"):
            a.dims = self.dims
            self.i = construct(a, src)
        else:
            self.grids = a.grids
            self.i = c.new(self.dims, a.starts, a.steps, a.vals, **kw) if w["reg"] else c.new(self.grids, a.vals, **kw)

    @staticmethod
    def strided(x):
        big = np.zeros(2 * x.size + 1, dtype=x.dtype)
        big[::2][:x.size] = x
        return big[::2][:x.size]

    def mutate(self, kind, u, v):
        """Whatever the owner of the arrays may do with them."""
        arrays = [x for x in self.arrays if x is not None and x.size]
        if kind == "list":
            for l in self.lists or []:
                if l:
                    l[int(u * len(l))] = v
                    l.append(v)
            self.dims.append(3)
            self.dims[0] = 99
            if hasattr(self, "wrappers"):
                self.wrappers.clear()
            if hasattr(self, "grids"):
                self.grids.reverse()
                self.grids.append(None)
            if self.buffer is not None:
                self.buffer[:] = b"x" * len(self.buffer)
            return
        if not arrays:
            return
        x = arrays[int(u * len(arrays))]
        try:
            x.flags.writeable = True
        except ValueError:
            pass
        if not x.flags.writeable:
            return
        if kind == "fill":
            x[...] = v
        elif kind == "write":
            x.reshape(-1)[int(v) % x.size] = v
        elif kind == "nan":
            x[...] = np.nan
        elif kind == "sort":
            x[...] = np.sort(x, axis=None)[::-1].reshape(x.shape)
        elif kind == "swap":
            if x.flags.c_contiguous:
                x.byteswap(inplace=True)
        elif kind == "resize":
            try:
                x.resize((min(x.size * 40, 300_000) + 7,), refcheck=False)  # never enough to exhaust the memory limit
                x[...] = v
            except ValueError:
                x[...] = v
        elif kind in ("free", "reuse"):
            n, t = x.size, x.dtype
            k = next(k for k, y in enumerate(self.arrays) if y is x)
            self.arrays[k] = None
            self.drop(x)
            del x, arrays
            self.junk = [np.full(n, v, dtype=t) for _ in range(40)]

    def drop(self, x):
        a = self.a
        for k in ("vals", "starts", "steps"):
            if getattr(a, k) is x:
                setattr(a, k, None)
        a.grids = [None if g is x else g for g in a.grids]
        if hasattr(self, "grids"):
            self.grids[:] = [None if g is x else g for g in self.grids]


def check(sc, lab):
    ops = [s["op"] for s in sc["steps"] if s["k"] == "call"]
    text = {w: lab.lone(["text", w], lambda: construct(WorldArrays(W)).model_dump_json()) for w, W in enumerate(sc["worlds"]) if W["src"] in ("json", "bytearray")}
    wants = [lone(lab, sc, op) for op in ops]
    counts = []

    def count(op):
        env = Env(sc)
        f, _ = prepared_call(env, op)
        s = sched.Stepper()
        s.run(lambda: outcome(f))
        return s.n
    for s in sc["steps"]:
        if s["k"] == "call" and s["during"]:
            s["n"] = lab.lone(["n", s["op"]], lambda: count(s["op"]))

    def go():
        problems = []
        sources = [Source(W, text.get(w)) for w, W in enumerate(sc["worlds"])]
        env = Env(sc)
        for w, s in enumerate(sources):
            env.interps[w] = s.i
        first = [state(s.i) for s in sources]
        mutations, kept, got = {}, [], []

        def mutate(kind, w, u, v):
            sources[w].mutate(kind, u, v)
            mutations[kind] = mutations.get(kind, 0) + 1
        for s in sc["steps"]:
            if s["k"] == "mutate":
                for m in s["what"]:
                    mutate(*m)
                continue
            op = s["op"]
            f, out = prepared_call(env, op)
            obs = env.ob(op["o"]) if "o" in op else []
            if s["lock"]:
                for x in obs:
                    x.flags.writeable = False
            before = bits(obs)
            actions = {int(u * s["n"]): (lambda m=m: mutate(*m)) for u, *m in s["during"]}
            holder = []

            def call():
                holder.append(f())
                return holder[-1]
            if actions:
                r = sched.Stepper(actions).run(lambda: record(call, out))
            else:
                r = record(call, out)
            if bits(obs) != before:
                problems.append(f"a {op['k']} call changed its observation points or their flags")
            got.append(r)
            for x in obs:
                x.flags.writeable = True
            x = holder[-1] if holder else None
            if isinstance(x, np.ndarray):
                others = [y for z in sources for y in own_arrays(z.i)] + [y for z in sources for y in z.arrays if y is not None] + obs
                if out is None:
                    others += [y for y, _ in kept]
                if any(np.may_share_memory(x, y) for y in others):
                    problems.append(f"the result of a {op['k']} call is a view of other data")
                if s["scribble"] and x.flags.writeable:
                    x[...] = 1 if x.dtype == bool else -777.25
                elif out is None or op["out"] != "slice":
                    kept.append((x, canon(x)))
        for x, c in kept:
            if canon(x) != c:
                problems.append(f"a returned array changed later from {show(c)} to {show(canon(x))}")
        for w, (s, f) in enumerate(zip(sources, first)):
            if state(s.i) != f:
                problems.append(f"interpolator {w} (built via {sc['worlds'][w]['src']}) changed from {str(f)[:300]} to {str(state(s.i))[:300]}")
            # it refuses to be altered
            for k in list(type(s.i).model_fields):
                for name, act in (("set", lambda: setattr(s.i, k, getattr(s.i, k))), ("delete", lambda: delattr(s.i, k)), ("extend", lambda: setattr(s.i, "extra", 1))):
                    try:
                        act()
                        problems.append(f"{name} of {k} on an interpolator was accepted")
                    except Exception:
                        pass
                x = getattr(s.i, k)
                for y in x if isinstance(x, list) else [x]:
                    if hasattr(y, "data"):
                        try:
                            y.data = np.zeros(1)
                            problems.append(f"{k}.data of an interpolator could be replaced")
                        except Exception:
                            pass
        return problems, mutations, got

    problems, mutations, got = lab.run(go)
    for k, n in mutations.items():
        lab.add(f"fault: caller's arrays: {k}", n)
    lab.add("calls", len(ops))
    for op, g, w in zip(ops, got, wants):
        if g != w:
            src = sc["worlds"][op["w"]]["src"]
            raise Bad(f"{op['k']} {op.get('via', '')} of an interpolator built via {src} gave {show(g[0])} after its sources changed, {show(w[0])} undisturbed")
    if problems:
        raise Bad(problems[0])
    return Verdict(nontrivial=bool(mutations) and bool(ops), sig=digest(mutations, got, sc["steps"]), state=digest(sorted(mutations), got))
