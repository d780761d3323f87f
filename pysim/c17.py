"""Requests with lost, truncated, duplicated, mistyped, misshaped or unreadable parts."""
from ops import *

SHRINK = ["requests", "requests/*/damage"]
ARRAY = ["none", "int", "text", "object", "f4f8", "i8", "complex", "objects", "bool", "swapped", "0d", "2d", "col", "strided", "reversed", "unaligned", "broadcast", "short", "long", "empty", "list", "missing", "readonly", "nested", "fortran", "single"]
SIZES = ["short", "long", "empty", "single", "single", "doubled"]
SEQ = ["none", "int", "text", "missing", "fewer", "more", "many", "nine", "empty", "tuple", "dict", "generator", "set", "failing", "failing_iter", "failing_len", "shorter_len", "longer_len", "reenter", "shrinking", "one_none", "one_text", "stack", "failing_index", "swap"]
DIMS = SEQ[:]
DIMS += ["negative", "huge", "float", "zero", "one", "failing_number", "transposed", "as_array", "bool"]
SCALAR = ["none", "text", "missing", "huge", "nan", "object", "failing_number", "int", "list"]


def generate(r):
    worlds = [world(r, max_nodes=80, odd=0.05) for _ in range(r.choice([1, 2]))]
    reqs = []
    for _ in range(r.choice([3, 6, 9])):
        w = r.randrange(len(worlds))
        W = worlds[w]
        target = r.choice(["raw", "raw", "raw", "bounds", "eval", "eval", "unchecked", "check", "new", "ctor", "front", "front"])
        names = args_of(target, W)
        ds = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            a = r.choice(names)
            kinds = SCALAR if a in ("lin", "atol", "method", "extra") else DIMS if a == "dims" else SEQ if a in ("obs", "grids") and r.random() < 0.6 else ARRAY
            ds.append([a, r.choice(kinds), r.random(), r.random()])
        m = r.choice([1, 2, 3, 5])
        if r.random() < 0.25:  # one array of another size, the rest intact
            a = r.choice([x for x in names if x not in ("dims", "lin", "atol", "method")])
            ds, m = [[a, r.choice(SIZES), r.random(), r.random()]], r.choice([2, 3, 5])
        reqs.append(dict(w=w, target=target, damage=ds, cols=points(r, W, m), out=r.random() < 0.7))
    return dict(worlds=worlds, requests=reqs)


def args_of(target, W):
    g = ["dims", "starts", "steps"] if W["reg"] else ["grids"]
    lin = ["lin"] if W["m"] == "cubic" else []
    return {"raw": g + ["vals"] + lin + ["obs", "out"], "bounds": g + ["obs", "atol", "out"], "eval": ["obs", "out"], "unchecked": ["obs", "out"], "check": ["obs", "atol"],
            "new": g + ["vals"] + lin, "ctor": g + ["vals"] + lin, "front": ["obs", "grids", "vals", "out", "method", "atol"]}[target]


class Unread(RuntimeError):
    pass


class Failing:
    """A sequence that fails while being read."""

    def __init__(self, items, at, kind, act=None):
        self.items, self.at, self.kind, self.act = list(items), at, kind, act
        self.reads = 0

    def __len__(self):
        if self.kind == "failing_len":
            raise Unread("len")
        return max(0, len(self.items) + {"shorter_len": -1, "longer_len": 3}.get(self.kind, 0))

    def __getitem__(self, k):
        self.reads += 1
        if self.kind == "failing" and self.reads > self.at:
            raise Unread("read")
        if self.kind == "shrinking" and self.reads > self.at and self.items:
            self.items.pop()
        if self.kind == "reenter":
            self.act()
        return self.items[k]


class FailingIter(Failing):
    def __iter__(self):
        for k, x in enumerate(self.items):
            if k >= self.at:
                raise Unread("iteration")
            yield x


class FailingNumber:
    def __index__(self):
        raise Unread("index")

    def __float__(self):
        raise Unread("float")

    def __bool__(self):
        raise Unread("bool")

    def __int__(self):
        raise Unread("int")


MISSING = object()


def bad_array(x, kind, u, v):
    t = x.dtype
    if t == object:
        return x
    if x.ndim == 0 or kind in ("short", "long", "reversed", "broadcast", "empty", "single", "doubled") and x.ndim != 1:
        x = x.reshape(-1)
    other = np.dtype(np.float32 if t == np.float64 else np.float64)
    k = int(u * max(1, x.size))
    if kind == "none":
        return None
    if kind == "int":
        return 3
    if kind == "text":
        return "[1.0, 2.0]"
    if kind == "object":
        return object()
    if kind == "missing":
        return MISSING
    if kind == "f4f8":
        return x.astype(other)
    if kind == "i8":
        return np.arange(x.size, dtype=np.int64)
    if kind == "complex":
        return x.astype(np.complex128)
    if kind == "objects":
        y = x.astype(object)
        if y.size:
            y.reshape(-1)[k % y.size] = FailingNumber() if v < 0.5 else "x"
        return y
    if kind == "bool":
        return np.zeros(x.size, dtype=bool)
    if kind == "swapped":
        return x.astype(t.newbyteorder())
    if kind == "0d":
        return np.array(1.0, dtype=t)
    if kind == "2d":
        return x.reshape(1, -1)
    if kind == "col":
        return x.reshape(-1, 1)
    if kind == "fortran":
        return np.asfortranarray(np.stack([x, x]))
    if kind == "strided":
        b = np.zeros(2 * x.size, dtype=t)
        b[::2] = x.reshape(-1)
        return b[::2]
    if kind == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == "unaligned":
        b = np.zeros(x.nbytes + 8, dtype=np.uint8)
        y = np.ndarray(x.shape, dtype=t, buffer=b, offset=1 + int(v * 3))
        y[...] = x
        return y
    if kind == "broadcast":
        return np.broadcast_to(x[:1], x.shape) if x.size else x
    if kind == "short":
        return x[:k].copy()
    if kind == "single":
        return x[k:k + 1].copy()
    if kind == "doubled":
        return np.concatenate([x, x])
    if kind == "long":
        return np.concatenate([x, x[:k + 1]])
    if kind == "empty":
        return x[:0].copy()
    if kind == "list":
        return x.tolist()
    if kind == "nested":
        return [x]
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    raise KeyError(kind)


def bad_seq(x, kind, u, v, act):
    x = list(x)
    k = int(u * max(1, len(x)))
    if kind == "none":
        return None
    if kind == "int":
        return 2
    if kind == "text":
        return "obs"
    if kind == "missing":
        return MISSING
    if kind == "fewer":
        return x[:k] + x[k + 1:]
    if kind == "more":
        return x[:k] + x[k:k + 1] + x[k:]
    if kind == "many":
        return (x * 40)[:int(10 + v * 90)]
    if kind == "nine":
        return (x * 9)[:9]
    if kind == "empty":
        return []
    if kind == "tuple":
        return tuple(x)
    if kind == "dict":
        return dict(enumerate(x))
    if kind == "generator":
        return (y for y in x)
    if kind == "set":
        return {1.5}
    if kind == "failing_iter":
        return FailingIter(x, k, kind)
    if kind in ("failing", "failing_len", "shorter_len", "longer_len", "reenter", "shrinking"):
        return Failing(x, k, kind, act)
    if kind == "one_none":
        x[k] = None
        return x
    if kind == "one_text":
        x[k] = "x"
        return x
    if kind == "failing_index":
        x[k] = FailingNumber()
        return x
    if kind == "stack":
        return np.array([np.asarray(y) for y in x]) if len({np.shape(y) for y in x}) == 1 else x
    if kind == "swap":
        x[k], x[-1] = x[-1], x[k]
        return x
    # only dims
    if kind == "negative":
        x[k] = -3
    elif kind == "huge":
        x[k] = [1 << 31, 1 << 62, 1 << 63, 1 << 64, 1 << 200][int(v * 5)]
    elif kind == "float":
        x[k] = 2.5
    elif kind == "zero":
        x[k] = 0
    elif kind == "one":
        x[k] = 1
    elif kind == "failing_number":
        x[k] = FailingNumber()
    elif kind == "transposed":
        x = x[::-1]
    elif kind == "as_array":
        return np.array(x, dtype=[np.int64, np.float64, np.uint8][int(v * 3)])
    elif kind == "bool":
        x[k] = True
    return x


def bad_scalar(x, kind, u, v):
    return {"none": None, "text": "yes", "missing": MISSING, "huge": 10 ** 400, "nan": math.nan, "object": object(), "failing_number": FailingNumber(), "int": 7, "list": [1.0]}[kind]


def plain_arrays(args):
    """Every numpy array reachable from the arguments."""
    res = []
    for x in args.values():
        if isinstance(x, np.ndarray):
            res.append(x)
        elif isinstance(x, (list, tuple)):
            res += [y for y in x if isinstance(y, np.ndarray)]
        elif isinstance(x, Failing):
            res += [y for y in x.items if isinstance(y, np.ndarray)]
        elif isinstance(x, dict):
            res += [y for y in x.values() if isinstance(y, np.ndarray)]
    return res


def snapshot(arrays):
    return [(x.dtype.str, x.shape, x.flags.writeable, x.tobytes() if x.dtype != object else None) for x in arrays]


class Invalid(Exception):
    pass


class Unknown(Exception):
    pass


def floats(x, t):
    if not isinstance(x, np.ndarray) or x.dtype == object:
        raise Invalid("not an array of numbers")
    if x.dtype.kind == "c":
        x = x.real  # numpy discards the rest with a warning
    return np.ascontiguousarray(x, dtype=t).reshape(-1)


def items(x):
    if isinstance(x, Failing):
        if x.kind == "shrinking":
            raise Unknown  # depends on how often it is read
        if x.kind in ("failing", "failing_iter"):
            raise Invalid("unreadable")
        return list(x.items)
    if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim >= 1):
        return list(x)
    if isinstance(x, dict):
        raise Invalid("a mapping")
    return list(x)


def meaning(target, W, args, t, i):
    """What an accepted request must have meant, independent of the library: the consistent parts, or Invalid."""
    one = dict(args)
    if target in ("eval", "unchecked", "check"):
        s = WorldArrays(W)
        one.update(dims=s.dims, starts=s.starts, steps=s.steps, grids=s.grids, vals=s.vals, lin=W["lin"])
    for k, x in one.items():
        if x is MISSING and k not in ("lin", "atol", "out", "method"):
            raise Invalid(f"{k} is missing")
    res = {}
    reg = W["reg"] and target != "front"
    if reg:
        res["dims"] = [int(x) for x in items(one["dims"])]
        res["starts"], res["steps"] = floats(one["starts"], t), floats(one["steps"], t)
        n = len(res["dims"])
        if len(res["starts"]) != n or len(res["steps"]) != n or any(d < 0 for d in res["dims"]):
            raise Invalid("grid sizes")
        count = 1
        for d in res["dims"]:
            count *= d
    else:
        res["grids"] = [floats(g, t) for g in items(one["grids"])]
        n = len(res["grids"])
        count = 1
        for g in res["grids"]:
            count *= g.size
    limit = 8 if target in ("check", "bounds") else MAXN[W["m"]]
    if not (0 if target == "bounds" else 1) <= n <= limit:
        raise Invalid("number of dimensions")
    if target != "bounds":
        res["vals"] = floats(one["vals"], t)
        if res["vals"].size != count:
            raise Invalid("number of values")
        lin = one.get("lin", True)
        res["lin"] = lin if lin is not MISSING else True
    if target in ("new", "ctor"):
        return res
    res["obs"] = [floats(x, t) for x in items(one["obs"])]
    if len(res["obs"]) != n:
        raise Invalid("number of observation columns")
    return res


def harm(args, name, kind, u, v, act):
    x = args[name]
    if x is MISSING or x is None or (name in ("obs", "grids") and not isinstance(x, list)):
        return
    if name in ("obs", "grids"):
        if kind in ARRAY + SIZES and (kind not in SEQ or kind == "empty" and v < 0.5):
            if x:
                k = int(v * len(x))
                if isinstance(x[k], np.ndarray):
                    y = bad_array(x[k], kind, u, v)
                    x[k] = None if y is MISSING else y
        elif x:
            args[name] = bad_seq(x, kind, u, v, act)
    elif name == "dims":
        if isinstance(x, list) and x:
            args[name] = bad_seq(x, kind, u, v, act)
    elif name in ("lin", "atol", "method"):
        args[name] = bad_scalar(x, kind, u, v)
    elif isinstance(x, np.ndarray):
        args[name] = bad_array(x, kind, u, v)


def check(sc, lab):
    def lone_of(req):
        def go():
            env = Env(sc)
            W = sc["worlds"][req["w"]]
            i = construct(WorldArrays(W))
            obs = [arr(c, W["ty"]) for c in req["cols"]]
            return canon(i), outcome(lambda: i.eval(obs)), outcome(lambda: i.check_bounds(obs, 0.1))
        return lab.lone(["intact", req["w"], req["cols"]], go)
    intact = [lone_of(q) for q in sc["requests"]]

    def go():
        inter = [construct(WorldArrays(W)) for W in sc["worlds"]]
        state0 = [state(i) for i in inter]
        res = []
        around = surroundings()
        for q, want in zip(sc["requests"], intact):
            W = sc["worlds"][q["w"]]
            i = inter[q["w"]]
            a = WorldArrays(W)
            t = np.dtype(DT[W["ty"]])
            obs = [arr(c, W["ty"]) for c in q["cols"]]
            m = len(obs[0])
            names = args_of(q["target"], W)
            args = dict(dims=a.dims, starts=a.starts, steps=a.steps, grids=a.full_grids() if q["target"] == "front" else a.grids, vals=a.vals, lin=W["lin"], obs=obs, atol=0.1, method=W["m"],
                        out=np.zeros(len(W["dims"]), dtype=bool) if q["target"] == "bounds" else np.full(m, SENTINEL, dtype=t))
            args = {k: args[k] for k in names}
            if q["target"] in ("eval", "unchecked", "front") and not q["out"]:
                args["out"] = None
            again = [arr(c, W["ty"]) for c in q["cols"]]
            act = lambda: i.eval(again)
            for name, kind, u, v in q["damage"]:
                try:
                    harm(args, name, kind, u, v, act)
                except (Unread, ValueError, TypeError, OverflowError, IndexError):
                    pass  # this damage does not apply on top of the earlier ones
            arrays = plain_arrays(args)
            before = snapshot(arrays)
            f = request(q["target"], W, i, args)
            # an accepted request must be one that is consistent, and get the value for what it says
            try:
                mean = meaning(q["target"], W, args, t, i)
            except Exception as e:
                mean = e
            got = outcome(f)
            what = f"{q['target']} of {'regular' if W['reg'] else 'rectilinear'} {W['m']} {W['ty']} with {[d[:2] for d in q['damage']]}"
            if got[0] == "panic":
                raise Bad(f"{what}: {got}")
            if got[0] == "error":
                if snapshot(arrays) != before:
                    raise Bad(f"{what} raised {got[1:]} but changed an array")
            else:
                judge(what, q["target"], W, args, t, got, mean)
            u = still_usable([x for x in arrays if x.flags.aligned] + own_arrays(i))
            if u:
                raise Bad(f"{what}: {u}")
            if [state(x) for x in inter] != state0:
                raise Bad(f"{what}: an interpolator changed")
            if got[0] == "error" and same_surroundings(around, surroundings()):
                raise Bad(f"{what} raised {got[1:]} but left the process changed: {same_surroundings(around, surroundings())}")
            ok = (canon(construct(WorldArrays(W))), outcome(lambda: i.eval(again)), outcome(lambda: i.check_bounds(again, 0.1)))
            if ok != want:
                raise Bad(f"after {what} ({got[:2]}), the intact calls give {[show(x) for x in ok]}, alone {[show(x) for x in want]}")
            res.append((q["target"], [d[:2] for d in q["damage"]], got[:2] if got[0] == "error" else got[0]))
        return res

    res = lab.run(go)
    refused = 0
    for target, ds, g in res:
        lab.add("requests")
        for name, kind in ds:
            lab.add(f"fault: {kind}")
        refused += g[0] == "error"
        lab.add("refused" if g[0] == "error" else "accepted (tolerable damage)")
    return Verdict(nontrivial=refused > 0, sig=digest(res, sc["requests"]), state=digest(res))


def request(target, W, i, args):
    kw = {k: x for k, x in args.items() if x is not MISSING}
    t = "f64" if W["ty"] == "f8" else "f32"
    if target in ("raw", "bounds"):
        kind = "regular" if W["reg"] else "rectilinear"
        f = getattr(raw, f"interpn_{W['m']}_{kind}_{t}" if target == "raw" else f"check_bounds_{kind}_{t}")
        pos = list(kw.values())
        return lambda: f(*pos)
    if "lin" in kw:
        kw["linearize_extrapolation"] = kw.pop("lin")
    if target == "eval":
        return lambda: i.eval(**kw)
    if target == "unchecked":
        return lambda: i.eval_unchecked(**kw)
    if target == "check":
        return lambda: i.check_bounds(**kw)
    c = CLASSES[W["m"], W["reg"]]
    if target == "new":
        return lambda: c.new(**kw)
    if target == "ctor":
        from interpn.serialization import ArrayF32, ArrayF64
        A = ArrayF64 if W["ty"] == "f8" else ArrayF32

        def build():
            k2 = dict(kw)
            for k in ("starts", "steps", "vals"):
                if k in k2:
                    k2[k] = A(data=k2[k])
            if "grids" in k2:
                k2["grids"] = [A(data=x) for x in k2["grids"]]
            return c(**k2)
        return build
    if target == "front":
        if "atol" in kw:
            kw["bounds_atol"] = kw.pop("atol")
        return lambda: interpn.interpn(linearize_extrapolation=W["lin"], **kw)
    raise KeyError(target)


def judge(what, target, W, args, t, got, mean):
    """The request was accepted: it must be consistent and have its right result."""
    if target in ("new", "ctor"):
        # casting, flattening and reading of lists are documented; sizes must still fit
        s = dict(got[2])
        vals = np.frombuffer(s["vals"][3], dtype=s["vals"][1])
        if W["reg"]:
            n, sizes = len(s["dims"]), list(s["dims"])
            if len(np.frombuffer(s["starts"][3], dtype=s["starts"][1])) != n or len(np.frombuffer(s["steps"][3], dtype=s["steps"][1])) != n:
                raise Bad(f"{what} was accepted with {n} dimensions and other numbers of starts or steps")
        else:
            sizes = [int(np.prod(g[2])) for g in s["grids"]]
            n = len(sizes)
        if not 1 <= n <= MAXN[W["m"]] or vals.size != int(np.prod([int(x) for x in sizes], dtype=object)):
            raise Bad(f"{what} was accepted with sizes {sizes} and {vals.size} values")
        if isinstance(mean, dict):
            for k in ("starts", "steps", "vals") if W["reg"] else ("vals",):
                d = s[k][1]
                if np.ascontiguousarray(args[k], dtype=d).tobytes() != s[k][3]:
                    raise Bad(f"{what} was accepted with other data for {k} than it was given")
        return
    if isinstance(mean, Unknown):
        return
    if isinstance(mean, Exception):
        raise Bad(f"{what} was accepted although it is inconsistent ({mean}): returned {show(got)}")
    out = args.get("out")
    m = {x.size for x in mean["obs"]}
    if target in ("check", "bounds"):
        dest = got if target == "check" else canon(out)
        flags = np.frombuffer(dest[3], dtype=bool)
        if len(flags) != len(mean["obs"]):
            raise Bad(f"{what} was accepted with {len(flags)} flags for {len(mean['obs'])} dimensions")
        return
    res = canon(out) if isinstance(out, np.ndarray) else got
    if res[0] != "array":
        raise Bad(f"{what} returned {got}")
    if m != {int(np.prod(res[2]))}:
        raise Bad(f"{what} was accepted with observation sizes {sorted(m)} and an output of shape {res[2]}")
    d = np.dtype(res[1])
    right = np.zeros(int(np.prod(res[2])), dtype=d)
    if d != t:
        raise Bad(f"{what} returned numbers of type {d}")
    W2 = dict(W)
    a = WorldArrays(W)
    a.vals = mean["vals"]
    W2["lin"] = bool(mean["lin"])
    reg = W["reg"]
    if target == "front":
        if any(isinstance(g, np.ndarray) and g.dtype != t for g in items(args["grids"])):
            return  # the spacing of a grid of another type is taken before it is cast
        W2["lin"] = W["lin"]
        g = mean["grids"]
        right = interpn.interpn([x.copy() for x in mean["obs"]], [x.copy() for x in g], mean["vals"], method=args["method"] if args["method"] is not MISSING else "linear", linearize_extrapolation=W["lin"])
    else:
        if reg:
            a.dims, a.starts, a.steps = mean["dims"], mean["starts"], mean["steps"]
        else:
            a.grids = mean["grids"]
        raw_eval(W2, a, mean["obs"], right)
    if right.tobytes() != res[3]:
        raise Bad(f"{what} was accepted and returned {show(res)} but what it says gives {right}")
