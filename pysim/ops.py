"""Calls into interpn as plain data, executed the same way alone and inside a simulation."""
import json, math
import numpy as np
import interpn
from common import *

SENTINEL = -12345.678


def obs_set(r, worlds, w, m=None, large=0.05):
    """A named set of observation arrays for world w."""
    m = r.choice([1, 1, 2, 3, 5, 8]) if m is None else m
    o = dict(w=w, cols=points(r, worlds[w], m), shape=None, strided=False, rep=1)
    if len(worlds[w]["dims"]) <= 3 and r.random() < large:  # a large batch
        o["rep"] = r.choice([9, 20, 43, 70, 130, 350, 700, 1100])
        return o
    k = r.random()
    if k < 0.15 and m % 2 == 0:
        o["shape"] = [2, m // 2]
    elif k < 0.25:
        o["strided"] = True
    return o


def size(s):
    return len(s["cols"][0]) * s.get("rep", 1)


def some_op(r, worlds, obs, kinds):
    k = r.choice(kinds)
    if k in ("build", "save", "load"):
        w = r.randrange(len(worlds))
        if k == "build":
            return dict(k=k, w=w, how=r.choice(["new", "new", "ctor", "lists", "dicts"]))
        return dict(k=k, w=w, mode=r.choice(["json", "json", "dict", "bytes"]))
    o = r.randrange(len(obs))
    w = obs[o]["w"]
    if k == "eval":
        via = r.choice(["eval", "eval", "unchecked", "raw", "front", "front"])
        op = dict(k=k, w=w, o=o, via=via, out=r.choice(["none", "own", "own", "slice"]))
        if via == "front":
            op.update(check=r.random() < 0.4, assume=r.random() < 0.4 and worlds[w]["reg"])
        if via == "raw" and op["out"] == "none":
            op["out"] = "own"
        return op
    if k == "bounds":
        return dict(k=k, w=w, o=o, atol=r.choice([0.0, 1e-8, 0.5]), via=r.choice(["class", "class", "raw"]))
    if k == "bad":
        return dict(k=k, w=w, o=o, how=r.choice(["fewer", "more", "short", "dtype", "dims", "order", "readonly"]))
    raise KeyError(k)


class Env:
    """All the objects that calls of one simulated process share."""

    def __init__(self, sc, texts=None):
        self.sc = sc
        self.texts = texts or {}
        self.arrays = {}
        self.interps = {}
        self.obs = {}
        self.supplied = []
        self.slabs = {}

    def a(self, w):
        if w not in self.arrays:
            self.arrays[w] = WorldArrays(self.sc["worlds"][w])
        return self.arrays[w]

    def i(self, w):
        if w not in self.interps:
            self.interps[w] = construct(self.a(w), self.sc["worlds"][w].get("how", "new"))
        return self.interps[w]

    def ob(self, o):
        if o not in self.obs:
            s = self.sc["obs"][o]
            t = self.sc["worlds"][s["w"]]["ty"]
            cols = []
            for c in s["cols"]:
                x = np.tile(arr(c, t), s.get("rep", 1))
                if s["shape"]:
                    x = x.reshape(s["shape"])
                if s["strided"]:
                    big = np.zeros(2 * len(x), dtype=x.dtype)
                    big[::2] = x
                    x = big[::2]
                cols.append(x)
            self.obs[o] = cols
        return self.obs[o]

    def out(self, w, o, kind, slot):
        """A caller-supplied output: its own array, or a stretch of an array that several calls share."""
        t = DT[self.sc["worlds"][w]["ty"]]
        s = self.sc["obs"][o]
        m = size(s)
        if m > 16:
            kind = "own"
        if kind == "slice":
            if w not in self.slabs:
                self.slabs[w] = np.full(64 * 16, SENTINEL, dtype=t)
            x = self.slabs[w][slot * 16:slot * 16 + m]
            x[...] = SENTINEL
        else:
            x = np.full(m, SENTINEL, dtype=t)
        if s["shape"] and kind != "slice":
            x = x.reshape(s["shape"])
        self.supplied.append(x)
        return x

    def prepare(self, ops):
        """Make everything the calls share before any of them runs."""
        for op in ops:
            self.a(op["w"])
            if "o" in op:
                self.ob(op["o"])
            if op["k"] in ("eval", "bounds", "save", "bad"):
                if op.get("via") not in ("raw", "front"):
                    self.i(op["w"])

    def inputs(self):
        res = []
        for w in sorted(self.arrays):
            res += self.arrays[w].all()
        for o in sorted(self.obs):
            res += self.obs[o]
        return res

    def fingerprint(self):
        return bits(self.inputs()), [(w, state(self.interps[w])) for w in sorted(self.interps)], [a.dims for a in self.arrays.values()]


def prepared_call(env, op, slot=0):
    """(function to call, supplied output or None): everything outside the function is the caller's own work."""
    k, w = op["k"], op["w"]
    W = env.sc["worlds"][w]
    if k == "build":
        a = env.a(w)
        return (lambda: construct(a, op["how"])), None
    if k == "save":
        i = env.i(w)
        if op["mode"] == "dict":
            return (lambda: json.dumps(i.model_dump(mode="json"))), None
        return (lambda: i.model_dump_json()), None
    if k == "load":
        c, t = CLASSES[W["m"], W["reg"]], env.texts[w]
        if op["mode"] == "dict":
            d = json.loads(t)
            return (lambda: c.model_validate(d)), None
        if op["mode"] == "bytes":
            t = t.encode()
        return (lambda: c.model_validate_json(t)), None
    obs, a = env.ob(op["o"]), env.a(w)
    if k == "bounds":
        if op["via"] == "raw":
            out = np.zeros(len(W["dims"]), dtype=bool)
            return (lambda: raw_bounds(W, a, obs, op["atol"], out)), out
        i = env.i(w)
        return (lambda: i.check_bounds(obs, op["atol"])), None
    if k == "eval":
        out = None if op["out"] == "none" else env.out(w, op["o"], op["out"], slot)
        via = op["via"]
        if via == "raw":
            return (lambda: raw_eval(W, a, obs, out)), out
        if via == "front":
            g = a.full_grids()
            return (lambda: front(W, a, obs, out, op["check"], 1e-8, g, op["assume"])), out
        i = env.i(w)
        f = i.eval if via == "eval" else i.eval_unchecked
        return (lambda: f(obs, out)) if out is not None else (lambda: f(obs)), out
    if k == "bad":
        i, how = env.i(w), op["how"]
        out = env.out(w, op["o"], "own", slot)
        if how == "fewer":
            o = obs[:-1]
        elif how == "more":
            o = obs + obs[:1]
        elif how == "short":
            o = [obs[0][:-1], *obs[1:]]
        elif how == "dtype":
            o = [x.astype(np.float32 if W["ty"] == "f8" else np.float64) for x in obs]
        elif how == "order":
            o = [np.stack([x, x], axis=-1) for x in obs]
        else:
            o = obs
        if how == "dims":
            out = np.zeros((len(out.ravel()), 1), dtype=out.dtype)
        if how == "readonly":
            out.flags.writeable = False
        return (lambda: i.eval(o, out)), out
    raise KeyError(k)


def record(f, out):
    """Call, then everything the caller can see of it."""
    c = outcome(f)
    return c, (canon(out) if out is not None else None)


def lone(lab, sc, op, texts=None):
    """The call made alone, first and only, in a pristine process."""
    def go():
        env = Env(sc, texts)
        f, out = prepared_call(env, op)
        return record(f, out)
    return lab.lone(["op", op], go)


def texts_for(lab, sc, ops):
    """Saved documents of the worlds that the calls restore, made in processes of their own."""
    res = {}
    for w in sorted({op["w"] for op in ops if op["k"] == "load"}):
        res[w] = lab.lone(["text", w], lambda: construct(WorldArrays(sc["worlds"][w])).model_dump_json())
    return res


def usable(x):
    """The array can be used as an output and an input of a call (no borrow is left on it)."""
    if x.ndim != 1 or x.dtype not in (np.float64, np.float32) or not x.flags.c_contiguous or not x.size:
        return True
    t = "f64" if x.dtype == np.float64 else "f32"
    f = getattr(interpn.raw, f"interpn_linear_regular_{t}")
    two = lambda *v: np.array(v, dtype=x.dtype)
    keep = x.copy()
    try:
        try:
            f([2], two(0), two(1), two(0, 1), [x], np.zeros_like(x))
        except AssertionError:
            pass  # read, but no index for such a point
        if x.flags.writeable:
            f([2], two(0), two(1), two(0, 1), [np.zeros_like(x)], x)
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        if x.flags.writeable:
            x[...] = keep
    return True


def still_usable(arrays):
    for x in arrays:
        u = usable(x)
        if u is not True:
            return f"an array cannot be used any more after the call: {u}"
    return None


def strided_usable(env):
    arrays = env.inputs() + env.supplied
    for i in env.interps.values():
        arrays = arrays + own_arrays(i)
    return still_usable(arrays)
