"""Histories with saves; processes that end or are killed; restores in fresh processes; several generations."""
import subprocess, sys
from ops import *

SHRINK = ["before", "between", "probes"]
FRESH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.py")


def generate(r):
    w = world(r, max_nodes=400, odd=0.5)
    w["how"] = r.choice(["new", "ctor", "lists", "dicts"])
    if r.random() < 0.5:  # extreme numbers
        k = r.randrange(len(w["vals"]))
        for _ in range(r.randint(1, 6)):
            x = r.choice([5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1 / 3, 2.2250738585072014e-308, -0.0, 1e22, 9007199254740993.0, 123456789.123456789, r.gauss(0, 1) * 10 ** r.randint(-300, 300)])
            if w["ty"] == "f4":
                x = r.choice([1e-45, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 16777217.0, 0.1, -0.0, r.gauss(0, 1) * 10 ** r.randint(-37, 37)])
            w["vals"][r.randrange(len(w["vals"]))] = rnd(w["ty"], x)
    worlds = [w]
    obs = [obs_set(r, worlds, 0) for _ in range(r.choice([1, 2, 3]))]
    call = lambda: some_op(r, worlds, obs, ["eval"] * 4 + ["bounds"] * 2 + ["bad", "save"])
    probe = lambda: some_op(r, worlds, obs, ["eval"] * 4 + ["bounds"] * 2 + ["bad", "save"])
    between = [[call() for _ in range(r.choice([0, 0, 1, 2]))] for _ in range(r.choice([1, 1, 2, 3, 5]))]
    return dict(worlds=worlds, obs=obs, before=[call() for _ in range(r.choice([0, 1, 3]))], save=r.choice(["json", "dict", "indent"]), load=r.choice(["json", "bytes", "dict", "bytearray"]),
                between=between, probes=[probe() for _ in range(r.choice([2, 3, 5]))], fresh=r.random() < 0.03, old=r.random() < 0.3, interrupt=r.random() if r.random() < 0.2 else None, modes=[r.choice(["json", "dict", "indent"]) for _ in range(6)])


def save(i, mode):
    if mode == "dict":
        return json.dumps(i.model_dump(mode="json"))
    if mode == "indent":
        return i.model_dump_json(indent=2)
    return i.model_dump_json()


def load(c, text, mode):
    if mode == "bytes":
        return c.model_validate_json(text.encode())
    if mode == "bytearray":
        return c.model_validate_json(bytearray(text.encode()))
    if mode == "dict":
        return c.model_validate(json.loads(text))
    return c.model_validate_json(text)


def document(w):
    """The save of this world in the format of the released library, written without the library."""
    ty = "float64" if w["ty"] == "f8" else "float32"
    f = lambda v: dict(data=json.dumps(v), dtype=ty)
    d = dict(dims=w["dims"], starts=f(w["starts"]), steps=f(w["steps"])) if w["reg"] else dict(grids=[f(g) for g in w["grids"]])
    d["vals"] = f(w["vals"])
    if w["m"] == "cubic":
        d["linearize_extrapolation"] = w["lin"]
    return json.dumps(d)


def originals(sc):
    env = Env(sc)
    i = env.i(0)
    for op in sc["before"]:
        record(*prepared_call(env, op))
    if sc["interrupt"] is not None:
        # a first attempt to save that is interrupted half way
        import sched
        s = sched.Stepper()
        s.run(lambda: save(i, sc["save"]))
        s2 = sched.Stepper({int(s.n * sc["interrupt"]): KeyboardInterrupt})
        try:
            s2.run(lambda: save(i, sc["save"]))
        except BaseException:
            pass
    text = save(i, sc["save"])
    return text, save(i, sc["save"]), canon(i), [record(*prepared_call(env, op)) for op in sc["probes"]]


def generation(sc, text, calls, mode):
    """A process that restores, works, and saves again."""
    env = Env(sc)
    w = sc["worlds"][0]
    env.interps[0] = i = load(CLASSES[w["m"], w["reg"]], text, sc["load"])
    first = canon(i)
    for op in calls:
        record(*prepared_call(env, op))
    probes = [record(*prepared_call(env, op)) for op in sc["probes"]]
    return first, canon(i), probes, save(i, mode)


def check(sc, lab):
    text, text2, original, want = lab.run(lambda: originals(sc))
    if text != text2:
        raise Bad(f"two saves of the same interpolator differ: {text[:300]} / {text2[:300]}")
    lab.add("saves", 2 + (sc["interrupt"] is not None))
    lab.add("fault: save interrupted half way", sc["interrupt"] is not None)
    docs = json.loads(text)
    # what must come back is what was put in, not merely what the first process saw
    w = sc["worlds"][0]
    a = WorldArrays(w)
    mine = dict(original[2])
    for k, x in [("vals", a.vals)] + ([("starts", a.starts), ("steps", a.steps)] if w["reg"] else []):
        if mine[k][:4] != canon(x):
            raise Bad(f"the interpolator built from {k} = {show(canon(x))} holds {show(mine[k][:4])}")
    if sc["old"]:
        got = lab.run(lambda: canon(load(CLASSES[w["m"], w["reg"]], document(w), sc["load"])))
        lab.add("restores of saves in the released format")
        if got != original:
            raise Bad(f"a save in the released format restores {diff(original, got)}")
    gens = 0
    for calls, mode in zip(sc["between"], sc["modes"]):
        if sc["fresh"] and gens == 0:
            p = subprocess.run([sys.executable, "-s", FRESH], input=json.dumps(dict(sc=sc, text=text, calls=calls, mode=mode)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                raise Bad(f"restoring in a freshly started interpreter failed: {p.stderr[-800:]}")
            first, last, probes, again = eval(p.stdout)
            lab.add("restores in freshly started interpreters")
        else:
            first, last, probes, again = lab.run(lambda: generation(sc, text, calls, mode))
            lab.add("restores in fresh processes")
        gens += 1
        lab.add("calls", len(calls) + len(probes))
        lab.add("fault: process lost after a save", 1)
        if first != original:
            raise Bad(f"generation {gens}: restored {diff(original, first)}")
        if last != original:
            raise Bad(f"generation {gens}: the restored interpolator changed during calls: {diff(original, last)}")
        for op, g, x in zip(sc["probes"], probes, want):
            if g != x:
                raise Bad(f"generation {gens}: {op['k']} {op.get('via', op.get('how', ''))} gave {show(g[0])}, the original gave {show(x[0])}")
        if json.loads(again) != docs:
            raise Bad(f"generation {gens}: saving again gives another document: {again[:300]} / {text[:300]}")
        text = again
    return Verdict(nontrivial=gens > 0, sig=digest(original, want, gens, sc["before"], sc["between"]), state=digest(original))


def diff(a, b):
    if a[1] != b[1]:
        return f"class {b[1]} instead of {a[1]}"
    for (k, x), (_, y) in zip(a[2], b[2]):
        if x != y:
            return f"{k} = {str(y)[:300]} instead of {str(x)[:300]}"
    return "something else"
