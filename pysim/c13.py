"""Asynchronous exceptions at a seeded bytecode boundary inside a call, then retries and other calls."""
from ops import *
import sched

SHRINK = ["before", "after", "hits"]
KINDS = ["eval"] * 6 + ["bounds"] * 3 + ["build"] * 3 + ["save"] * 2 + ["load"] * 3 + ["bad"]
PKG = os.environ.get("SIM_PKG", "?")


def generate(r):
    worlds = [world(r, max_nodes=200) for _ in range(r.choice([1, 1, 2]))]
    for w in worlds:
        w["how"] = r.choice(["new", "new", "ctor", "lists"])
    obs = [obs_set(r, worlds, w) for w in range(len(worlds)) for _ in range(r.choice([1, 2]))]
    op = lambda: some_op(r, worlds, obs, KINDS)
    hits = [[r.random(), r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit", "Injected"]), r.random() < 0.5] for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return dict(worlds=worlds, obs=obs, before=[op() for _ in range(r.choice([0, 0, 1, 2]))], target=op(), hits=hits, after=[op() for _ in range(r.choice([0, 1, 2, 3]))])


def own_frame(code):
    return code.co_filename.startswith(PKG)


def callee(code):
    # pydantic's own machinery (and the abstract-class checks it makes) absorbs exceptions: not the library's doing
    f = code.co_filename
    return not ("pydantic" in f or "abc" in os.path.basename(f))


def caused_by(e, t):
    seen = set()
    while e is not None and id(e) not in seen:
        if type(e) is t:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def check(sc, lab):
    op = sc["target"]
    everything = sc["before"] + [op] + sc["after"]
    texts = texts_for(lab, sc, everything)
    want = lone(lab, sc, op, texts)
    where = lambda e, own: own_frame if own or e == "MemoryError" else callee

    def count(only):
        env = Env(sc, texts)
        env.prepare([op])
        f, _ = prepared_call(env, op)
        s = sched.Stepper(where=own_frame if only else callee)
        x = surroundings()
        s.run(lambda: outcome(f))
        y = surroundings()
        return s.n, [k for k in x if x[k] != y[k]]

    def go():
        env = Env(sc, texts)
        env.prepare([op])
        got = [record(*prepared_call(env, x)) for x in sc["before"]]
        before = env.fingerprint()
        around = surroundings()
        for k in ignored:
            del around[k]
        problems, places = [], []
        for u, e, own in sc["hits"]:
            exc = sched.EXC[e]
            n = counts[own or e == "MemoryError"]
            if not n:
                continue
            f, out = prepared_call(env, op)
            old = out.copy() if out is not None else None
            flags = out.flags.writeable if out is not None else None
            s = sched.Stepper({int(u * n): exc}, where(e, own))
            ended = None
            try:
                res = s.run(f)
            except BaseException as x:
                ended = x
                ok = caused_by(x, exc)
                text = f"{type(x).__name__}: {x}"
            if not s.fired:
                continue
            places.append((s.place, e))
            if ended is None and op["k"] == "save":
                # pydantic tries the serialiser again after any error
                if canon(res) != want[0]:
                    problems.append(f"{e} raised at {s.place} was absorbed and the save is {show(canon(res))}, alone {show(want[0])}")
            elif ended is None:
                problems.append(f"{e} raised at {s.place} was swallowed: the call returned normally")
            elif not ok:
                problems.append(f"{e} raised at {s.place} came out of the call as {text}")
            ended = None
            if out is not None:
                if out.flags.writeable != flags:
                    problems.append(f"the output's writeable flag was changed by a call interrupted at {s.place}")
                right = np.frombuffer(want[1][3], dtype=want[1][1]).reshape(want[1][2])
                b, o, g = (np.ascontiguousarray(x).reshape(-1).view(np.uint8).reshape(max(out.size, 1), -1) if out.size else None for x in (out, old, right))
                if b is not None and not ((b == o).all(axis=1) | (b == g).all(axis=1)).all():
                    problems.append(f"an output element holds neither its old nor its right value after {e} at {s.place}: {out} (old {old}, right {right})")
            if env.fingerprint() != before:
                problems.append(f"an input or an interpolator was changed by a call interrupted at {s.place}")
            changed = same_surroundings(around, surroundings())
            if changed:
                problems.append(f"the process was left changed by a call interrupted at {s.place}: {changed}")
            u_ = strided_usable(env)
            if u_:
                problems.append(f"{u_} (interrupted at {s.place})")
        got.append(record(*prepared_call(env, op)))
        got += [record(*prepared_call(env, x)) for x in sc["after"]]
        return got, places, problems

    counted = [lab.run(lambda: count(False)), lab.run(lambda: count(True))]
    counts, ignored = [n for n, _ in counted], counted[0][1]
    got, places, problems = lab.run(go)
    lab.add("calls", len(got) + len(sc["hits"]))
    lab.add("bytecode boundaries of interrupted calls", counts[0])
    for p, e in places:
        lab.add(f"fault: {e} inside a {op['k']} call")
    if problems:
        raise Bad(problems[0])
    for x, g in zip(everything, got):
        w = lone(lab, sc, x, texts)
        if g != w:
            raise Bad(f"after an interrupt at {places}, {x['k']} {x.get('via', '')} gave {show(g[0])}, output {g[1] and show(g[1])}, but alone {show(w[0])}, output {w[1] and show(w[1])}")
    return Verdict(nontrivial=bool(places), sig=digest(places, got, counts), state=digest(places))
