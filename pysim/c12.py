"""Threads sharing interpolators, arrays and the library, under a seeded schedule of bytecode boundaries."""
import random
from ops import *
import sched

SHRINK = ["threads", "threads/*", "kills", "switches", "writes"]
KINDS = ["eval"] * 8 + ["bounds"] * 3 + ["build"] * 2 + ["save"] * 2 + ["load"] * 2 + ["bad"]


def generate(r):
    worlds = [world(r, max_nodes=120) for _ in range(r.choice([1, 1, 2, 3]))]
    for w in worlds:
        w["how"] = r.choice(["new", "new", "ctor", "lists"])
    if len(worlds) > 1 and r.random() < 0.5:  # same shape, other data: what a careless cache would mix up
        w2 = dict(worlds[0])
        fill_vals(r, w2)
        if r.random() < 0.5:
            fill_grid(r, w2)
        worlds[1] = w2
    reuse = r.random() < 0.25  # calls on arrays that come and go at the same addresses: evenly spaced, then not
    if reuse:
        w = world(r, max_nodes=60, max_n=3, reg=False)
        w["how"] = "new"
        fill_grid(r, w, True)
        worlds = [w, json.loads(json.dumps(w))]
        fill_grid(r, worlds[1], False)
        fill_vals(r, worlds[1])
    obs = []
    for w in range(len(worlds)):
        m = r.choice([1, 2, 3, 5, 8])
        for _ in range(r.choice([1, 2, 3])):
            obs.append(obs_set(r, worlds, w, m if r.random() < 0.7 else None))
    kinds = KINDS if r.random() < 0.7 else [r.choice(KINDS) for _ in range(2)]
    threads = [[some_op(r, worlds, obs, kinds) for _ in range(r.choice([1, 2, 2, 3]))] for _ in range(r.choice([2, 2, 3, 4]))]
    slot = 0
    fresh = r.choice([0, 0, 0.5, 1])
    refill = r.random() < 0.6  # ... or one set of arrays per thread, filled anew for every call
    if reuse:
        fresh = 1
        threads = [[some_op(r, worlds, obs, r.choice([["eval"], kinds])) for _ in range(r.choice([2, 3, 4, 6]))] for _ in range(2)]
    for t in threads:
        for op in t:
            # arrays and interpolator made just before the call and dropped after it: their memory is used again
            op["fresh"] = (2 if reuse and refill else 1) if r.random() < fresh else 0
            op["slot"] = slot
            slot += 1
    short = r.choice([3, 12, 40, 150])
    switches = [[r.choice([1, r.randint(1, short), r.randint(1, short * 3)]), r.randrange(4)] for _ in range(r.choice([4, 15, 40, 90]))]
    sc = dict(worlds=worlds, obs=obs, threads=threads, switches=switches, kills=[], native=r.choice([0, r.randint(1, 4000), r.randint(1, 4000) if r.random() < 0.8 else r.randint(1, 20000)]))
    if r.random() < 0.25:
        sc["kills"] = [[r.randrange(len(threads)), r.randint(1, 400), r.choice(["KeyboardInterrupt", "SystemExit", "Injected"])]]
    # a thread that keeps rewriting observation points, of which every single native call must see one state
    sc["writes"] = []
    if r.random() < 0.3:
        o = r.randrange(len(obs))
        obs[o]["written"] = True
        obs[o].update(strided=False, shape=None)
        if len(worlds[obs[o]["w"]]["dims"]) <= 3 and r.random() < 0.2:
            obs[o]["rep"] = r.choice([9, 43, 130, 350, 1100])
        for _ in range(r.randint(2, 5)):
            sc["writes"].append(dict(o=o, cols=points(r, worlds[obs[o]["w"]], len(obs[o]["cols"][0]))))
        for t in threads:
            for op in t:
                if op.get("o") == o:
                    op.update(k="eval", via="raw", out="own", fresh=0)
    return sc


def writer_body():
    # a frame of its own so that the schedule can stop it between writes
    return compile("def go(write, n):\n    for k in range(n):\n        write(k)\n", "<caller>", "exec")


def check(sc, lab):
    ops = [op for t in sc["threads"] for op in t]
    if not ops:
        return Verdict(nontrivial=False)
    texts = texts_for(lab, sc, ops)
    strip = lambda op: {k: v for k, v in op.items() if k not in ("slot", "fresh")}
    expected = {}
    for op in ops:
        if not sc["obs"][op["o"]].get("written") if "o" in op else True:
            expected[op["slot"]] = lone(lab, sc, strip(op), texts)

    def go():
        env = Env(sc, texts)
        env.prepare(ops)
        before = env.fingerprint()
        around = surroundings()
        results, kept, states = {}, [], {}
        bodies = []

        def anew(op, store):
            """The call with arrays of its own, or with the thread's arrays filled with the data of this call."""
            env = Env(sc, texts)
            if op["fresh"] == 2:
                a = WorldArrays(sc["worlds"][op["w"]])
                b = store.setdefault("a", a)
                for x, y in zip(b.all(), a.all()):
                    x[...] = y
                env.arrays[op["w"]] = b
            return prepared_call(env, op)

        def one(op, store):
            fresh = op.get("fresh")
            f, out = (None, None) if fresh else prepared_call(env, op, op["slot"])

            def keep():
                x = f()
                kept.append((op["slot"], x, canon(x), out is not None))
                return x

            def call():
                if "o" in op and sc["obs"][op["o"]].get("written"):
                    states[op["slot"]] = [c[:len(c) // sc["obs"][op["o"]].get("rep", 1)].tolist() for c in env.ob(op["o"])]
                try:
                    x = record(*anew(op, store)) if fresh else record(keep, out)
                except BaseException as e:
                    x = (("panic", type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:]), None)
                if x[0][0] == "panic" and x[0][1] in {k[2] for k in sc["kills"]}:
                    x = (("killed",), None)
                results[op["slot"]] = x
            return call
        for t in sc["threads"]:
            store = {}
            bodies.append([one(op, store) for op in t])
        if sc["writes"]:
            scope = {}
            exec(writer_body(), scope)

            def write(k):
                x = sc["writes"][k]
                for c, v in zip(env.ob(x["o"]), x["cols"]):
                    c[...] = np.tile(v, sc["obs"][x["o"]].get("rep", 1))
            bodies.append([lambda: scope["go"](write, len(sc["writes"]))])
        kills = {t: (n, sched.EXC[e]) for t, n, e in sc["kills"] if t < len(sc["threads"])}
        s = sched.Sched(bodies, sc["switches"], kills)
        sched.native_hook(s.native_point, sc["native"])
        stuck = s.run()
        sched.no_native_hook()
        problems = []
        if stuck:
            return dict(problems=[stuck], results=results, states=states, log=s.log, native=s.native, killed=s.killed, steps=s.total, stalls=s.stalls)
        after = env.fingerprint()
        if not sc["writes"] and before != after:
            problems.append("an input or an interpolator was changed")
        elif before[1] != after[1]:
            problems.append("an interpolator was changed")
        changed = same_surroundings(around, surroundings())
        if changed and not s.killed:
            problems.append(f"the calls left the process changed: {changed}")
        own = [x for i in env.interps.values() for x in own_arrays(i)]
        for n, (slot, x, c, supplied) in enumerate(kept):
            if canon(x) != c:
                problems.append(f"the result of call {slot} changed after it was returned: was {show(c)}, now {show(canon(x))}")
            if isinstance(x, np.ndarray) and not supplied:
                for other in [y for k, y, _, _ in kept[:n] if isinstance(y, np.ndarray)] + own + env.inputs() + env.supplied:
                    if np.may_share_memory(x, other):
                        problems.append(f"the result of call {slot} shares memory with another array")
                        break
        u = strided_usable(env)
        if u:
            problems.append(u)
        return dict(problems=problems, results=results, states=states, log=s.log, native=s.native, killed=s.killed, steps=s.total, stalls=s.stalls)

    x = lab.run(go, 120)
    lab.add("simulated threads", len(sc["threads"]) + bool(sc["writes"]))
    lab.add("calls", len(ops))
    lab.add("scheduling points (bytecode boundaries)", x["steps"])
    lab.add("scheduling points without the interpreter lock", x["native"])
    lab.add("threads blocked on a lock of the code under test", x["stalls"])
    lab.add("thread hand-overs inside calls", len(x["log"]))
    lab.add("fault: thread killed inside a call", len(x["killed"]))
    lab.add("fault: shared observation points rewritten concurrently", len(sc["writes"]))
    if x["problems"]:
        raise Bad(x["problems"][0])
    for k, op in enumerate(ops):
        got = x["results"].get(op["slot"])
        if got is None or got[0][0] == "killed":
            if not x["killed"]:
                raise Bad(f"call {op['slot']} ended with {got}")
            continue
        want = expected.get(op["slot"])
        if want is None:  # observation points at the instant of this call
            cols = x["states"][op["slot"]]
            sc2 = dict(sc, obs=[dict(o, cols=cols) if n == op["o"] else o for n, o in enumerate(sc["obs"])])
            o2 = strip(op)

            def alone():
                env = Env(sc2)
                f, out = prepared_call(env, o2)
                return record(f, out)
            want = lab.lone(["at", o2, cols], alone)
        if got != want:
            raise Bad(f"call {op['slot']} ({op['k']} {op.get('via', op.get('how', ''))}) returned {show(got[0])} but {show(want[0])} alone" if got[0] != want[0]
                      else f"call {op['slot']} ({op['k']}) left the output {show(got[1])} but {show(want[1])} alone")
    return Verdict(nontrivial=len(x["log"]) >= 2, sig=digest(x["log"], x["results"], x["steps"]), state=digest(x["log"]))
