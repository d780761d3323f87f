"""Calls made in the middle of another call of the same thread (signal handlers, finalisers, sequences that call back),
themselves interrupted by further calls."""
from ops import *
import sched

SHRINK = ["outer", "outer/*/hits", "outer/*/peeks", "outer/*/hits/*/peeks"]
KINDS = ["eval"] * 6 + ["bounds"] * 3 + ["build"] * 2 + ["save"] + ["load"] * 2 + ["bad"]
PKG = os.environ.get("SIM_PKG", "?")


def generate(r):
    worlds = [world(r, max_nodes=200) for _ in range(r.choice([1, 1, 2]))]
    for k, w in enumerate(worlds):
        w["how"] = r.choice(["new", "new", "ctor", "lists"])
        if k and r.random() < 0.5:  # another table of the same shape
            worlds[k] = w = json.loads(json.dumps(worlds[0]))
            fill_grid(r, w, False)
            fill_vals(r, w)
    obs = [obs_set(r, worlds, w, large=0.03) for w in range(len(worlds)) for _ in range(r.choice([1, 2]))]
    if r.random() < 0.4:  # as many points in each, so that sizes alone tell calls apart no longer
        for o in obs[1:]:
            if len(worlds[o["w"]]["dims"]) == len(worlds[obs[0]["w"]]["dims"]) and not o["shape"]:
                o.update(cols=points(r, worlds[o["w"]], len(obs[0]["cols"][0])), rep=obs[0]["rep"])
    op = lambda: some_op(r, worlds, obs, KINDS)

    def like(o):
        x = op()
        for _ in range(4):
            if x["k"] == o["k"] and x.get("via") == o.get("via"):
                break
            x = op()
        return x

    def peeks():
        return [[r.randrange(7), op()] for _ in range(r.choice([1, 1, 2]))] if r.random() < 0.3 else []
    outer = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o = op()
        inner = lambda: like(o) if r.random() < 0.6 else op()
        hits = [dict(u=r.random(), own=r.random() < 0.7, op=inner(), peeks=peeks()) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        every = inner() if r.random() < 0.5 else None
        outer.append(dict(op=o, hits=hits, every=every, phase=r.randrange(8), peeks=[[r.randrange(7), inner()] for _ in range(r.choice([0, 1, 2]))]))
    return dict(worlds=worlds, obs=obs, outer=outer)


def own_frame(code):
    return code.co_filename.startswith(PKG)


def callee(code):
    return not code.co_filename.startswith(os.path.dirname(os.path.abspath(__file__)))


class Nosy(list):
    """A list that calls back whenever somebody reads it."""

    def __init__(self, items, hook):
        super().__init__(items)
        self.hook = hook

    def __len__(self):
        self.hook()
        return super().__len__()

    def __getitem__(self, k):
        self.hook()
        return super().__getitem__(k)

    def __iter__(self):
        self.hook()
        for x in super().__iter__():
            self.hook()
            yield x
            self.hook()


def check(sc, lab):
    everything = []
    for o in sc["outer"]:
        everything.append(o["op"])
        everything += [h["op"] for h in o["hits"]] + [p[1] for h in o["hits"] for p in h["peeks"]] + [p[1] for p in o["peeks"]]
        everything += [o["every"]] if o["every"] else []
    texts = texts_for(lab, sc, everything)

    def inside(env, op, peeks, done, depth):
        """Make a call in the middle of whatever is going on."""
        if depth[0] >= 4:
            return
        depth[0] += 1
        try:
            f, out = call(env, op, peeks, done, depth)
            done.append((op, record(f, out), depth[0]))
        finally:
            depth[0] -= 1

    def call(env, op, peeks, done, depth):
        """The call, its observation points in a list that makes the calls of `peeks` when it is read."""
        if not peeks or op["k"] not in ("eval", "bounds"):
            return prepared_call(env, op, depth[0])
        left = [[k, x] for k, x in peeks]

        def hook():
            for p in left:
                p[0] -= 1
            for p in [p for p in left if p[0] < 0]:
                left.remove(p)
                inside(env, p[1], [], done, depth)
        keep = env.ob(op["o"])
        env.obs[op["o"]] = Nosy(keep, hook)
        f, out = prepared_call(env, op, depth[0])
        env.obs[op["o"]] = keep
        return f, out

    def count(o, where):
        def go():
            env = Env(sc, texts)
            env.prepare(everything)
            f, _ = prepared_call(env, o["op"])
            s = sched.Stepper(where=where)
            s.run(lambda: outcome(f))
            return s.n
        return lab.run(go)

    counts = [(count(o, own_frame), count(o, callee) if any(not h["own"] for h in o["hits"]) else 0) for o in sc["outer"]]

    def go():
        env = Env(sc, texts)
        env.prepare(everything)
        before = env.fingerprint()
        around = surroundings()
        res, places, problems = [], [], []
        for o, (n, every) in zip(sc["outer"], counts):
            done = []

            depth = [0]
            act = lambda op, peeks: lambda: inside(env, op, peeks, done, depth)
            f, out = call(env, o["op"], o["peeks"], done, depth)
            own = {min(int(h["u"] * n), n - 1): act(h["op"], h["peeks"]) for h in o["hits"] if h["own"] and n}
            if o["every"]:
                step = 1 + n // 60
                for k in range(o["phase"] % step, n, step):
                    own.setdefault(k, act(o["every"], []))
            others = {min(int(h["u"] * every), every - 1): act(h["op"], h["peeks"]) for h in o["hits"] if not h["own"] and every}
            # both kinds of boundaries are counted on their own
            a, b = sched.Stepper(own, own_frame), sched.Stepper(others, callee)

            def point(code, offset, a=a, b=b):
                a.point(code, offset)
                b.point(code, offset)
            a.t.point = point
            got = outcome(lambda: a.run(f))
            main = got, (canon(out) if out is not None else None)
            places.append((a.n, b.n, a.fired, b.fired, len(done)))
            res.append((o["op"], main, 0))
            res += done
        if env.fingerprint() != before:
            problems.append("an input or an interpolator was changed by calls made inside calls")
        changed = same_surroundings(around, surroundings())
        if changed:
            problems.append(f"the process was left changed by calls made inside calls: {changed}")
        u = strided_usable(env)
        if u:
            problems.append(u)
        return res, places, problems

    res, places, problems = lab.run(go)
    lab.add("calls", len(res))
    lab.add("calls made inside another call", sum(1 for _, _, s in res if s == 1))
    lab.add("calls made inside a call made inside another", sum(1 for _, _, s in res if s > 1))
    lab.add("bytecode boundaries of interrupted calls", sum(p[0] + p[1] for p in places))
    if problems:
        raise Bad(problems[0])
    for op, got, depth in res:
        w = lone(lab, sc, op, texts)
        if got != w:
            what = "interrupted" if depth == 0 else f"made inside {depth} other call{'s' * (depth > 1)}"
            raise Bad(f"{op['k']} {op.get('via', '')} {what} gave {show(got[0])}, output {got[1] and show(got[1])}, but alone {show(w[0])}, output {w[1] and show(w[1])}")
    return Verdict(nontrivial=any(d for _, _, d in res), sig=digest(places, res), state=digest(res))
