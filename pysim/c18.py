"""Histories in a tree of processes: arrays refilled in place, freed and allocated again, repeated, interrupted and
failing calls, worker threads, copies and pickles of interpolators, forked workers of which some are killed."""
import copy, decimal, locale, logging, mmap, threading, warnings
from ops import *
import sched
from c13 import own_frame

SHRINK = ["steps", "steps/*/ops"]
KINDS = ["eval"] * 10 + ["bounds"] * 3 + ["build"] * 2 + ["save"] * 2 + ["load"] * 2 + ["bad"]
COPIES = {
    "copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "model_copy": lambda x: x.model_copy(),
    "model_copy deep": lambda x: x.model_copy(deep=True), "validate": lambda x: type(x).model_validate(x),
}

# what an application may set for the whole process, in the middle of everything
SETTINGS = {
    "print precision": lambda: np.set_printoptions(precision=2, suppress=True, floatmode="fixed"),
    "print threshold": lambda: np.set_printoptions(threshold=1, edgeitems=1, linewidth=20),
    "legacy printing": lambda: np.set_printoptions(legacy="1.13"),
    "floating-point errors ignored": lambda: np.seterr(all="ignore"),
    "floating-point errors warned about": lambda: np.seterr(all="warn"),
    "numpy buffer size": lambda: np.setbufsize(16),
    "garbage collection at every allocation": lambda: (gc.enable(), gc.set_threshold(1)),
    "no garbage collection": gc.disable,
    "decimal precision": lambda: setattr(decimal.getcontext(), "prec", 2),
    "locale": lambda: locale.setlocale(locale.LC_ALL, ""),
    "warnings ignored": lambda: warnings.simplefilter("ignore"),
    "warnings always shown": lambda: warnings.simplefilter("always"),
    "random seeds": lambda: (random.seed(1), np.random.seed(1)),
    "integer digits": lambda: sys.set_int_max_str_digits(640),
    "recursion limit": lambda: sys.setrecursionlimit(400),
    "switch interval": lambda: sys.setswitchinterval(1e-6),
    "directory": lambda: os.chdir("/"),
    "environment": lambda: os.environ.update(OMP_NUM_THREADS="1", RAYON_NUM_THREADS="1", LC_NUMERIC="de_DE.UTF-8", RUST_BACKTRACE="1"),
    "environment emptied": lambda: [os.environ.pop(k) for k in list(os.environ) if not k.startswith("INTERPN_SIM")],
    "logging": lambda: logging.basicConfig(level=0, handlers=[logging.NullHandler()]),
    "stack of new threads": lambda: threading.stack_size(1 << 18),
    "umask": lambda: os.umask(0o777),
}


def generate(r):
    worlds = []
    for _ in range(r.choice([1, 1, 2])):
        w = world(r, max_nodes=120, max_n=3 if r.random() < 0.8 else None)
        worlds.append(w)
        for _ in range(r.choice([0, 1, 1, 2])):  # the same shape with other contents
            x = json.loads(json.dumps(w))
            k = r.random()
            if k < 0.6:
                fill_grid(r, x, r.choice([None, True, False]))
            if k > 0.3:
                fill_vals(r, x)
            if k > 0.85:
                spoil(r, x)
            worlds.append(x)
    for w in worlds:
        w["how"] = r.choice(["new", "new", "ctor", "lists"])
    obs = [obs_set(r, worlds, w) for w in range(len(worlds)) for _ in range(r.choice([1, 2]))]
    kinds = KINDS if r.random() < 0.7 else ["eval"] * 4 + [r.choice(KINDS)]
    style = r.choice(["plain", "refill", "fresh", "mixed", "mixed", "processes"])
    steps = []
    for _ in range(r.choice([3, 5, 8, 14])):
        op = lambda: some_op(r, worlds, obs, kinds)
        k = r.random()
        mode = style if style in ("refill", "fresh", "plain") and k < 0.7 else r.choice(["plain", "plain", "refill", "refill", "fresh", "thread", "again", "interrupt", "copy", "drop", "setting"])
        if style == "processes" and k < 0.6:
            mode = "fork"
        s = dict(k=mode, ops=[op()])
        if mode == "again":
            s["times"] = r.choice([2, 3, 10, 130, 300])
        elif mode == "interrupt":
            s.update(u=r.random(), exc=r.choice(["KeyboardInterrupt", "MemoryError", "Injected"]))
        elif mode == "setting":
            s["what"] = r.choice(sorted(SETTINGS))
        elif mode == "copy":
            s["how"] = r.choice(sorted(COPIES))
        elif mode == "fork":
            s["ops"] = [op() for _ in range(r.choice([1, 1, 2, 3]))]
            s.update(kill=[r.randrange(len(s["ops"])), r.random()] if r.random() < 0.5 else None, pickled=r.random() < 0.5)
        steps.append(s)
    return dict(worlds=worlds, obs=obs, steps=steps)


def spoil(r, w):
    """One axis that the library refuses."""
    d = r.randrange(len(w["dims"]))
    if r.random() < 0.4:  # numbers that are none
        x = r.choice([math.inf, -math.inf, math.nan, 3e38 if w["ty"] == "f4" else 1.7e308])
        g = r.choice([w["starts"], w["steps"]]) if w["reg"] else w["grids"][d]
        g[d if w["reg"] else r.randrange(len(g))] = x
        return
    if w["reg"]:
        w["steps"][d] = r.choice([0.0, -w["steps"][d]])
    else:
        g = w["grids"][d]
        if r.random() < 0.5:
            g.reverse()
        else:
            g[0], g[1] = g[1], g[0]


class Shared:
    """Memory shared with forked processes."""

    def __init__(self):
        self.m = mmap.mmap(-1, 1 << 23)

    def array(self, n, t, at):
        return np.frombuffer(self.m, dtype=t, count=n, offset=(1 << 22) + at * (1 << 17))

    def put(self, x):
        data = pickle.dumps(x)
        n = int.from_bytes(self.m[:8], "little")
        self.m[8 + n:8 + n + 8] = len(data).to_bytes(8, "little")
        self.m[16 + n:16 + n + len(data)] = data
        self.m[:8] = (n + 8 + len(data)).to_bytes(8, "little")

    def all(self):
        end, at, res = int.from_bytes(self.m[:8], "little"), 0, []
        while at < end:
            n = int.from_bytes(self.m[8 + at:16 + at], "little")
            res.append(pickle.loads(self.m[16 + at:16 + at + n]))
            at += 8 + n
        return res


def with_output(op):
    return op["k"] == "eval" and op["out"] != "none"


def call_into(env, op, out):
    """The call writing to this output instead of one of its own."""
    W, a, obs = env.sc["worlds"][op["w"]], env.a(op["w"]), env.ob(op["o"])
    if op["via"] == "raw":
        return lambda: raw_eval(W, a, obs, out)
    if op["via"] == "front":
        return lambda: front(W, a, obs, out, op["check"], 1e-8, a.full_grids(), op["assume"])
    i = env.i(op["w"])
    return lambda: (i.eval if op["via"] == "eval" else i.eval_unchecked)(obs, out)


def mixed(out, old, right):
    """Every element holds its old or its right value."""
    b, o, g = (np.ascontiguousarray(x).reshape(-1).view(np.uint8).reshape(out.size, -1) for x in (out, old, right))
    return bool(((b == o).all(axis=1) | (b == g).all(axis=1)).all())


def check(sc, lab):
    ops = [op for s in sc["steps"] for op in s["ops"]]
    if not ops:
        return Verdict(nontrivial=False)
    good = lambda w: lab.lone(["good", w], lambda: outcome(lambda: construct(WorldArrays(sc["worlds"][w])))[0] == "interpolator")
    bad_worlds = {w for w in range(len(sc["worlds"])) if not good(w)}
    # calls that need an interpolator of data that are refused become constructions (refused alike)
    for op in ops:
        if op["w"] in bad_worlds and not (op["k"] == "eval" and op["via"] in ("raw", "front") or op["k"] == "build" or op["k"] == "bounds" and op["via"] == "raw"):
            op.clear()
            op.update(k="build", w=min(bad_worlds), how="new")
    texts = texts_for(lab, sc, ops)
    want = {}
    for op in ops:
        want[id(op)] = lone(lab, sc, op, texts)

    def count(op):
        env = Env(sc, texts)
        if op["w"] not in bad_worlds:
            env.prepare([op])
        f, _ = prepared_call(env, op)
        s = sched.Stepper(where=own_frame)
        s.run(lambda: outcome(f))
        return s.n
    for s in sc["steps"]:
        if s["k"] == "interrupt":
            s["n"] = lab.lone(["n", s["ops"][0]], lambda: count(s["ops"][0]))
        elif s["k"] == "fork" and s["kill"] and s["kill"][0] < len(s["ops"]):
            op = s["ops"][s["kill"][0]]
            s["n"] = lab.lone(["n", op], lambda: count(op))

    def differs(op, got, when):
        w = want[id(op)]
        if got != w:
            raise Bad(f"{op['k']} {op.get('via', op.get('how', ''))} {when} gave {show(got[0])}, output {got[1] and show(got[1])}, but as the first call of a process {show(w[0])}, output {w[1] and show(w[1])}")

    def go():
        env = Env(sc, texts)
        store, n, done = {}, {}, []
        around = surroundings()

        def refilled(op):
            """The same arrays for all worlds of a shape, filled with this call's data."""
            W = sc["worlds"][op["w"]]
            e = Env(sc, texts)
            a = WorldArrays(W)
            b = store.setdefault((W["m"], W["reg"], W["ty"], tuple(W["dims"])), a)
            for x, y in zip(b.all(), a.all()):
                x[...] = y
            b.w = W
            e.arrays[op["w"]] = b
            if "o" in op:
                o = e.ob(op["o"])
                p = store.setdefault(("obs", W["ty"], tuple((x.shape, x.strides) for x in o)), o)
                for x, y in zip(p, o):
                    x[...] = y
                e.obs[op["o"]] = p
            return e

        def note(k):
            n[k] = n.get(k, 0) + 1
        for at, s in enumerate(sc["steps"]):
            k = s["k"]
            op = s["ops"][0] if s["ops"] else None
            if op is None:
                continue
            if k == "fork":
                forked(env, s, at, note, done)
                continue
            if k == "refill":
                note("fault: arrays filled anew in place")
                got = record(*prepared_call(refilled(op), op))
            elif k == "fresh":
                note("fault: arrays freed and allocated again")
                got = record(*prepared_call(Env(sc, texts), op))
            elif k == "thread":
                note("calls in threads of their own")
                box = []
                t = threading.Thread(target=lambda: box.append(record(*prepared_call(env, op))))
                t.start()
                t.join()
                got = box[0]
            elif k == "again":
                f, out = prepared_call(env, op)
                first = None if out is None else out.copy()
                for j in range(s["times"]):
                    if out is not None and out.flags.writeable:
                        out[...] = first
                    got = record(f, out)
                    note("repeated calls")
                    differs(op, got, f"(step {at}), repetition {j},")
            elif k == "setting":
                changed = same_surroundings(around, surroundings())
                if changed:
                    raise Bad(f"the calls left the process changed: {changed}")
                SETTINGS[s["what"]]()
                note(f"fault: changed for the whole process: {s['what']}")
                around = surroundings()
                got = record(*prepared_call(env, op))
            elif k == "interrupt" and s.get("n"):
                f, _ = prepared_call(env, op)
                st = sched.Stepper({int(s["u"] * s["n"]): sched.EXC[s["exc"]]}, own_frame)
                try:
                    st.run(f)
                except BaseException as e:
                    e.__traceback__ = None
                if st.fired:
                    note(f"fault: {s['exc']} inside a call")
                got = record(*prepared_call(env, op))
            elif k == "copy" and op["w"] not in bad_worlds:
                note("interpolators replaced by copies")
                env.interps[op["w"]] = COPIES[s["how"]](env.i(op["w"]))
                got = record(*prepared_call(env, op))
            elif k == "drop":
                note("fault: interpolators and arrays dropped, garbage collected")
                env = Env(sc, texts)
                gc.collect()
                got = record(*prepared_call(env, op))
            else:
                got = record(*prepared_call(env, op))
            done.append(got)
            differs(op, got, f"(step {at}: {k} {s.get('what', '')})")
        changed = same_surroundings(around, surroundings())
        if changed:
            raise Bad(f"the calls left the process changed: {changed}")
        return n, digest(done)

    def forked(env, s, at, note, done):
        """A worker process makes the calls, into outputs in shared memory; it may be killed inside one."""
        sh = Shared()
        outs = {}
        for j, op in enumerate(s["ops"]):
            if with_output(op):
                m = size(sc["obs"][op["o"]])
                x = sh.array(m, DT[sc["worlds"][op["w"]]["ty"]], j)
                x[...] = SENTINEL
                if sc["obs"][op["o"]]["shape"] and op["out"] != "slice":
                    x = x.reshape(sc["obs"][op["o"]]["shape"])
                outs[j] = x
        kill = s["kill"] if s["kill"] and s.get("n") else None
        sent = {op["w"]: pickle.dumps(env.i(op["w"])) for op in s["ops"] if s["pickled"] and op["w"] not in bad_worlds}

        def work():
            e = Env(sc, texts) if s["pickled"] else env
            for w, p in sent.items():
                e.interps[w] = pickle.loads(p)
            for j, op in enumerate(s["ops"]):
                f, out = (call_into(e, op, outs[j]), outs[j]) if j in outs else prepared_call(e, op)
                g = f
                if kill and kill[0] == j:
                    g = lambda: sched.Stepper({int(kill[1] * s["n"]): lambda: os.kill(os.getpid(), signal.SIGKILL)}, own_frame).run(f)
                sh.put((j, record(g, out)))

        died = False
        try:
            in_child(work, 30.0)
        except Dead as e:
            if not kill or "signal 9" not in str(e):
                raise Bad(f"step {at}: calls {[op['k'] for op in s['ops']]} of a worker process: {e}")
            died = True
        note("worker processes")
        if died:
            note("fault: worker process killed inside a call")
        back = dict(sh.all())
        for j, op in enumerate(s["ops"]):
            if j in back:
                done.append(back[j])
                differs(op, back[j], f"(step {at}) in a worker process")
            elif not died:
                raise Bad(f"step {at}: call {j} of the worker process is missing")
            w = want[id(op)]
            if j in outs and w[1] is not None:
                right = np.frombuffer(w[1][3], dtype=w[1][1]).reshape(w[1][2])
                old = np.full(outs[j].shape, SENTINEL, dtype=outs[j].dtype)
                if j not in back and not mixed(outs[j], old, right):
                    raise Bad(f"step {at}: an element of a killed worker's output holds neither its old nor its right value: {outs[j]} (right {right})")
            if died:  # somebody else takes over
                f, out = (call_into(env, op, outs[j]), outs[j]) if j in outs else prepared_call(env, op)
                got = record(f, out)
                done.append(got)
                differs(op, got, f"(step {at}) taken over from a killed worker process")

    n, sig = lab.run(go, 120)
    for k, v in n.items():
        lab.add(k, v)
    lab.add("calls", len(ops))
    return Verdict(nontrivial=len(ops) > 1 and bool(n), sig=digest(sig, n), state=digest(sig))
