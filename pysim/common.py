"""Worlds, calls and process handling shared by the Python simulations."""
import gc, hashlib, json, math, os, pickle, random, re, select, signal, sys, time, traceback

import numpy as np
import interpn
from interpn import raw

CLASSES = {
    ("linear", True): interpn.MultilinearRegular, ("linear", False): interpn.MultilinearRectilinear,
    ("cubic", True): interpn.MulticubicRegular, ("cubic", False): interpn.MulticubicRectilinear,
    ("nearest", True): interpn.NearestRegular, ("nearest", False): interpn.NearestRectilinear,
}
DT = {"f8": np.float64, "f4": np.float32}
MAXN = {"linear": 8, "cubic": 8, "nearest": 6}


# ------------------------------------------------------------------ worlds
def rnd(ty, x):
    with np.errstate(over="ignore"):
        return float(np.float32(x)) if ty == "f4" else float(x)


def coord_value(r, ty):
    return rnd(ty, r.choice([r.uniform(-10, 10), float(r.randint(-20, 20)), r.uniform(-1, 1) * 10 ** r.randint(-6, 6)]))


def value(r, ty, odd):
    if odd and r.random() < 0.3:
        big = 3.0e38 if ty == "f4" else 1.7e308
        tiny = 1e-45 if ty == "f4" else 5e-324
        return rnd(ty, r.choice([math.nan, math.inf, -math.inf, -0.0, big, -big, tiny, 0.1]))
    return rnd(ty, r.choice([r.uniform(-100, 100), float(r.randint(-9, 9)), r.gauss(0, 1)]))


def world(r, methods=("linear", "cubic", "nearest"), max_n=None, max_nodes=300, odd=0.15, ty=None, reg=None):
    m = r.choice(methods)
    lo = 4 if m == "cubic" else 2
    n = 1
    top = max_n or (MAXN[m] if r.random() < 0.15 else 3)
    while n < min(top, MAXN[m]) and lo ** (n + 1) <= max(max_nodes, 70_000 if top > 4 else 0) and r.random() < 0.6:
        n += 1
    dims = [lo] * n
    for d in range(n):
        while np.prod(dims) * 2 <= max_nodes and r.random() < 0.5:
            dims[d] += r.randint(1, 3)
    if n == 1 and r.random() < 0.08:
        dims = [r.choice([600, 1500, 4000])]
    ty = ty or r.choice(["f8", "f8", "f4"])
    w = dict(m=m, reg=r.random() < 0.5 if reg is None else reg, ty=ty, dims=dims, lin=r.random() < 0.5, starts=[], steps=[], grids=[], vals=[])
    fill_grid(r, w)
    fill_vals(r, w, r.random() < odd)
    return w


def fill_grid(r, w, same=None):
    ty = w["ty"]
    if w["reg"]:
        w["starts"] = [coord_value(r, ty) for _ in w["dims"]]
        w["steps"] = [rnd(ty, r.choice([1.0, 0.5, 0.1, r.uniform(0.01, 3)])) for _ in w["dims"]]
    else:
        w["grids"] = []
        if same is None and r.random() < 0.2:
            same = True
        for k in w["dims"]:
            if same:
                h, x = r.choice([0.5, 1.0, 2.0]), float(r.randint(-20, 20))
                w["grids"].append([x + h * j for j in range(k)])
                continue
            x, g = coord_value(r, ty), []
            even = r.random() < 0.3 if same is None else False
            for _ in range(k):
                g.append(x)
                y = x
                while not rnd(ty, y) > x:
                    y = rnd(ty, y + (0.5 if even else r.uniform(0.01, 2)) + abs(y) * 1e-6)
                x = rnd(ty, y)
            w["grids"].append(g)


def fill_vals(r, w, odd=False):
    k = int(np.prod(w["dims"]))
    if k > 400:
        g = np.random.default_rng(r.getrandbits(40))
        v = g.normal(size=k)
        w["vals"] = [rnd(w["ty"], x) for x in v]
    else:
        w["vals"] = [value(r, w["ty"], odd) for _ in range(k)]


def nodes(w, d):
    if w["reg"]:
        return [rnd(w["ty"], w["starts"][d] + w["steps"][d] * i) for i in range(w["dims"][d])]
    return w["grids"][d]


def points(r, w, m):
    """Observation columns: inside, on nodes, outside, far outside."""
    cols = []
    for d in range(len(w["dims"])):
        g = nodes(w, d)
        span = g[-1] - g[0] or 1.0
        c = []
        for _ in range(m):
            k = r.random()
            if k < 0.6:
                x = r.uniform(g[0], g[-1])
            elif k < 0.75:
                x = r.choice(g)
            elif k < 0.95:
                x = r.uniform(g[0] - span, g[-1] + span)
            else:
                x = g[0] + span * r.choice([-30, 30])
            c.append(rnd(w["ty"], x))
        cols.append(c)
    return cols


def arr(v, ty):
    return np.array(v, dtype=DT[ty])


class WorldArrays:
    """The caller's arrays for one world."""

    def __init__(self, w):
        t = w["ty"]
        self.w = w
        self.dims = list(w["dims"])
        self.starts, self.steps = arr(w["starts"], t), arr(w["steps"], t)
        self.grids = [arr(g, t) for g in w["grids"]]
        self.vals = arr(w["vals"], t)

    def all(self):
        return [self.starts, self.steps, self.vals, *self.grids]

    def full_grids(self):
        return self.grids if not self.w["reg"] else [arr(nodes(self.w, d), self.w["ty"]) for d in range(len(self.dims))]


def construct(a, how="new"):
    """Build the interpolator for these arrays: through new, or through the constructor."""
    w = a.w
    c = CLASSES[w["m"], w["reg"]]
    kw = {"linearize_extrapolation": w["lin"]} if w["m"] == "cubic" else {}
    if how == "new":
        if w["reg"]:
            return c.new(a.dims, a.starts, a.steps, a.vals, **kw)
        return c.new(a.grids, a.vals, **kw)
    from interpn.serialization import ArrayF32, ArrayF64
    t = ArrayF64 if w["ty"] == "f8" else ArrayF32
    if how == "lists":
        f = lambda x: t(data=x.tolist())
    elif how == "dicts":
        f = lambda x: {"data": x, "dtype": "float64" if w["ty"] == "f8" else "float32"}
    else:
        f = lambda x: t(data=x)
    if w["reg"]:
        return c(dims=a.dims, starts=f(a.starts), steps=f(a.steps), vals=f(a.vals), **kw)
    return c(grids=[f(g) for g in a.grids], vals=f(a.vals), **kw)


def raw_eval(w, a, obs, out):
    t = "f64" if w["ty"] == "f8" else "f32"
    f = getattr(raw, f"interpn_{w['m']}_{'regular' if w['reg'] else 'rectilinear'}_{t}")
    extra = [w["lin"]] if w["m"] == "cubic" else []
    if w["reg"]:
        return f(a.dims, a.starts, a.steps, a.vals, *extra, obs, out)
    return f(a.grids, a.vals, *extra, obs, out)


def raw_bounds(w, a, obs, atol, out):
    t = "f64" if w["ty"] == "f8" else "f32"
    f = getattr(raw, f"check_bounds_{'regular' if w['reg'] else 'rectilinear'}_{t}")
    if w["reg"]:
        return f(a.dims, a.starts, a.steps, obs, atol, out)
    return f(a.grids, obs, atol, out)


def front(w, a, obs, out=None, check=False, atol=1e-8, grids=None, assume=None):
    return interpn.interpn(obs, grids if grids is not None else a.full_grids(), a.vals, method=w["m"], out=out, linearize_extrapolation=w["lin"],
                           assume_regular=w["reg"] if assume is None else assume, check_bounds=check, bounds_atol=atol)


# ------------------------------------------------------------------ results
def canon(x):
    """A result as plain comparable data."""
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, str):
        return ("text", x)
    if x is None:
        return ("none",)
    if isinstance(x, interpn_models()):
        return ("interpolator", type(x).__name__, state(x))
    return ("other", repr(x))


def interpn_models():
    return tuple(CLASSES.values())


def state(i):
    """Everything an interpolator consists of, bit for bit."""
    res = []
    for k in sorted(type(i).model_fields):
        v = getattr(i, k)
        if isinstance(v, list):
            v = tuple(canon(x.data) + (x.dtype,) if hasattr(x, "data") else x for x in v)
        elif hasattr(v, "dtype") and hasattr(v, "data"):
            v = canon(v.data) + (v.dtype,)
        res.append((k, v))
    return tuple(res)


def own_arrays(i):
    res = []
    for k in type(i).model_fields:
        v = getattr(i, k)
        res += [x.data for x in (v if isinstance(v, list) else [v]) if isinstance(getattr(x, "data", None), np.ndarray)]
    return res


def error(e):
    # (pydantic quotes what it was given, printed as the application has set numpy to print)
    text = re.sub(r"input_value=.*?, input_type=", "input_type=", str(e), flags=re.S)
    return ("error", type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", text)[:300])


def outcome(f):
    """Result or ordinary exception of a call; anything else (a panic) propagates as such."""
    try:
        return canon(f())
    except Exception as e:
        return error(e)
    except BaseException as e:  # PanicException and the like
        return ("panic", type(e).__name__, str(e)[:300])


def show(c):
    if c[0] == "array":
        a = np.frombuffer(c[3], dtype=c[1]).reshape(c[2])
        return f"array({np.array2string(a, threshold=8)}, {c[1]}, shape {c[2]})"
    return str(c)[:300]


def digest(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:16]


def bits(arrays):
    return [(a.dtype.str, a.shape, a.strides, a.flags.writeable, a.tobytes()) for a in arrays]


def surroundings():
    """Settings of the whole process that a call could leave changed."""
    import decimal, locale, threading, warnings
    return dict(
        floating_point_errors=sorted(np.geterr().items()), error_callback=repr(np.geterrcall()), buffer=np.getbufsize(), printing=repr(sorted(np.get_printoptions().items())),
        collector=(gc.isenabled(), gc.get_threshold()), recursion=sys.getrecursionlimit(), switching=sys.getswitchinterval(),
        signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGFPE, signal.SIGSEGV)],
        masked=sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))), environment=sorted((k, v) for k, v in os.environ.items() if not k.startswith("INTERPN_SIM")),
        directory=os.getcwd(), umask=umask(), decimals=repr(decimal.getcontext().prec), locale=locale.setlocale(locale.LC_ALL), hooks=(repr(sys.excepthook), repr(threading.excepthook), repr(sys.unraisablehook)),
        showing=repr(warnings.showwarning), filters=len(warnings.filters), tracing=(repr(sys.gettrace()), repr(sys.getprofile())), streams=(id(sys.stdout), id(sys.stderr)),
        seed=hashlib.sha256(pickle.dumps((random.getstate(), np.random.get_state()))).hexdigest(),
        timers=signal.getitimer(signal.ITIMER_REAL),
    )


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def same_surroundings(before, after):
    return next((f"{k} was {before[k]}, is {after[k]}" for k in before if before[k] != after[k]), None)


# ------------------------------------------------------------------ processes
class Dead(Exception):
    pass


class Bad(Exception):
    pass


def in_child(f, timeout=60.0):
    """Run f in a forked child and return its (picklable) result; Dead if the process does not survive."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            gc.disable()
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 2)
            try:
                res = (True, f())
            except (Bad, Dead) as e:
                res = (None, str(e))
            except BaseException as e:
                res = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, end, hung = [], time.monotonic() + timeout, False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Dead("the process hangs")
    if os.WIFSIGNALED(st):
        raise Dead(f"the process was killed by signal {os.WTERMSIG(st)}")
    if not buf:
        raise Dead(f"the process exited with code {os.WEXITSTATUS(st)}")
    ok, res = pickle.loads(b"".join(buf))
    if ok is None:
        raise Bad(res)
    if not ok:
        raise RuntimeError("simulator error in a child: " + res)
    return res


class Lab:
    def __init__(self):
        self.n = {}
        self.cache = {}
        self.children = 0

    def add(self, k, v=1):
        if v:
            self.n[k] = self.n.get(k, 0) + int(v)

    def run(self, f, timeout=60.0):
        self.children += 1
        return in_child(f, timeout)

    def lone(self, key, f):
        """The result of a call made alone in a pristine process (cached within a run)."""
        key = json.dumps(key, sort_keys=True)
        if key not in self.cache:
            self.add("lone reference executions")
            self.cache[key] = self.run(f)
        return self.cache[key]


class Verdict:
    def __init__(self, violation=None, nontrivial=True, sig="", state=None):
        self.violation, self.nontrivial, self.sig, self.state = violation, nontrivial, sig, state or sig

