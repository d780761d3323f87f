"""Saves that were torn, overwritten, bit-flipped or lost parts, restored in fresh processes."""
import copy
from functools import reduce
from pydantic import TypeAdapter
from ops import *
from c14 import document, save, load

SHRINK = ["damages", "obs"]
INT = TypeAdapter(list[int])
BOOL = TypeAdapter(bool)


def generate(r):
    worlds = [world(r, max_nodes=60, max_n=3, odd=0.2)]
    w2 = dict(worlds[0])
    if r.random() < 0.5:
        fill_vals(r, w2)
    else:
        w2 = world(r, max_nodes=60, max_n=3)
    worlds.append(w2)
    obs = [obs_set(r, worlds, 0, r.choice([1, 3]))]
    obs[0].update(shape=None, strided=False)
    damages = []
    for _ in range(r.choice([4, 8, 12])):
        k = r.choice(["cut", "cut", "tear", "tear", "flip", "flip", "flip", "digit", "digit", "field", "field", "element", "element", "element", "order", "order", "swap", "type", "type", "dup", "nest", "zero", "number", "number"])
        damages.append([k] + [r.random() for _ in range(5)])
    return dict(worlds=worlds, obs=obs, damages=damages, load=r.choice(["json", "json", "bytes", "dict"]), mode=r.choice(["json", "json", "indent"]))


def pick(x, u):
    return x[min(int(u * len(x)), len(x) - 1)]


def damage(text, other, d):
    """The document (bytes) after a fault."""
    k, u, v, t, s, q = d
    b = bytearray(text.encode())
    n = len(b)
    if k == "cut":
        return bytes(b[:int(u * n)])
    if k == "tear":  # first part of one save, the rest of another (as after an overwrite in place)
        o = other.encode()
        c = int(u * min(n, len(o)))
        return bytes(o[:c] + b[c:]) if v < 0.6 else bytes(o[:c] + b[c:c + int(t * 40)] + o[c + int(t * 40):])
    if k == "flip":
        for x in (u, v)[:1 + (t < 0.3)]:
            b[int(x * n)] ^= 1 << int(s * 8)
        return bytes(b)
    if k == "digit":  # an undetected flip inside a number
        pos = [i for i, c in enumerate(b) if 48 <= c <= 57]
        for x in (u, v)[:1 + (t < 0.3)]:
            i = pick(pos, x)
            b[i] = 48 + (b[i] - 48 + 1 + int(s * 9)) % 10
        return bytes(b)
    if k == "zero":  # a lost sector reads as zeros or spaces
        i = int(u * n)
        m = 1 + int(v * min(n, 64))
        return bytes(b[:i] + (b"\0" if t < 0.5 else b" ") * len(b[i:i + m]) + b[i + m:])
    doc = json.loads(text)
    keys = list(doc)
    if k == "field":
        key = pick(keys, u)
        x = doc[key]
        if isinstance(x, dict) and v < 0.6:
            x.pop(pick(list(x), t))
        elif isinstance(x, list) and x and v < 0.5:
            if isinstance(x[0], dict) and s < 0.6:
                pick(x, t).pop(pick(["data", "dtype"], s / 0.6), None)
            else:
                del x[int(t * len(x))]
        else:
            del doc[key]
        return json.dumps(doc).encode()
    if k == "dup":
        key = pick(keys, u)
        o = json.loads(other)
        x = o.get(key, 3)
        return (text.rstrip()[:-1] + ", " + json.dumps(key) + ": " + json.dumps(x) + "}").encode()
    if k == "swap":
        o = json.loads(other)
        key = pick(list(o), u)
        doc[key] = o[key]
        if v < 0.3:
            doc["extra"] = 1
        return json.dumps(doc).encode()
    # damage inside one stored array (or the dims)
    places = []
    for key in keys:
        if isinstance(doc[key], dict):
            places.append(doc[key])
        elif isinstance(doc[key], list) and doc[key] and isinstance(doc[key][0], dict):
            places += doc[key]
        elif k in ("type", "number") and v < 0.3:
            places.append(key)
    p = pick(places, u)
    if isinstance(p, str):
        x = doc[p]
        if isinstance(x, list):
            x[int(t * len(x))] = pick([0, -1, 1, "2", 2.0, 2.5, True, None, 1 << 62, 1 << 80, -(1 << 63), [2], "x", math.nan, 1e300], s)
            if q < 0.2:
                doc[p] = pick([[], x * 4, 5, None, "[2]"], t)
        else:
            doc[p] = pick([0, 1, 2, "true", "no", "maybe", 1.0, None, [], 0.5], s)
        return json.dumps(doc).encode()
    if k == "type":
        if t < 0.5:
            p["dtype"] = pick(["float32", "float64", "int64", "object", None, "f8", 1], s)
        else:
            p["data"] = pick([None, 3, {}, "null", "7", "\"abc\"", "{}", "[]", [], "[[", "[1e999]", "[null]", "[true, false]", "[\"1.5\", 2]", "[" * 2000, "[1" + "0" * 400 + "]", True, "nan", "[" + "9" * 5000 + "]"], s)
        return json.dumps(doc).encode()
    v_ = json.loads(p["data"])
    if k == "element":
        i = int(t * len(v_))
        m = 1 if v < 0.6 else 1 + int(s * len(v_))
        if q < 0.25:
            v_[i:i] = v_[:m]
        else:
            del v_[i:i + m]
    elif k == "order":  # two elements written in the other's place, or one written twice
        i = int(t * len(v_)) if q < 0.6 else len(v_) - 1 - int(t * min(2, len(v_)))
        j = max(i - 1, 0) if v < 0.8 else int(s * len(v_))
        if s < 0.5:
            v_[i], v_[j] = v_[j], v_[i]
        else:
            v_[i] = v_[j]
    elif k == "nest":
        v_ = [v_] if v < 0.4 else ([[x] for x in v_] if v < 0.7 else [v_[:len(v_) // 2], v_[len(v_) // 2:]])
    elif k == "number":
        v_[int(t * len(v_))] = pick([0.0, -0.0, math.nan, math.inf, -math.inf, -1.0, 1e39, 1e308, 5e-324, 1 << 70, "1.5", True, v_[0], v_[-1], 1e-300], s)
    p["data"] = json.dumps(v_) if u * 7 % 1 < 0.9 else v_
    return json.dumps(doc).encode()


def literal(w, data):
    """What the damaged document literally says, as {field: value}; raises when it says nothing usable."""
    c = CLASSES[w["m"], w["reg"]]
    doc = json.loads(data.decode(), strict=False)
    if not isinstance(doc, dict):
        raise ValueError("not an object")
    want = ["dims", "starts", "steps", "vals"] if w["reg"] else ["grids", "vals"]
    if w["m"] == "cubic":
        want.append("linearize_extrapolation")
    if set(doc) != set(want):
        raise ValueError("fields")
    res = {}
    for k in want:
        x = doc[k]
        if k == "dims":
            res[k] = INT.validate_python(x)
        elif k == "linearize_extrapolation":
            res[k] = BOOL.validate_python(x)
        elif k == "grids":
            res[k] = [array(y) for y in x]
        else:
            res[k] = array(x)
    return res


def array(x):
    ty = {"float64": np.float64, "float32": np.float32}[x["dtype"]]
    v = x["data"]
    if isinstance(v, str):
        v = json.loads(v)
    elif not isinstance(v, list):
        raise ValueError("data")
    if set(x) != {"data", "dtype"}:
        raise ValueError("fields")
    return np.array(v, dtype=ty)


def sound(w, l):
    """The constructor's checks, on the literal data."""
    v = l["vals"]
    arrays = [l["starts"], l["steps"], v] if w["reg"] else [*l["grids"], v]
    n = len(l["dims"]) if w["reg"] else len(l["grids"])
    if not 1 <= n <= MAXN[w["m"]]:
        return "the number of dimensions"
    if any(x.dtype != v.dtype for x in arrays):
        return "the number types"
    if w["reg"]:
        if l["starts"].size != n or l["steps"].size != n:
            return "the number of starts or steps"
        if v.size != reduce(lambda a, b: a * b, l["dims"]):
            return "the number of values"
        if not all(float(x) > 0 for x in l["steps"].ravel()):
            return "the steps"
    else:
        if v.size != reduce(lambda a, b: a * b, [g.size for g in l["grids"]]):
            return "the number of values"
        if not all(np.all(np.diff(g) > 0) for g in l["grids"]):
            return "the order of grid coordinates"
    return None


def same(a, b):
    return canon(np.atleast_1d(a)) == canon(np.atleast_1d(b))


def check(sc, lab):
    w = sc["worlds"][0]
    c = CLASSES[w["m"], w["reg"]]

    def first():
        i = construct(WorldArrays(w))
        return save(i, sc["mode"]), save(construct(WorldArrays(sc["worlds"][1])), sc["mode"]), canon(i)
    text, other, intact = lab.run(first)
    cols = sc["obs"][0]["cols"] if sc["obs"] else points(random.Random(1), w, 2)

    def go():
        res = []
        for d in sc["damages"]:
            data = damage(text, other, d)
            with np.errstate(all="ignore"):
                import warnings
                warnings.simplefilter("ignore")
                res.append(one(data))
        i = load(c, text, sc["load"])
        return res, canon(i)

    def one(data):
        try:
            i = load(c, data.decode("utf-8", "surrogateescape") if sc["load"] == "json" else data.decode() if sc["load"] == "dict" else "", sc["load"]) if sc["load"] in ("json", "dict") else c.model_validate_json(data)
        except Exception as e:
            return data, ("refused", type(e).__name__), None
        except BaseException as e:
            return data, ("panic", type(e).__name__, str(e)[:200]), None
        if data.decode("utf-8", "replace") == text:
            return data, ("same",), None
        try:
            l = literal(w, data)
        except Exception as e:
            return data, ("bad", f"restored although the document says nothing usable ({type(e).__name__}: {e})"), None
        why = sound(w, l)
        if why:
            return data, ("bad", f"restored although {why} violates the constructor's checks"), None
        for k, x in l.items():
            y = getattr(i, k)
            if k == "grids":
                ok = len(x) == len(y) and all(same(a, b.data) for a, b in zip(x, y))
            elif isinstance(x, np.ndarray):
                ok = same(x, y.data)
            else:
                ok = x == y and type(x) is type(y)
            if not ok:
                return data, ("bad", f"restored {k} = {str(y)[:200]} but the document says {str(x)[:200]}"), None
        # evaluate it, against a direct call on what the document says
        obs = [np.array(v, dtype=l["vals"].dtype) for v in cols]
        n = len(l["dims"]) if w["reg"] else len(l["grids"])
        obs = (obs * 8)[:n]
        got = outcome(lambda: i.eval(obs))
        want = None
        if got[0] == "panic":
            return data, ("bad", f"evaluation ended with {got}"), None
        if got[0] != "error":
            out = np.zeros(len(cols[0]), dtype=l["vals"].dtype)
            flat = lambda x: np.ascontiguousarray(x.ravel())
            t = "f64" if out.dtype == np.float64 else "f32"
            f = getattr(raw, f"interpn_{w['m']}_{'regular' if w['reg'] else 'rectilinear'}_{t}")
            extra = [l["linearize_extrapolation"]] if w["m"] == "cubic" else []
            if w["reg"]:
                f(l["dims"], flat(l["starts"]), flat(l["steps"]), flat(l["vals"]), *extra, obs, out)
            else:
                f([flat(g) for g in l["grids"]], flat(l["vals"]), *extra, obs, out)
            if canon(out) != got:
                return data, ("bad", f"the restored interpolator evaluates to {show(got)}, the document's data give {show(canon(out))}"), None
        b = outcome(lambda: i.check_bounds(obs, 0.0))
        if b[0] == "panic":
            return data, ("bad", f"check_bounds ended with {b}"), None
        return data, ("restored", got[0]), None

    res, again = lab.run(go)
    for d, (data, r, _) in zip(sc["damages"], res):
        lab.add(f"fault: {d[0]}")
        lab.add({"refused": "damaged saves refused", "restored": "damaged saves restored", "same": "damage without effect"}.get(r[0], "violations"))
        if r[0] in ("bad", "panic"):
            raise Bad(f"damaged save ({d[0]}) {data[:600]!r}: {r[1:]}")
    if again != intact:
        raise Bad(f"restoring the intact save after failed restores gives {str(again)[:300]}")
    return Verdict(nontrivial=any(r[0] in ("refused", "restored") for _, r, _ in res), sig=digest([(d, r) for d, r, _ in res]), state=digest([r for _, r, _ in res]))
