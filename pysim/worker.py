"""worker.py run PROP SEED FROM TO STEP SECS OUT | replay FILE | shrink FILE SECS | digest PROP SEED FROM TO STEP"""
import importlib, json, os, random, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Bad, Dead, Lab, Verdict


def module(prop):
    return importlib.import_module(prop.lower())


def generate(prop, seed, i):
    r = random.Random(f"{seed}/{prop}/{i}")
    return module(prop).generate(r)


def check(prop, sc, lab):
    lab.cache.clear()
    try:
        return module(prop).check(sc, lab)
    except Bad as e:
        return Verdict(str(e))
    except Dead as e:
        return Verdict(str(e))


def trim(v):
    if isinstance(v, list):
        v = [trim(x) for x in v]
        return v[:12] + [f"... {len(v)} in all"] if len(v) > 12 else v
    if isinstance(v, dict):
        return {k: trim(x) for k, x in v.items()}
    return v


def run(prop, seed, lo, hi, step, secs, out, best):
    t0 = time.monotonic()
    lab = Lab()
    res = dict(runs=0, nontrivial=0, sigs=[], states=[], samples=[], found=None, twice=0, same=0, digests=[])
    sigs, states = set(), set()
    i = lo
    while i < hi:
        if time.monotonic() - t0 > secs:
            break
        try:
            if int(open(best).read() or 1 << 60) < i:
                break
        except (OSError, ValueError):
            pass
        sc = generate(prop, seed, i)
        v = check(prop, sc, lab)
        res["runs"] += 1
        res["digests"].append((i, v.sig, bool(v.nontrivial)))
        if v.violation:
            res["found"] = dict(index=i, violation=v.violation, scenario=sc)
            open(best, "w").write(str(i))
            break
        if v.nontrivial:
            res["nontrivial"] += 1
            sigs.add(v.sig)
            if len(res["samples"]) < 2 and i < 200:
                res["samples"].append(dict(run=i, scenario=trim(sc)))
        states.add(v.state)
        if (i // step) % 40 == 7:
            keep, lab.n = lab.n, {}
            sc2 = generate(prop, seed, i)
            v2 = check(prop, sc2, lab)
            lab.n = keep
            res["twice"] += 1
            res["same"] += json.dumps(sc) == json.dumps(sc2) and v2.sig == v.sig
        i += step
    res.update(n=lab.n, sigs=sorted(sigs), states=sorted(states), processes=lab.children, complete=i >= hi)
    json.dump(res, open(out, "w"))


# ------------------------------------------------------------------ minimisation
def lists_in(sc, pattern, path=()):
    """All concrete paths to lists matching a pattern such as 'threads/*/ops'."""
    cur = [((), sc)]
    for part in pattern.split("/"):
        nxt = []
        for p, v in cur:
            if part == "*":
                if isinstance(v, list):
                    nxt += [(p + (k,), x) for k, x in enumerate(v)]
            elif isinstance(v, dict) and part in v:
                nxt.append((p + (part,), v[part]))
        cur = nxt
    return [p for p, v in cur if isinstance(v, list)]


def at(sc, p):
    for k in p:
        sc = sc[k]
    return sc


def shrink(prop, sc, text, secs):
    t0, tries = time.monotonic(), 0
    mod = module(prop)
    lab = Lab()
    text = [text]

    def violates(c):
        nonlocal tries
        if time.monotonic() - t0 > secs:
            return False
        tries += 1
        try:
            v = check(prop, c, lab)
        except Exception:
            return False  # no longer a well-formed scenario
        if v.violation:
            text[0] = v.violation
            return True
        return False

    again = True
    while again and time.monotonic() - t0 < secs:
        again = False
        for pat in mod.SHRINK:
            for p in lists_in(sc, pat):
                try:
                    chunk = len(at(sc, p))
                except (KeyError, IndexError, TypeError):
                    continue
                while chunk > 0:
                    i = 0
                    while True:
                        try:
                            l = at(sc, p)
                        except (KeyError, IndexError, TypeError):
                            break
                        if i >= len(l) or not isinstance(l, list):
                            break
                        c = json.loads(json.dumps(sc))
                        del at(c, p)[i:i + chunk]
                        if violates(c):
                            sc, again = c, True
                        else:
                            i += chunk
                    chunk //= 2
    return sc, text[0], tries


def size(sc):
    return {"json_bytes": len(json.dumps(sc))}


def main():
    cmd = sys.argv[1]
    if cmd == "run":
        _, _, prop, seed, lo, hi, step, secs, out, best = sys.argv
        run(prop, int(seed), int(lo), int(hi), int(step), float(secs), out, best)
    elif cmd == "shrink":
        doc = json.load(open(sys.argv[2]))
        before = size(doc["scenario"])
        sc, text, tries = shrink(doc["property"], doc["scenario"], doc["violation"], float(sys.argv[3]))
        doc.update(scenario=sc, violation=text, minimised={"from": before, "to": size(sc), "executions": tries})
        json.dump(doc, open(sys.argv[2], "w"), indent=1)
    elif cmd == "replay":
        doc = json.load(open(sys.argv[2]))
        v = check(doc["property"], doc["scenario"], Lab())
        if v.violation:
            print(v.violation.replace("\n", " "))
            print(f"VIOLATION property={doc['property']} replay={sys.argv[2]}")
            return 1
        print("held")
    elif cmd == "one":
        sc = generate(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
        print(json.dumps(sc)[:3000])
        v = check(sys.argv[2], sc, Lab())
        print(v.violation, v.nontrivial, v.sig)
    return 0


if __name__ == "__main__":
    sys.exit(main())
