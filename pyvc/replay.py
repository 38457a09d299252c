"""Concrete execution of contracts on the untouched code (no instrumentation, no solver).

stdin: JSON lines {"contract": id, "values": {...}} or {"contract": id, "random": n, "seed": s, "seconds": t}
stdout: one JSON line per request
"""
import json
import sys
import time

from . import env


def main():
    env.setup(False)
    from . import api

    out = sys.stdout
    sys.stdout = sys.stderr
    loaded = set()
    for line in sys.stdin:
        req = json.loads(line)
        prop = req["contract"].split(".")[0]
        if prop not in loaded:
            env.load_contracts(prop)
            loaded.add(prop)
        c = api.CONTRACTS[req["contract"]]
        if "values" in req:
            r = one(api, c, api.ConcreteI(req["values"]), req["values"])
        elif "exhaust" in req:
            r = exhaust(api, c, req)
        else:
            r = rand(api, c, req)
        out.write(json.dumps(r, default=repr) + "\n")
        out.flush()


def one(api, c, I, values):
    import traceback

    try:
        r = api.run_concrete(c, I)
    except Exception as ex:
        failed = list(I.state["failed"])
        if api.program_raised(ex):
            failed.append(("no unexpected exception", f"{type(ex).__name__}: {ex}"))
        if failed:
            return {"status": "failed", "failed": [list(map(str, f)) for f in failed[:5]], "values": values}
        return {"status": "error", "error": traceback.format_exc()[-3000:]}
    if r is None:
        return {"status": "discarded"}
    failed, n = r
    if failed:
        return {"status": "failed", "failed": [list(map(str, f)) for f in failed[:5]], "values": values}
    return {"status": "ok", "checks": n}


def literals(functions):
    """the short texts and the whole numbers written in the modules of the functions under contract: values a branch may ask for"""
    import ast
    import importlib

    words, numbers = set(), set()
    for m in sorted({f.split(":")[0] for f in functions}):
        try:
            with open(importlib.import_module(m).__file__) as fh:
                tree = ast.parse(fh.read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 24:
                    words.add(v)
                elif type(v) is int and abs(v) > 1:
                    numbers.add(v)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and all(isinstance(x, ast.Constant) and type(x.value) is int for x in (n.left, n.right)):
                if 0 <= n.right.value <= 64:
                    numbers.add(n.left.value ** n.right.value)
    return sorted(words), sorted(numbers)


def rand(api, c, req):
    import random

    api.RandomI.rng = random.Random(req.get("seed", 1))
    api.RandomI.words, api.RandomI.numbers = literals(c.functions)
    api.RandomI.max_list = req.get("max_list", 4)
    t0 = time.time()
    n = checks = disc = errs = 0
    lasterr = None
    seen = set()
    covers = {}
    while n < req["random"] and time.time() - t0 < req.get("seconds", 30):
        n += 1
        vals = {}
        I = api.RandomI(vals)
        r = one(api, c, I, vals)
        for k, v in I.state["covers"].items():
            covers[k] = covers.get(k, 0) + v
        if r["status"] == "failed":
            r["tried"] = n
            return r
        if r["status"] == "discarded":
            disc += 1
        elif r["status"] == "error":
            errs += 1
            lasterr = r["error"]
        else:
            checks += r["checks"]
            seen.add(json.dumps(vals, sort_keys=True, default=repr))
    return {
        "status": "ok" if errs == 0 else "error",
        "tried": n,
        "checks": checks,
        "discarded": disc,
        "errors": errs,
        "error": lasterr,
        "distinct": len(seen),
        "covers": covers,
    }


def exhaust(api, c, req):
    t0 = time.time()
    X = api.ExhaustI
    X.trace = []
    n = checks = disc = errs = 0
    lasterr, done = None, False
    known = []
    while time.time() - t0 < req.get("seconds", 300):
        X.pos = 0
        vals = {}
        r = one(api, c, X(vals), vals)
        n += 1
        if r["status"] == "failed":
            if not any(all(vals.get(a) == b for a, b in k.items()) for k in req.get("known", [])):
                r["tried"] = n
                return r
            known.append(r)
        elif r["status"] == "discarded":
            disc += 1
        elif r["status"] == "error":
            errs += 1
            lasterr = r["error"]
        else:
            checks += r["checks"]
        if not X.advance():
            done = True
            break
    return {
        "status": "ok" if errs == 0 else "error", "tried": n, "checks": checks, "discarded": disc, "errors": errs,
        "error": lasterr, "distinct": n - disc, "covers": {}, "complete": done, "known": known[:20],
    }


if __name__ == "__main__":
    main()
