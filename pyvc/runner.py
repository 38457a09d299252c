"""python -m pyvc.runner PROP : decide one property on /repo's current tree."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from . import env

PY = "/opt/venv/bin/python"


class Run:
    """book-keeping of one exploration of one contract"""

    def __init__(self):
        self.counts = {"eval": 0, "z3": 0, "cvc5": 0}
        self.failed, self.unknown, self.covers = [], [], {}
        self.labels = {}

    def obligations(self, res):
        for label, st, d in res:
            base = label.split("[")[0].split(":")[0]
            self.labels[base] = self.labels.get(base, 0) + 1
            if st == "proved":
                self.counts[d] += 1
            elif st == "failed":
                self.failed.append((label, self._values(d)))
            else:
                self.unknown.append((label, d))

    @staticmethod
    def _values(model):
        from .core import E

        vals = dict(E.raw)
        vals["#hard"] = model is not None
        if isinstance(model, tuple):
            model, soft = model
            vals["#hard"] = not soft
        if model is None:
            if str(E._sat()) != "sat":
                return vals
            model = E.solver.model()
        import z3

        for name, e in E.inputs.items():
            v = model.eval(e, model_completion=True)
            if z3.is_string_value(v):
                vals[name] = unescape(v.as_string())
            elif z3.is_int_value(v):
                vals[name] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                vals[name] = z3.is_true(v)
        return vals


def unescape(s):
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def _msg(ex):
    try:
        return str(ex)[:200]
    except BaseException:
        return "<symbolic message>"


def explore(c, bound, seconds, max_fail=4):
    """-> dict describing one symbolic exploration"""
    from . import api
    from .core import Budget, E, Unsupported

    run = Run()
    E.stats.__init__()
    E.entered = {}
    E.bound = bound
    E.deadline = time.time() + seconds
    E.timeout_ms = 5000
    reach = [0]
    t0 = time.time()
    status, why = "done", None

    def path():
        try:
            c.fn(api.SymI(run, bound=bound))
        except Exception as ex:
            from .core import program_error

            program_error(ex)
            if not api.program_raised(ex):
                raise
            if os.environ.get("PYVC_TB"): traceback.print_exc()
            vals = Run._values(None)
            vals["#hard"] = False
            run.failed.append((f"no unexpected exception: {type(ex).__name__}: {_msg(ex)} at {where(ex)}", vals))

    class Enough(Exception):
        pass

    def on_path():
        reach[0] += 1
        if len(run.failed) >= max_fail:
            raise Enough

    try:
        E.explore(path, on_path)
    except Enough:
        pass
    except Budget as ex:
        status, why = "budget", str(ex)
    except Unsupported as ex:
        status, why = "unsupported", f"{type(ex).__name__}: {ex} at {where(ex)}"
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    except RecursionError as ex:
        status, why = "unsupported", f"RecursionError {str(ex)[:100]}"
    except Exception as ex:
        status, why = "error", traceback.format_exc()[-2500:]
    return {
        "status": status,
        "why": why,
        "failed": run.failed[:max_fail],
        "unknown": run.unknown[:5],
        "counts": run.counts,
        "labels": run.labels,
        "paths": reach[0],
        "queries": E.stats.queries,
        "solver_s": round(E.stats.solver_s, 3),
        "wall_s": round(time.time() - t0, 3),
        "functions": dict(E.entered),
        "covers": run.covers,
    }


def where(ex):
    tb = ex.__traceback__
    out = []
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if "/metrics_layer/" in f or "/pypika/" in f or "/contracts/" in f:
            out.append(f"{f.split('/')[-1]}:{tb.tb_lineno}")
        tb = tb.tb_next
    return " < ".join(reversed(out[-4:]))


def work(cid, tier, q):
    """worker: everything about one contract"""
    try:
        from . import api

        q.put((cid, decide(api.CONTRACTS[cid], tier)))
    except BaseException:
        q.put((cid, {"verdict": "error", "why": traceback.format_exc()[-3000:]}))


class Concrete:
    def __init__(self):
        e = dict(os.environ)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PYTHONPATH"] = env.VERIF
        self.p = subprocess.Popen(
            [PY, "-m", "pyvc.replay"], cwd=env.VERIF, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=e,
        )

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            return {"status": "error", "error": "replay process died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def missing(c):
    """declared functions that no longer exist under their name (renamed or inlined by an edit)"""
    import importlib
    import inspect

    out = []
    for f in c.functions:
        mod, _, qn = f.partition(":")
        try:
            o = importlib.import_module(mod)
            for part in qn.split("."):
                if isinstance(o, type) and part.startswith("__") and not part.endswith("__"):
                    part = f"_{o.__name__.lstrip('_')}{part}"
                o = inspect.getattr_static(o, part)
        except (ImportError, AttributeError):
            out.append(f)
    return out


def decide(c, tier):
    """verdicts: proved | violated | violated-noinput | bounded | gone | error"""
    gone = missing(c)
    if gone:
        return {"verdict": "gone", "contract": c.id, "doc": c.opts.get("doc"), "why": "not found: " + ", ".join(gone)}
    thorough = tier == "thorough"
    o = c.opts
    out = {"contract": c.id, "doc": o.get("doc", (c.fn.__doc__ or "").strip()), "declared": c.functions}
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conc = Concrete()
    try:
        kind = o.get("kind", "proof")
        main = None
        if kind == "exhaustive":
            from .findings import known_values

            rr = conc.ask({"contract": c.id, "exhaust": 1, "seconds": o.get("seconds", 300) * (3 if thorough else 1), "known": known_values(c.id)})
            out["random"] = rr
            if rr["status"] == "failed":
                out.update(verdict="violated", values=rr["values"], failed=rr["failed"], found_by="exhaustive execution")
            elif rr["status"] == "error" and rr.get("errors", 1) == rr.get("tried", 1):
                out.update(verdict="gone", why=rr.get("error"))
            else:
                out.update(verdict="bounded", known=rr.get("known"), why=("every case of the stated bound" if rr.get("complete") else "time ran out") + f": {rr.get('tried')} cases executed")
            return out
        if kind == "proof":
            main = explore(c, None, o.get("seconds", 300) * (3 if thorough else 1))
            out["main"] = main
        # CPython cross-check: the same contract, random inputs, untouched code
        n = o.get("samples", 200) * (10 if thorough else 1)
        rr = conc.ask({"contract": c.id, "random": n, "seed": seed, "seconds": 20 if not thorough else 120}) if n else None
        out["random"] = rr
        if rr and rr["status"] == "failed":
            out.update(verdict="violated", values=rr["values"], failed=rr["failed"], found_by="concrete execution")
            return out
        total = sum(main["counts"].values()) if main else 0
        clean = main and main["status"] == "done" and not main["failed"] and not main["unknown"] and total > 0
        if clean:
            out["verdict"] = "proved"
            return out
        # replay the verifier's own counter-models first
        cands = []
        if main:
            cands += main["failed"]
        b = None
        bmax = o.get("bound", 2) + (1 if thorough else 0)
        if kind != "concrete":
            tried = [replay(conc, c, v) for _, v in cands]
            hit = next((t for t in tried if t and t["status"] == "failed"), None)
            if hit:
                out.update(verdict="violated", values=hit["values"], failed=hit["failed"], found_by="counter-model")
                return out
            for bound in range(1, bmax + 1):
                b = explore(c, bound, o.get("bseconds", 100) * (3 if thorough else 1))
                b["bound"] = bound
                out["bounded"] = b
                for _, v in b["failed"]:
                    t = replay(conc, c, v)
                    if t and t["status"] == "failed":
                        out.update(verdict="violated", values=t["values"], failed=t["failed"], found_by=f"bounded counter-model (lists <= {bound})")
                        return out
                if b["status"] != "done" or b["failed"]:
                    break
        # directed random search
        rr2 = conc.ask({"contract": c.id, "random": o.get("samples", 200) * 50, "seed": seed + 1, "seconds": o.get("rseconds", 40)})
        out["random2"] = rr2
        if rr2["status"] == "failed":
            out.update(verdict="violated", values=rr2["values"], failed=rr2["failed"], found_by="concrete execution")
            return out
        hard = [f for f in (main["failed"] if main else []) if f[1].get("#hard")]
        bhard = [f for f in (b["failed"] if b else []) if f[1].get("#hard")]
        if (main and hard and main["status"] in ("done",)) or bhard:
            f = (hard or bhard)[0]
            out.update(verdict="violated-noinput", obligation=f[0], values=f[1])
            return out
        errs = [x for x in (main, b) if x and x["status"] == "error"]
        if rr and rr["status"] == "error" and rr["errors"] == rr["tried"]:
            out.update(verdict="gone", why=rr["error"])
            return out
        if errs and (not rr or rr.get("checks", 0) == 0):
            out.update(verdict="gone", why=errs[0]["why"])
            return out
        out["verdict"] = "bounded"
        out["why"] = (main and (main["why"] or (main["unknown"] and "unknown: " + str(main["unknown"][0])) or (main["failed"] and "unproved: " + main["failed"][0][0]) or "no obligations")) or "declared bounded"
        return out
    finally:
        conc.close()


def replay(conc, c, vals):
    v = {k: x for k, x in vals.items() if not k.startswith("#")}
    return conc.ask({"contract": c.id, "values": v})


def main(argv):
    prop = argv[0]
    only = argv[1:] or None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    env.setup(True)
    from . import api

    cs = env.load_contracts(prop)
    if only:
        cs = {k: c for k, c in cs.items() if c.name in only}
    if not cs:
        print("no contracts for", prop)
        return 2
    results = {}
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pending = sorted(cs, key=lambda k: -cs[k].opts.get("weight", 1))
    running = {}
    maxp = int(os.environ.get("PYVC_JOBS", "8"))
    while pending or running:
        while pending and len(running) < maxp:
            k = pending.pop(0)
            p = ctx.Process(target=work, args=(k, tier, q))
            p.start()
            running[k] = p
        try:
            k, r = q.get(timeout=5)
            results[k] = r
            running.pop(k).join()
        except Exception:
            for k, p in list(running.items()):
                if not p.is_alive() and p.exitcode not in (0, None):
                    results[k] = {"verdict": "error", "why": f"worker exit {p.exitcode}"}
                    running.pop(k)
    return report(prop, cs, results, tier, seed, t0)


def report(prop, cs, results, tier, seed, t0):
    from .findings import known_for

    viol = 0
    rc = 0
    os.makedirs(os.path.join(env.OUT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(env.OUT, "evidence"), exist_ok=True)
    tot = {"eval": 0, "z3": 0, "cvc5": 0}
    obligations = discharged = 0
    functions = {}
    solver_s = 0.0
    paths = queries = 0
    rows = []
    errors = []
    for k in sorted(results):
        r = results[k]
        v = r["verdict"]
        row = {"contract": k, "verdict": v, "states": r.get("doc")}
        m = r.get("main")
        if m:
            n = sum(m["counts"].values())
            bad = len(m["failed"]) + len(m["unknown"])
            row.update(paths=m["paths"], obligations=n + bad, discharged=m["counts"], solver_s=m["solver_s"], wall_s=m["wall_s"], queries=m["queries"])
            if v == "proved":
                obligations += n
                discharged += n
                for b in tot:
                    tot[b] += m["counts"][b]
                for f, cnt in m["functions"].items():
                    functions[f] = functions.get(f, 0) + cnt
            elif v.startswith("violated"):
                obligations += n + bad
                discharged += n
            solver_s += m["solver_s"]
            paths += m["paths"]
            queries += m["queries"]
        if r.get("random"):
            row["cpython_crosscheck"] = {x: r["random"].get(x) for x in ("tried", "checks", "distinct", "discarded", "covers")}
        if v == "bounded":
            row["why_not_proved"] = r.get("why")
            b = r.get("bounded")
            if b:
                row["bounded"] = {"list_length_bound": b["bound"], "paths": b["paths"], "obligations": sum(b["counts"].values()), "status": b["status"], "why": b["why"]}
            if r.get("random2"):
                row["random"] = {x: r["random2"].get(x) for x in ("tried", "checks", "distinct")}
        rows.append(row)
        if v in ("error", "gone"):
            errors.append((k, r.get("why")))
            row["error"] = r.get("why")
        if v.startswith("violated"):
            path = os.path.join(env.OUT, "replays", f"{k}.json")
            vals = {a: b for a, b in (r.get("values") or {}).items() if not a.startswith("#")}
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "contract": k,
                        "values": vals,
                        "failed": r.get("failed"),
                        "obligation": r.get("obligation") or (r.get("failed") or [[None]])[0][0],
                        "found_by": r.get("found_by", "verifier (no failing input found)"),
                        "verifier": m,
                        "replay_cmd": f"{PY} {env.VERIF}/replay.py {path}",
                    },
                    f, indent=1, default=repr,
                )
            kn = known_for(prop, k, vals, r)
            if kn:
                print(f"KNOWN-FINDING: property={prop} {kn}")
                row["verdict"] = "known-finding"
                continue
            viol += 1
            tail = " no-failing-input-found" if v == "violated-noinput" else ""
            print(f"# {k}: {r.get('obligation') or r.get('failed')}")
            print(f"VIOLATION property={prop} replay={path}{tail}")
            rc = 1
        for kr in r.get("known") or []:
            row["verdict"] = "known-finding"
            print(f"KNOWN-FINDING: property={prop} {known_for(prop, k, kr['values'], r)}")
    proved = [k for k in results if results[k]["verdict"] == "proved"]
    bounded = [k for k in results if results[k]["verdict"] == "bounded"]
    if rc == 0 and not proved and not bounded:
        rc = 2
    if rc == 0 and errors and len(errors) == len(results):
        rc = 2
    assumptions = sorted({a for c in cs.values() for a in c.opts.get("assumes", [])})
    assumptions += COMMON_ASSUMPTIONS
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof" if proved else "exploration",
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "discharged_by": tot,
            "checker_cmd": f"{PY} -m pyvc.runner {prop}",
            "trusted_base": TRUSTED,
            "contracts_proved": len(proved),
            "contracts_bounded": len(bounded),
            "contracts": rows,
            "functions_under_contract": sorted({f for c in cs.values() for f in c.functions}),
            "functions_executed_symbolically": dict(sorted(functions.items())),
            "paths": paths,
            "solver_queries": queries,
            "solver_s": round(solver_s, 2),
            "evaluations": sum((r.get("random") or {}).get("checks", 0) for r in results.values()),
            "distinct_nontrivial": sum((r.get("random") or {}).get("distinct", 0) for r in results.values()),
            "rule": "evaluations: contract checks executed on the untouched code with random inputs (CPython cross-check); distinct_nontrivial: distinct input assignments among them",
            "samples": [{"contract": r["contract"], "paths": r.get("paths"), "obligations": r.get("obligations")} for r in rows[:3]],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    with open(os.path.join(env.OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in sorted(results):
        r = results[k]
        m = r.get("main") or {}
        print(
            f"{k}: {r['verdict']} paths={m.get('paths')} obligations={m.get('counts')} t={m.get('wall_s')}"
            + (f" why={r.get('why')}" if r["verdict"] not in ("proved",) and r.get("why") else "")
        )
    print(f"{prop}: {discharged}/{obligations} obligations, {len(proved)} contracts proved, {len(bounded)} bounded, {len(errors)} errors, {time.time()-t0:.1f}s rc={rc}")
    return rc


TRUSTED = [
    "pyvc (the VC generator in /verif/pyvc: AST instrumentation, path exploration, loop summaries)",
    "CPython 3.12 as the semantics of everything that is concrete on a path",
    "z3 5.3.2 (z3-solver) and, as second back end, cvc5 1.4.2",
]
COMMON_ASSUMPTIONS = [
    "extraction: functools.lru_cache is a memo table per path (hash collisions excluded; calls with symbolic text among their arguments are recomputed); type annotations are dropped",
    "integers are mathematical, strings are sequences of unicode code points; str.lower/upper/title/strip of unknown text are uninterpreted functions",
    "termination of the verified functions is not proved",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
