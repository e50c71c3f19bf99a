"""Runs harness bodies symbolically, confirms counterexamples on plain Python numbers, writes evidence."""
import json
import math
import multiprocessing
import os
import sys
import time
import traceback
import z3
import symx
from symx import SFloat, SInt, SReal, SBool, STATS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# conditions over symbols or plain values
def z(c):
    return c.e if isinstance(c, SBool) else z3.BoolVal(bool(c)) if not z3.is_expr(c) else c


def AND(*cs):
    return all(cs) if not any(z3.is_expr(c) for c in cs) else z3.And(*[z(c) for c in cs])


def OR(*cs):
    return any(cs) if not any(z3.is_expr(c) for c in cs) else z3.Or(*[z(c) for c in cs])


def NOT(c):
    return z3.Not(c) if z3.is_expr(c) else not c


def IMP(a, b):
    return OR(NOT(a), b)


class SymCtx:
    sym = True

    def __init__(self, run, viol):
        self.run = run
        self.viol = viol
        self.reached = {}

    def float64(self, n): return self.run.float64(n)
    def int(self, n): return self.run.int(n)
    def bool(self, n): return self.run.bool(n)
    def real(self, n): return self.run.real(n)
    def choose(self, n, k): return self.run.choose(n, k)
    def assume(self, c): self.run.assume(z(c))

    def model(self, m):
        out = {}
        for n, v in self.run.vars.items():
            if z3.is_fp(v):
                out[n] = symx.fp_value(m, v)
            elif z3.is_int(v):
                out[n] = m.eval(v, model_completion=True).as_long()
            elif z3.is_bool(v):
                out[n] = z3.is_true(m.eval(v, model_completion=True))
            else:
                out[n] = symx.real_value(m, v)
        return out

    def check(self, label, c):
        STATS.checks += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        c = z(c)
        rest = [g for g in (c.children() if z3.is_and(c) else [c])
                if not (z3.is_eq(g) and z3.is_real(g.arg(0)) and symx.identically_equal(g.arg(0), g.arg(1), self.run))]
        c = z3.simplify(z3.And(*rest)) if rest else z3.BoolVal(True)
        if z3.is_true(c):
            STATS.trivial += 1
            return
        r, m = symx.query(self.run.pc + [z3.Not(c)])
        if r == z3.sat:
            self.viol.append((label, self.model(m)))
        elif r == z3.unknown:
            STATS.unknown += 1


class ConcCtx:
    sym = False

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.ok = True

    def float64(self, n): return float(self.values.get(n, 0.5))
    def int(self, n): return int(self.values.get(n, 1))
    def bool(self, n): return bool(self.values.get(n, False))
    def real(self, n): return float(self.values.get(n, 0.0))
    def choose(self, n, k): return int(self.values.get(n, 0))

    def assume(self, c):
        if not c:
            self.ok = False

    def check(self, label, c):
        if not c:
            self.failed.append(label)


STATS.trivial = 0
STATS.unknown = 0


def run_case(h, case, out):
    """explore one case of a harness"""
    rec = out["harnesses"].setdefault(h["name"], {
        "harness": h["name"], "about": h["about"], "bounds": h["bounds"], "paths": 0, "decisions": 0,
        "forced_decisions": 0, "cases": 0, "path_witnesses_replayed_ok": 0, "unconfirmed": [], "unsupported": [], "reached": {}})
    rec["cases"] += 1
    seen = set()

    def body(run):
        viol = []
        ctx = SymCtx(run, viol)
        err = None
        try:
            h["body"](ctx, case)
        except symx.Unsupported as e:
            err = str(e)
        except Exception as e:   # the harness could not follow the code
            err = "%s: %s" % (type(e).__name__, e)
            if os.environ.get("PYSYM_TRACE"):
                traceback.print_exc()
        return ctx, viol, err
    for run, (ctx, viol, err) in symx.explore(body):
        rec["paths"] += 1
        rec["decisions"] += len(run.taken)
        rec["forced_decisions"] += run.forced
        for k, v in ctx.reached.items():
            rec["reached"][k] = rec["reached"].get(k, 0) + v
        if err:
            rec["unsupported"].append(err[:200])
        # a witness of the path, on plain numbers
        if rec["paths"] % h.get("witness_every", 1) == 0:
            r, m = symx.query(run.pc)
            if r == z3.sat:
                vals = ctx.model(m)
                failed = concrete(h, case, vals)
                if not failed:
                    rec["path_witnesses_replayed_ok"] += 1
                elif failed is not SKIP:
                    viol = viol + [(f, vals) for f in failed]
                if len(out["samples"]) < 2:
                    out["samples"].append({"harness": h["name"], "case": case, "path_decisions": len(run.taken), "values": jsonable(vals)})
        for label, vals in viol:
            if (label,) in seen:
                continue
            failed = concrete(h, case, vals)
            if failed is SKIP or label not in failed:
                # another label failing on the real code is reported as itself
                if failed is not SKIP and failed:
                    label = failed[0]
                else:
                    rec["unconfirmed"].append({"label": label, "case": case, "values": jsonable(vals)})
                    continue
            seen.add((label,))
            out["violations"].append({"harness": h["name"], "case": case, "label": label, "values": jsonable(vals)})


SKIP = object()


def concrete(h, case, vals):
    """labels that fail on plain numbers"""
    c = ConcCtx(vals)
    saved = symx.CUR
    symx.CUR = None
    try:
        h["body"](c, case)
    except Exception:
        if os.environ.get("PYSYM_TRACE"):
            traceback.print_exc()
        return c.failed or SKIP
    finally:
        symx.CUR = saved
    return SKIP if not c.ok else c.failed


def jsonable(vals):
    return {k: (repr(v) if isinstance(v, float) and not math.isfinite(v) else v) for k, v in vals.items()}


def one(h, case):
    for k in ("queries", "unsat", "time", "paths", "decisions", "checks", "trivial", "unknown"):
        setattr(STATS, k, 0)
    out = {"harnesses": {}, "samples": [], "violations": []}
    run_case(h, case, out)
    out["stats"] = dict(STATS.__dict__)
    return out


def pool_map(h, cases):
    global JOB
    JOB = (h, cases)
    with multiprocessing.get_context("fork").Pool(min(8, len(cases))) as p:
        return p.map(job, range(len(cases)), 1)


def job(i):
    return one(JOB[0], JOB[1][i])


def merge(out, part):
    for k, v in part["stats"].items():
        TOTAL[k] = TOTAL.get(k, 0) + v
    for n, r in part["harnesses"].items():
        q = out["harnesses"].get(n)
        if q is None:
            out["harnesses"][n] = r
            continue
        for k, v in r.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    q[k][a] = q[k].get(a, 0) + b
            elif isinstance(v, (int, list)):
                q[k] = q[k] + v
    known = {(v["harness"], v["label"]) for v in out["violations"]}
    for v in part["violations"]:
        if (v["harness"], v["label"]) not in known:
            known.add((v["harness"], v["label"]))
            out["violations"].append(v)
    if part["samples"] and len(out["samples"]) < 12:
        out["samples"] += part["samples"][-1:]


TOTAL = {}


def main(prop, harnesses, argv):
    tier = "thorough" if "--thorough" in argv else "quick"
    only = argv[argv.index("--only") + 1] if "--only" in argv else ""
    evid = argv[argv.index("--evidence") + 1] if "--evidence" in argv else os.path.join(VERIF, "evidence", prop + ".json")
    t0 = time.time()
    out = {"harnesses": {}, "samples": [], "violations": []}
    funcs = []
    for h in harnesses:
        if only not in h["name"] or (h.get("deep") and tier == "quick"):
            continue
        funcs += [f for f in h["funcs"] if f not in funcs]
        t = time.time()
        q0, s0 = TOTAL.get('queries', 0), TOTAL.get('time', 0)
        for part in pool_map(h, list(h["cases"](tier))):
            merge(out, part)
        r = out["harnesses"].get(h["name"])
        if r:
            r["wall_s"] = round(time.time() - t, 2)
            r["queries"] = TOTAL['queries'] - q0
            r["solver_s"] = round(TOTAL['time'] - s0, 2)
    for k, v in TOTAL.items():
        setattr(STATS, k, v)
    hs = list(out["harnesses"].values())
    wall = round(time.time() - t0, 2)
    for i, v in enumerate(out["violations"]):
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, v["harness"], i))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        v["property"] = prop
        json.dump(v, open(path, "w"), indent=1)
        print("  %s / %s: %s" % (v["harness"], v["label"], json.dumps(v["case"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    unsup = sum(len(r["unsupported"]) for r in hs)
    unconf = sum(len(r["unconfirmed"]) for r in hs)
    for r in hs:
        for u in r["unsupported"][:3]:
            print("INCONCLUSIVE %s: %s" % (r["harness"], u))
        for u in r["unconfirmed"][:3]:
            print("UNCONFIRMED %s: %s" % (r["harness"], json.dumps(u)))
        r["unsupported"] = r["unsupported"][:5]
        r["unconfirmed"] = r["unconfirmed"][:5]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": STATS.paths, "transitions": STATS.decisions,
            "traces_validated_against_impl": sum(r["path_witnesses_replayed_ok"] for r in hs),
            "samples": out["samples"], "exhaustive": False,
            "functions_encoded": funcs, "harnesses": hs,
            "obligations": STATS.checks, "obligations_discharged_by_normal_form": STATS.trivial, "obligations_unknown": STATS.unknown,
            "paths_not_followed": unsup, "counterexamples_not_confirmed": unconf,
            "rule": "states = feasible paths of the real Python code on symbolic arguments; transitions = symbolic branch decisions; every obligation on a path is decided by z3 for all values of the variables",
            "solver": {"engine": "z3 " + z3.get_version_string(), "queries": STATS.queries, "unsat": STATS.unsat, "seconds": round(STATS.time, 3)},
        },
        "assumptions": [
            "the compiled module is replaced by a stand-in with the constructor parameters read from python/src/*.rs and pyo3's argument types; what the native classes do with them is P17",
            "array entries flow through numpy and scikit-learn's validation as tags (numbers standing for one symbol each)",
        ],
        "wall_s": wall, "violations": len(out["violations"]),
    }
    json.dump(ev, open(evid, "w"), indent=1)
    if out["violations"]:
        return 1
    print("OK property=%s paths=%d queries=%d wall=%ss" % (prop, STATS.paths, STATS.queries, wall))
    return 0


def replay(path, harnesses):
    v = json.load(open(path))
    h = [h for h in harnesses if h["name"] == v["harness"]][0]
    failed = concrete(h, v["case"], {k: (float(x) if isinstance(x, str) else x) for k, x in v["values"].items()})
    print("replay of", v["label"], "on plain numbers: failed", failed if failed is not SKIP else "(not applicable)")
    return 1 if failed is not SKIP and v["label"] in failed else 0
