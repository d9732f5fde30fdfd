"""python -m pyvc.check <property id>: verifies the contracts of one property."""
import importlib
import json
import multiprocessing
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

TRUST = [
    "CPython evaluating the instrumented code, and pyvc's symbolic values (cross-checked against the real code on "
    "the samples counted under engine_runs)",
    "z3 4.x/5.x and cvc5 verdicts",
    "py2compat, the build's own Python 2 reading of the sources",
]
ASSUME = [
    "machine floats are treated as real numbers (constants at their exact double value); rounding is not modelled "
    "in proved obligations, the concrete replays run on real floats",
    "sin cos exp log erf asin acos atan atan2 pow obey the axioms of pyvc/functions.py",
]


def _job(x):
    prop, i, tier, seed = x
    from pyvc import contract as C
    spec = importlib.import_module("specs." + prop)
    c = spec.CONTRACTS[i]
    try:
        return C.verify(c, tier, seed)
    except BaseException as ex:
        import traceback
        return dict(name=c.name, functions=c.functions, bounded=c.bounded, proved=False, obligations=0, discharged=0,
                    why="driver error: %r" % ex, trace=traceback.format_exc(limit=-6), paths=0, solver_s=0,
                    entered=[], callees={}, named={}, backends={}, wall_s=0, sampled=0)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def main(argv):
    prop = argv[0]
    only = argv[1:] or None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = importlib.import_module("specs." + prop)
    idx = [i for i, c in enumerate(spec.CONTRACTS) if not only or any(o in c.name for o in only)]
    order = sorted(idx, key=lambda i: -(spec.CONTRACTS[i].budget or 60))
    jobs = [(prop, i, tier, seed) for i in order]
    n = int(os.environ.get("PYVC_JOBS", "8"))
    ctx = multiprocessing.get_context("fork")
    limit = float(os.environ.get("PYVC_LIMIT", "720" if tier == "quick" else "3000"))
    results = {}
    pool = ctx.Pool(min(n, len(jobs)) or 1, maxtasksperchild=1)
    handles = {}
    try:
        for j in jobs:
            handles[j[1]] = pool.apply_async(_job, (j,))
        for j in jobs:
            left = max(1.0, limit - (time.time() - t0))
            try:
                results[j[1]] = handles[j[1]].get(left)
            except multiprocessing.TimeoutError:
                c = spec.CONTRACTS[j[1]]
                results[j[1]] = dict(name=c.name, functions=c.functions, bounded=c.bounded, proved=False,
                                     obligations=0, discharged=0, why="no answer within the time limit", paths=0,
                                     solver_s=0, entered=[], callees={}, named={}, backends={}, wall_s=0, sampled=0)
    finally:
        pool.terminate()
    res = [results[i] for i in idx]
    verbose = os.environ.get("PYVC_VERBOSE") or only
    code = report(prop, spec, res, tier, seed, t0, verbose, bool(only))
    return code


def report(prop, spec, res, tier, seed, t0, verbose, partial):
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    code = 0
    nviol = 0
    for r in res:
        kind = "proved" if r["proved"] and not r["bounded"] else (
            "bounded (%s)" % r["bounded"] if r["proved"] else "not proved")
        print("%-46s %-12s %d/%d obligations, %d paths, %s cases on the real code, %.1f s%s" % (
            r["name"], kind, r["discharged"], r["obligations"], r["paths"], r.get("sampled", 0), r["wall_s"],
            "" if r["proved"] else " -- %s" % (r.get("why") or r.get("failed_obligations"))))
        if r.get("remembers"):
            print("    leaves behind in its modules: %s%s" % (", ".join(r["remembers"])[:300], "; after an earlier call: %s" % (
                r["history"],) if r.get("history") else ""))
        if verbose and not r["proved"]:
            for k in ("why", "trace", "first_failure", "failed_obligations", "replay_errors"):
                if r.get(k):
                    print("    %s: %s" % (k, str(r[k])[:1500]))
        if verbose and r.get("engine_disagreements"):
            print("    engine/real disagreements: %s" % str(r["engine_disagreements"])[:500])
        v = r.get("violation")
        if v or r.get("unreplayed"):
            path = os.path.join(VERIF, "evidence", "replay", "%s_%s.json" % (
                prop, "".join(ch if ch.isalnum() else "_" for ch in r["name"])))
            with open(path, "w") as f:
                json.dump(dict(property=prop, contract=r["name"], functions=r["functions"], violation=v,
                               unreplayed=r.get("unreplayed"), first_failure=r.get("first_failure"),
                               how="PYTHONPATH=/verif; python -m pyvc.replay %s" % path), f, indent=1)
            nviol += 1
            code = 1
            if v:
                print("failed obligation: %s" % v["obligation"])
                print("failing input (%s): %s -> %s" % (v["how"], json.dumps(v["args"])[:600],
                                                         json.dumps(v["outcome"])[:300]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            else:
                print("failed obligation: %s" % r["unreplayed"][0])
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for k in load_known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    proved = [r for r in res if r["proved"] and not r["bounded"]]
    bounded = [r for r in res if r["proved"] and r["bounded"]]
    open_ = [r for r in res if not r["proved"]]
    back = {}
    for r in res:
        for b, c in r["backends"].items():
            back[b] = back.get(b, 0) + c
    # obligations of contracts proved without a bound are the ones counted as proof
    cov = dict(
        obligations=sum(r["obligations"] for r in proved),
        discharged=sum(r["discharged"] for r in proved),
        checker_cmd="./check %s (pyvc: contract-based symbolic execution of /repo's sources; back ends z3, cvc5)" % prop,
        trusted_base=TRUST,
        functions_under_contract=sorted({f for r in proved for f in r["functions"]}),
        functions_executed_symbolically=sorted({f for r in res for f in r["entered"]}),
        contracts=[dict(name=r["name"], functions=r["functions"], status=(
            "proved" if r["proved"] and not r["bounded"] else "bounded: %s" % r["bounded"] if r["proved"]
            else "open: decided on this run by the bounded concrete search only"),
            obligations=r["named"], paths=r["paths"], backends=r["backends"], solver_s=r["solver_s"],
            callee_contracts_used=r["callees"], sampled_on_real_code=r.get("sampled", 0),
            engine_runs=r.get("engine_runs", 0), engine_disagreements=len(r.get("engine_disagreements") or []),
            why_open=None if r["proved"] else (r.get("why") or r.get("failed_obligations")),
            module_state_changed=r.get("remembers") or [], after_an_earlier_call=r.get("history"),
            wall_s=r["wall_s"]) for r in res],
        backends=back,
        solver_s=round(sum(r["solver_s"] for r in res), 2),
        bounded_stand_ins=[dict(name=r["name"], bound=r["bounded"], obligations=r["obligations"],
                                discharged=r["discharged"]) for r in bounded],
        bounded_obligations=sum(r["obligations"] for r in bounded),
        not_proved=[r["name"] for r in open_],
        evaluations=sum(r.get("sampled", 0) or 0 for r in res),
        distinct_nontrivial=sum(r.get("distinct", 0) or 0 for r in res),
        rule="arguments drawn from the contract's parameter domains around the literals of the functions under "
             "contract, satisfying the precondition; distinct by their printed form",
        samples=[dict(contract=r["name"], args=(r.get("engine_disagreements") or [None])[0]) for r in res
                 if r.get("engine_disagreements")][:3],
    )
    # a property most of whose contracts are bounded is not called proved
    level = "proof" if cov["obligations"] and 2 * sum(1 for r in res if r["bounded"]) <= len(res) else "other"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + list(getattr(spec, "ASSUMPTIONS", [])) +
              sorted({a for c in spec.CONTRACTS for a in c.assumes}),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    if ev["level"] == "other":
        cov["explanation"] = "most contracts of this property are bounded: their obligations are discharged up to the bounds listed; obligations counts the unbounded ones"
    if not partial:
        with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d proved, %d bounded, %d open; %d/%d obligations; %.1f s" % (
        prop, len(res), len(proved), len(bounded), len(open_), sum(r["discharged"] for r in res),
        sum(r["obligations"] for r in res), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
