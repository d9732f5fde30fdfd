"""Contracts, their verification, and what happens when an obligation fails."""
import copy
import json
import math
import os
import random
import signal
import sys
import time
import traceback

import z3

from . import core, facade, instr, values
from .core import Control, PathEnd, Unsupported, OutOfTime, Engine
from .values import NS, Raised, eq


class Contract(object):
    """A contract on functions of /repo.

    params: name -> descriptor of the values quantified over
    call(W, a): runs the real code in world W on a, returns a plain result
    pre(a): precondition
    spec(a): the required result (or Raised(...)); or
    post(a, r): condition, or list of (name, condition)
    use: module.function -> Contract: callees seen through their contract
    loops: loop site -> LoopSpec
    bounded: None, or the stated bound when the contract only covers a bound
    """

    def __init__(self, name, params, call, functions, spec=None, post=None, pre=None, use=None, loops=None,
                 bounded=None, raises=None, tol=None, budget=None, samples=None, setup=None, max_paths=20000,
                 feas_ms=400, prove_ms=None, note=None, search_s=None, exactness=True, assumes=(), guard=None, diff=True, aim=None):
        self.name, self.params, self.call, self.functions = name, params, call, functions
        self.spec, self.post, self.pre = spec, post, pre
        self.use, self.loops, self.bounded, self.raises, self.tol = use or {}, loops or {}, bounded, raises, tol
        self.budget, self.samples, self.setup, self.max_paths = budget, samples, setup, max_paths
        self.feas_ms, self.prove_ms, self.note, self.search_s = feas_ms, prove_ms, note, search_s
        self.exactness, self.assumes = exactness, assumes
        self.guard = guard
        self.diff = diff
        self.isolate = False    # every run starts from modules as they were loaded
        self.aim = aim          # aim(arguments, rng): moves drawn arguments to where they decide

    # ---- one execution
    def outcome(self, W, a):
        try:
            return self.call(W, a)
        except Control:
            raise
        except RecursionError:
            if W.symbolic:
                raise Unsupported("recursion")
            return Raised("RecursionError")
        except Exception as ex:
            r = Raised(type(ex).__name__)
            r.text = "%s" % (ex,)
            r.trace = traceback.format_exc(limit=-3)
            return r

    def conditions(self, a, r):
        """[(name, condition)] on the outcome r for arguments a."""
        if isinstance(r, Raised) and self.raises is not None:
            return [("raises only when allowed", self.raises(a, r))]
        if self.spec is not None:
            want = self.spec(a)
            if isinstance(r, Raised) and not isinstance(want, Raised):
                return [("no exception", False)]
            return [("result as specified", eq(r, want, self.tol))]
        if isinstance(r, Raised):
            return [("no exception", False)]
        c = self.post(a, r)
        return c if isinstance(c, list) else [("postcondition", c)]

    # ---- as a callee
    def stub(self, qual):
        names = list(self.params)
        contract = self

        def called(*args, **kw):
            E = core.engine()
            d = dict(zip(names, args))
            d.update(kw)
            for n in names:
                if n not in d:
                    d[n] = contract.params[n].default if hasattr(contract.params[n], "default") else None
            a = NS(**d)
            E.callees[qual] = E.callees.get(qual, 0) + 1
            if contract.pre is not None:
                E.prove(contract.pre(a), "precondition of %s at its call" % qual)
            if contract.spec is not None:
                r = contract.spec(a)
                if isinstance(r, Raised):
                    raise getattr(__import__("builtins"), r.name)("as specified")
                return r
            r = contract.result(E, a)
            E.approx = True
            for n, c in contract.conditions(a, r):
                E.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
            return r
        return called


def world(contract):
    W = facade.World(loops=contract.loops)
    for qual in contract.use:
        W.replace(qual, contract.use[qual].stub(qual))
    if contract.setup:
        contract.setup(W)
    W.refresh()
    return W


def explore(contract, E, args=None):
    """All paths of the contract, on symbols or (pinned) on given arguments."""
    W = world(contract)

    def one():
        if contract.isolate:
            for f in W.fresh.values():
                f.restore()
        if args is None:
            a = NS(**{k: d.sym(E, k) for k, d in contract.params.items()})
        else:
            a = values.pin(args)
        E.args = a
        if contract.pre is not None:
            p = contract.pre(a)
            E.assume(p if not isinstance(p, bool) else z3.BoolVal(p))
            if not E.feasible():
                raise PathEnd()
        E.reached = getattr(E, "reached", 0) + 1
        b = copy.deepcopy(a)
        n0 = len(E.obligations)
        r = contract.outcome(W, b)
        if contract.raises is None and contract.spec is None and isinstance(r, Raised):
            E.prove(False, "%s: no exception" % contract.name, detail=getattr(r, "text", r.name) + "\n" +
                    getattr(r, "trace", ""))
            return
        for n, c in contract.conditions(a, r):
            d = None
            if isinstance(r, Raised):
                d = "%s: %s" % (r.name, getattr(r, "text", "")) + "\n" + getattr(r, "trace", "")
            E.prove(c, "%s: %s" % (contract.name, n), detail=d)
    try:
        E.explore(one)
    finally:
        E.remembers = sorted(k for f in W.fresh.values() for k in f.changed())
    return E


class History(Contract):
    """The contract for a call that follows an earlier one, with other arguments, in the same process."""

    def __init__(self, base):
        self.__dict__.update(base.__dict__)
        self.base = base
        self.name = base.name + " (after an earlier call)"
        self.params = {"%s_%s" % (w, k): d for w in ("first", "then") for k, d in base.params.items()}
        self.pre = self.precondition if base.pre is not None else None
        self.guard = None if base.guard is None else lambda a: base.guard(self.part(a, "first")) and base.guard(self.part(a, "then"))
        self.bounded = "one earlier call"
        self.isolate = True
        self.aim = self.bring
        self.diff = False
        self.spec = self.post = None
        self.budget = max(60, base.budget or 60)

    def part(self, a, w):
        return NS(**{k: getattr(a, "%s_%s" % (w, k)) for k in self.base.params})

    def precondition(self, a):
        p = [self.base.pre(self.part(a, w)) for w in ("first", "then")]
        if any(isinstance(x, (core.SBool, z3.ExprRef)) for x in p):
            return z3.And(*[x if isinstance(x, z3.ExprRef) else core.boolexpr(x) for x in p])
        return all(bool(x) for x in p)

    def bring(self, a, rng):
        for w in ("first", "then"):
            p = self.part(a, w)
            if w == "then":
                for k in self.base.params:
                    if rng.random() < 0.3:
                        setattr(p, k, copy.deepcopy(getattr(a, "first_" + k)))
            if self.base.aim is not None:
                self.base.aim(p, rng)
            for k in self.base.params:
                setattr(a, "%s_%s" % (w, k), getattr(p, k))

    def outcome(self, W, a):
        self.base.outcome(W, self.part(a, "first"))
        return self.base.outcome(W, self.part(a, "then"))

    def conditions(self, a, r):
        return self.base.conditions(self.part(a, "then"), r)


# --------------------------------------------------------- concrete runs

class Alarm(BaseException):
    pass


def _alarm(sig, frame):
    raise Alarm()


def with_alarm(secs, f):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs, 0.5)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


REAL = facade.RealWorld()


def run_real(contract, a, secs=10):
    """(outcome, failed conditions) of the real code on concrete arguments."""
    core.set_engine(None)
    if contract.isolate:
        for f in REAL.fresh.values():
            if f is not None:
                f.restore()
    import warnings
    devnull = open(os.devnull, "w")
    out = sys.stdout
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sys.stdout = devnull
            try:
                r = with_alarm(secs, lambda: contract.outcome(REAL, copy.deepcopy(a)))
            except Alarm:
                r = Raised("Timeout")
                r.text = "no result within %g s" % secs
            bad = [n for n, c in contract.conditions(a, r) if not bool(c)]
    finally:
        sys.stdout = out
        devnull.close()
    return r, bad


def exact_verdict(contract, a, secs=20):
    """'holds', 'fails' or None: the contract on a in exact arithmetic."""
    E = Engine(deadline=time.time() + secs, stop_on_fail=1)
    E.exact = True
    c2 = copy.copy(contract)
    c2.use, c2.loops = {}, {}
    try:
        with_alarm(secs + 5, lambda: explore(c2, E, args=a))
    except (Control, Alarm):
        return None
    except Exception:
        return None
    finally:
        core.set_engine(None)
    if not E.obligations:
        return None
    if any(o.status == "refuted" for o in E.obligations):
        return "fails"
    if all(o.status == "discharged" for o in E.obligations):
        return "holds"
    return None


def violates(contract, a):
    """(outcome, failed conditions) when the real code breaks the contract on a."""
    if contract.pre is not None and not bool(contract.pre(a)):
        return None
    if contract.guard is not None and not contract.guard(a):
        return None
    r, bad = run_real(contract, a)
    if not bad:
        return None
    if isinstance(r, Raised) and r.name == "Timeout":
        r2, bad2 = run_real(contract, a, 40)
        if not bad2:
            return None
        return r2, bad2
    if contract.exactness and exact_verdict(contract, a) == "holds":
        return None      # a rounding artefact: real arithmetic satisfies the contract
    return r, bad


def pool_of(contract, entered):
    names = set(f.split(".")[-1] for f in contract.functions) | set(n.split(".")[-1] for n in entered)
    out = set()
    mods = set(f.split(".")[0] for f in contract.functions) | set(n.split(".")[0] for n in entered)
    for m in mods:
        p = os.path.join(instr.REPO, m + ".py")
        if os.path.exists(p):
            out |= instr.constants(p, names)
    return sorted(out)


def draw(contract, rng, pool):
    for _ in range(200):
        a = NS(**{k: d.rand(rng, pool) for k, d in contract.params.items()})
        try:
            if contract.aim is not None:
                contract.aim(a, rng)
            if contract.pre is None or bool(contract.pre(a)):
                return a
        except Exception:
            pass
    return None


def mix(base, a, rng, p):
    """a with parts taken over from base"""
    if isinstance(base, dict) and isinstance(a, dict):
        return {k: mix(base[k], a[k], rng, p) if k in base and k in a else (base if k in base else a)[k]
                for k in (set(base) | set(a)) if k in a or rng.random() < p}
    return base if rng.random() < p else a


def near(contract, base, rng, pool):
    """arguments that share some of their values with base, which satisfy the precondition"""
    for _ in range(20):
        a = draw(contract, rng, pool)
        if a is None:
            return None
        a = NS(**mix(base.__dict__, a.__dict__, rng, rng.choice([0.2, 0.5, 0.8])))
        try:
            if contract.aim is not None:
                contract.aim(a, rng)
            if contract.pre is None or bool(contract.pre(a)):
                return a
        except Exception:
            pass
    return None


def search(contract, rng, pool, secs, limit=10 ** 9, bases=()):
    """Random cases against the contract on the real code: (violation, cases, distinct)."""
    t = time.time()
    n = 0
    seen = set()
    while time.time() - t < secs and n < limit:
        a = near(contract, rng.choice(bases), rng, pool) if bases and n % 2 else draw(contract, rng, pool)
        if a is None:
            if bases and n % 2:
                n += 1
                continue
            break
        n += 1
        seen.add(repr(a))
        v = violates(contract, a)
        if v is not None:
            return (a, v), n, len(seen)
    return None, n, len(seen)


def engine_check(contract, rng, pool, count):
    """The instrumented code on constants against the real code: (runs, disagreements)."""
    runs, bad = 0, []
    for _ in range(count):
        a = draw(contract, rng, pool)
        if a is None:
            break
        r, _x = run_real(contract, a)
        E = Engine(deadline=time.time() + 10)
        E.exact = True
        got = []
        c2 = copy.copy(contract)
        c2.use, c2.loops = {}, {}
        W = world(c2)

        def one():
            E.args = values.pin(a)
            got.append((contract.outcome(W, copy.deepcopy(E.args)), E))
        try:
            with_alarm(12, lambda: E.explore(one))
        except (Control, Alarm):
            continue
        finally:
            core.set_engine(None)
        runs += 1
        if len(got) != 1 or not same(got[0][0], r):
            bad.append({"args": jsonable(a), "real": jsonable(r), "engine": jsonable(got[0][0]) if got else None})
    return runs, bad


def same(x, y):
    s = z3.Solver()
    s.check()
    m = s.model()
    try:
        x = values.concretize(x, m)
    except Exception:
        return False
    return bool(eq(x, y, 1e-7))


def jsonable(x):
    if isinstance(x, NS):
        return {k: jsonable(v) for k, v in x.__dict__.items()}
    if isinstance(x, Raised):
        return "raised %s %s" % (x.name, getattr(x, "text", ""))
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if hasattr(x, "tolist"):
        return jsonable(x.tolist())
    return repr(x)


# ------------------------------------------------------------ one contract

def verify(contract, tier="quick", seed=1):
    """Result record of one contract."""
    res = attempt(contract, tier, seed)
    if res["remembers"] and not contract.isolate:
        # the call leaves something behind in its module: prove it from fresh modules, and after another call
        c2 = copy.copy(contract)
        c2.isolate = True
        said = res["remembers"]
        res = attempt(c2, tier, seed)
        res["remembers"] = said
        if "violation" not in res:
            h = attempt(History(contract), tier, seed)
            res["history"] = {k: h.get(k) for k in ("proved", "obligations", "discharged", "why", "sampled", "failed_obligations", "wall_s")}
            if "violation" in h:
                res["violation"] = h["violation"]
                res["proved"] = False
            res["wall_s"] = round(res["wall_s"] + h["wall_s"], 2)
    return res


def attempt(contract, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    budget = (contract.budget or 60) * 4 if thorough else min(contract.budget or 60, 540)
    E = Engine(deadline=time.time() + budget, feas_ms=contract.feas_ms,
               prove_ms=(contract.prove_ms or 8000) * (3 if thorough else 1),
               cvc5_ms=8000 * (3 if thorough else 1), max_paths=contract.max_paths * (4 if thorough else 1))
    E.stop_on_fail = 3
    E.reached = 0
    E.remembers = []
    res = dict(name=contract.name, functions=contract.functions, bounded=contract.bounded, note=contract.note)
    why = None
    try:
        with_alarm(budget + 60, lambda: explore(contract, E))
    except OutOfTime:
        why = "out of time after %d s" % budget
    except Alarm:
        why = "solver did not return in time"
    except Unsupported as ex:
        why = "not encodable: %s" % ex
    except facade.InvariantUnbound as ex:
        why = "loop invariant names unknown local %s" % ex
    except PathEnd:
        why = "path end outside a path"
    except z3.Z3Exception as ex:
        why = "solver error: %s" % ex
    except Exception as ex:
        why = "encoder error: %r" % ex
        res["trace"] = traceback.format_exc(limit=-4)
    finally:
        core.set_engine(None)
    obs = E.obligations
    ndis = sum(o.status == "discharged" for o in obs)
    byname, backends = {}, {}
    for o in obs:
        d = byname.setdefault(o.name, [0, 0])
        d[0] += 1
        d[1] += o.status == "discharged"
        if o.status == "discharged":
            backends[o.backend] = backends.get(o.backend, 0) + 1
    failed = [o for o in obs if o.status != "discharged"]
    if why is None and E.reached == 0:
        why = "vacuous: no argument satisfies the precondition"
    proved = why is None and not failed and len(obs) > 0
    res.update(paths=E.paths, obligations=len(obs), discharged=ndis, named=byname, backends=backends,
               solver_s=round(E.solver_s, 2), entered=sorted(E.entered), callees=dict(E.callees), why=why,
               proved=proved, approx=any(o.approx for o in obs), notes=E.notes[:3])
    rng = random.Random("%s/%s" % (seed, contract.name))
    pool = pool_of(contract, E.entered)
    violation = None
    tried = 0
    refuted = [o for o in failed if o.status == "refuted"]
    replayed = 0
    for o in refuted:
        if o.args is None:
            continue
        try:
            v = violates(contract, o.args)
        except Exception as ex:
            res.setdefault("replay_errors", []).append(repr(ex))
            continue
        replayed += 1
        if v is not None:
            violation = dict(obligation=o.name, args=o.args, outcome=v[0], failed=v[1], how="solver model replayed")
            break
    if violation is None:
        secs = contract.search_s or (3.0 if proved else 25.0)
        if not proved:
            secs = max(secs, 20.0)
        if thorough:
            secs *= 8
        hit, n, dist = search(contract, rng, pool, secs, limit=(contract.samples or 300) * (20 if thorough else 1)
                              if proved else 10 ** 9, bases=[o.args for o in refuted if o.args is not None][:5])
        res.update(sampled=n, distinct=dist)
        if hit is not None:
            a, (r, bad) = hit
            violation = dict(obligation=(failed[0].name if failed else "%s: %s" % (contract.name, bad[0])), args=a,
                             outcome=r, failed=bad, how="search for a failing input on the real code")
        k = (10 if proved else 6) if contract.diff else 0
        try:
            runs, dis = engine_check(contract, rng, pool, k)
            res.update(engine_runs=runs, engine_disagreements=dis)
        except Exception as ex:
            res.update(engine_runs=0, engine_disagreements=[], engine_error=repr(ex))
    res["replayed"] = replayed
    res["remembers"] = sorted(set(E.remembers) | {k for f in REAL.fresh.values() if f is not None for k in f.changed()})
    if violation is not None:
        res["violation"] = dict(obligation=violation["obligation"], args=jsonable(violation["args"]),
                                pyargs=repr(violation["args"]),
                                outcome=jsonable(violation["outcome"]), failed=violation["failed"],
                                how=violation["how"])
    elif not proved:
        main = [o for o in refuted if not o.aux]
        # a definite countermodel of a main obligation, with nothing approximated,
        # that could not even be replayed
        hard = [o for o in main if o.args is None and not o.approx and not contract.bounded]
        res["unreplayed"] = [o.name for o in hard]
        res["failed_obligations"] = sorted({"%s [%s]%s" % (o.name, o.status, " (aux)" if o.aux else "")
                                            for o in failed})
        if failed:
            o = failed[0]
            res["first_failure"] = dict(name=o.name, status=o.status, detail=o.detail,
                                        args=jsonable(o.args) if o.status == "refuted" and o.args is not None else None)
    res["wall_s"] = round(time.time() - t0, 2)
    return res
