"""Runs one simulated execution of a property's scenario, and minimises
failing ones."""

import importlib
import random
import signal

from . import core, world

# property -> (scenario module, liveness property: a run that stops making
# progress is itself a violation)
from .registry import PROPS


class Wedged(BaseException):
    pass


def load(prop):
    world.install()
    mod = importlib.import_module("dst." + PROPS[prop]["scn"])
    return mod


def warm(mod, prop):
    """Executions that only fill the interpreter's caches (lazy imports take
    locks, which would otherwise make a worker's first run differ)."""
    for s in (-1, -2, -3):
        try:
            plan = make_plan(mod, prop, s)
            if s == -1:
                # no preemption inside an import
                plan["profile"] = {"sched_p": 0.0, "lock_p": 0.0, "lat": "lan"}
                plan["engines"] = plan.get("engines", [])[:1]
            execute(mod, prop, plan, s)
        except Exception:
            pass


def make_plan(mod, prop, seed):
    rng = random.Random(f"plan:{prop}:{seed}")
    plan = mod.gen(rng, prop)
    plan["scn"] = PROPS[prop]["scn"]
    return plan


class Result:
    __slots__ = ("sig", "text", "digest", "streams", "stats", "sim_time", "steps", "abort",
                 "errors", "trace", "states", "nontrivial", "logs", "hist", "order", "probes")


def _alarm(*a):
    raise Wedged()


def execute(mod, prop, plan, seed, streams=None, trace=False, wall_limit=60):
    """One execution.  Returns a Result (sig None when the property held)."""
    from .common import Bad

    res = Result()
    sim = core.Sim(seed, streams=streams, profile=plan.get("profile"),
                   max_steps=plan.get("max_steps", 300_000), max_time=plan.get("max_time", 5000.0))
    sim.trace_on = trace
    res.sig = res.text = res.abort = None
    res.hist = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, wall_limit)
    run = None
    try:
        try:
            run = mod.start(sim, plan, prop)
        except core.SimAbort as e:
            res.abort = f"{type(e).__name__}: {e}"[:400]
            run = sim.ctx.get("run")
            if PROPS[prop].get("live"):
                res.sig = "no-progress:" + type(e).__name__
                res.text = res.abort
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if run is not None and res.abort is None:
        try:
            mod.judge(run, prop)
        except Bad as b:
            res.sig, res.text = b.sig, b.text
    res.digest = sim.digest()
    res.streams = sim.choices.streams
    res.stats = sim.stats
    res.sim_time = sim.now
    res.steps = sim.steps
    res.errors = sim.errors
    res.trace = sim.trace
    res.logs = sim.logs
    w = sim.ctx.get("world")
    res.hist = getattr(w, "hist", None)
    res.nontrivial = sim.ctx.get("nontrivial", True)
    res.states = sim.cov
    res.order = sim.order
    res.probes = sim.ctx.get("probes", {})
    return res


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------


def minimise(mod, prop, plan, seed, sig, budget=45.0):
    """Shrink plan (ops, faults, engines, disturbance) keeping the signature."""
    import copy

    t0 = core.real_perf_counter()
    tried = 0

    def left():
        return core.real_perf_counter() - t0 < budget

    def attempt(p):
        nonlocal tried
        tried += 1
        try:
            r = execute(mod, prop, p, seed)
        except Wedged:
            raise
        except BaseException:
            return None
        return r if r.sig == sig else None

    best = plan
    best_r = attempt(plan)
    if best_r is None:
        return plan, None, tried

    def try_plan(p):
        nonlocal best, best_r
        r = attempt(p)
        if r is not None:
            best, best_r = p, r
            return True
        return False

    changed = True
    while changed and left():
        changed = False
        # calm the environment
        for k, v in (("lat", "fast"), ("lock_p", 0.0), ("line_p", 0.0), ("sched_p", 0.0)):
            if best["profile"].get(k, 0.0) not in (v, None) and left():
                p = copy.deepcopy(best)
                p["profile"][k] = v
                changed |= try_plan(p)
        # lists of things: faults, ops, engines
        for path in _lists(best):
            i = 0
            n = len(_get(best, path))
            size = max(1, n // 2)
            while size >= 1 and left():
                i = 0
                while i < len(_get(best, path)) and left():
                    p = copy.deepcopy(best)
                    lst = _get(p, path)
                    del lst[i:i + size]
                    if try_plan(p):
                        changed = True
                    else:
                        i += size
                size //= 2
    # zero the remaining scheduling choices in blocks (replay mode)
    streams = {k: list(v) for k, v in best_r.streams.items()}

    def replays(st):
        nonlocal tried
        tried += 1
        try:
            r = execute(mod, prop, best, seed, streams=st)
        except Wedged:
            raise
        except BaseException:
            return None
        return r if r.sig == sig else None

    if replays(streams) is None:
        return best, best_r, tried
    for kind in list(streams):
        v = streams[kind]
        size = max(1, len(v) // 2)
        while size >= 1 and left():
            i = 0
            while i < len(v) and left():
                if any(v[i:i + size]):
                    st = dict(streams)
                    nv = list(v)
                    nv[i:i + size] = [0] * len(nv[i:i + size])
                    st[kind] = nv
                    r = replays(st)
                    if r is not None:
                        streams, v, best_r = st, nv, r
                i += size
            size //= 4 if size > 8 else 2
    return best, best_r, tried


def _lists(plan):
    out = []
    if plan.get("faults"):
        out.append(("faults",))
    for i in range(len(plan.get("clients", []))):
        out.append(("clients", i, "ops"))
    for k in plan.get("shrink", []):
        out.append(tuple(k))
    return out


def _get(p, path):
    for k in path:
        p = p[k]
    return p
