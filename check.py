#!/opt/venv/bin/python
"""Decides one property by deterministic simulation: seeded search over
schedules and fault sequences.

  check.py PROP [--tier quick|thorough]     search (VERIF_SEED, VERIF_TIER)
  check.py PROP --replay FILE [--trace]     re-execute a recorded violation

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the
check itself failed.
"""

import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IPP_DST_REPO", "/repo")
PY = sys.executable
WALL = {"quick": 35.0, "thorough": 900.0}
WORKERS = 8


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("IPP_", "JUPYTER_", "IPYTHON"))}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
             IPP_DISABLE_JS="1", PYTHONPATH=f"{HERE}:{REPO}", IPP_DST_REPO=REPO)
    return e


# ---------------------------------------------------------------------------
# worker side
# ---------------------------------------------------------------------------


def worker(argv):
    """worker.py PROP mode json-args ; writes JSON lines on the original stdout"""
    out = os.fdopen(os.dup(1), "w", buffering=1)
    prop, args = argv[0], json.loads(argv[1])

    def emit(**kw):
        out.write(json.dumps(kw, default=str) + "\n")
        out.flush()

    code = 0
    try:
        code = _worker(prop, args, emit) or 0
    except BaseException as e:  # noqa
        import traceback

        emit(k="fatal", err=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-3000:])
        code = 3
    finally:
        try:
            from dst import world

            if world._scratch:
                import shutil

                shutil.rmtree(world._scratch, ignore_errors=True)
        except Exception:
            pass
    out.flush()
    os._exit(code)


def _worker(prop, a, emit):
    from dst import core, harness

    mod = harness.load(prop)
    harness.warm(mod, prop)
    mode = a["mode"]
    t_end = core.real_monotonic() + a.get("budget", 1e9)
    if mode == "search":
        i = a["first"]
        n = 0
        emit(k="ready")
        seen = set()
        while core.real_monotonic() < t_end and n < a.get("max_runs", 1 << 60):
            seed = a["base"] + i
            plan = harness.make_plan(mod, prop, seed)
            t0 = core.real_perf_counter()
            emit(k="begin", seed=seed)
            try:
                r = harness.execute(mod, prop, plan, seed, wall_limit=a["wall_limit"])
            except harness.Wedged:
                emit(k="wedged", seed=seed)
                os._exit(4)
            except Exception as e:
                import traceback

                emit(k="harness", seed=seed, err=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-1500:])
                i += a["stride"]
                n += 1
                continue
            new = [h for h in r.states if h not in seen]
            seen.update(new)
            emit(k="run", seed=seed, sig=r.sig, text=(r.text or "")[:3000], abort=r.abort,
                 digest=r.digest, steps=r.steps, sim=r.sim_time, stats=r.stats, order=r.order,
                 nt=bool(r.nontrivial), st=new[:20000], wall=core.real_perf_counter() - t0,
                 probes=r.probes, errs=len(r.errors))
            i += a["stride"]
            n += 1
        emit(k="end", runs=n)
        return 0
    if mode == "minimise":
        seed = a["seed"]
        if a.get("prior"):
            for s in a["prior"]:
                harness.execute(mod, prop, harness.make_plan(mod, prop, s), s)
        plan = harness.make_plan(mod, prop, seed)
        best, r, tried = harness.minimise(mod, prop, plan, seed, a["sig"], budget=a.get("shrink", 40.0))
        if r is None:
            emit(k="min", ok=False, tried=tried)
            return 0
        # the trace of the minimised run
        emit(k="min", ok=True, plan=best, streams=r.streams, sig=r.sig, text=r.text, digest=r.digest,
             tried=tried)
        return 0
    if mode == "replay":
        f = a["file"]
        for s in f.get("prior", ()):
            harness.execute(mod, prop, harness.make_plan(mod, prop, s), s)
        try:
            r = harness.execute(mod, prop, f["plan"], f["seed"], streams=f.get("streams"), trace=True,
                                wall_limit=a.get("wall_limit", 120))
        except harness.Wedged:
            emit(k="replayed", sig="wedged", text="the run stopped making progress (busy loop)", digest=None)
            os._exit(0)
        tr = r.trace if a.get("trace") else []
        h = []
        for x in (r.hist or [])[:4000]:
            h.append({k: v for k, v in x.items() if k not in ("spec", "exc", "ars")})
        emit(k="replayed", sig=r.sig, text=r.text, digest=r.digest, trace=tr[-20000:], hist=h,
             logs=[list(x) for x in r.logs[:300]] if a.get("trace") else [])
        return 0
    if mode == "digests":
        out = []
        for s in a["seeds"]:
            r = harness.execute(mod, prop, harness.make_plan(mod, prop, s), s, wall_limit=120)
            out.append([s, r.digest, r.sig])
        emit(k="digests", d=out)
        return 0
    raise ValueError(mode)


# ---------------------------------------------------------------------------
# parent side
# ---------------------------------------------------------------------------


def spawn(prop, args, extra_env=None, hashseed=0):
    e = env()
    # the iteration order of sets is one more source of nondeterminism: fixed
    # per worker, recorded with every violation
    e["PYTHONHASHSEED"] = str(hashseed)
    if extra_env:
        e.update(extra_env)
    return subprocess.Popen([PY, os.path.join(HERE, "check.py"), "--worker", prop, json.dumps(args)],
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                            env=e, cwd="/tmp", start_new_session=True)


def collect(p, timeout):
    """all JSON lines of a finished worker"""
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
    return [json.loads(x) for x in out.decode().splitlines() if x.startswith("{")]


def kill(p):
    import signal

    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def known_findings(prop):
    """entries 'finding: property=<id> sig=<signature> <text>' of known_findings.txt"""
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("finding:"):
                w = line.split(None, 3)
                if w[1] == f"property={prop}":
                    out.append((w[2].split("=", 1)[1], w[3] if len(w) > 3 else ""))
    return out


def clean_scratch():
    """scratch directories left behind by killed workers of this check"""
    import glob
    import shutil

    for base in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
        for d in glob.glob(os.path.join(base, f"ipp-dst-{os.getpid()}-*")):
            shutil.rmtree(d, ignore_errors=True)


def replay_cmd(prop, path, trace):
    f = json.load(open(path))
    p = spawn(prop, {"mode": "replay", "file": f, "trace": trace}, {"IPP_DST_PARENT": str(os.getpid())},
              f.get("hashseed", 0))
    recs = collect(p, 600)
    r = next((x for x in recs if x["k"] == "replayed"), None)
    clean_scratch()
    if r is None:
        print("replay failed:", recs[-1:] or "no output")
        return 2
    for line in r.get("trace", ()):
        print(line)
    for h in r.get("hist", ()):
        print("hist", json.dumps(h, default=str)[:400])
    same = r["sig"] == f["sig"] and r["digest"] == f["digest"]
    print(f"replayed: sig={r['sig']} digest={r['digest']} text={r['text']}")
    print("identical to the recorded execution" if same else f"DIFFERS from recorded sig={f['sig']} digest={f['digest']}")
    if r["sig"] is not None:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def search(prop, tier, seed0, wall):
    from dst import registry

    spec = registry.PROPS[prop]
    t0 = time.monotonic()
    base = (seed0 % 1_000_000) * 1_000_000
    known = known_findings(prop)
    xenv = {"IPP_DST_PARENT": str(os.getpid())}
    import selectors

    sel = selectors.DefaultSelector()
    live = {}
    agg = {
        "runs": 0, "sim": 0.0, "steps": 0, "stats": {}, "digests": set(), "orders": set(), "nt": 0,
        "states": set(), "harness": [], "wedged": [], "aborts": {}, "probes": {}, "samples": [],
        "known": {}, "fatal": [], "orders_nt": set(), "errs": 0, "nt_seen": set(),
    }
    deadline = t0 + wall
    viol = None
    first_digest = {}

    def start(first, budget):
        p = spawn(prop, {"mode": "search", "base": base, "first": first, "stride": WORKERS,
                         "budget": budget, "wall_limit": spec.get("wall_limit", 40),
                         "max_runs": 3000}, xenv, first % WORKERS)
        os.set_blocking(p.stdout.fileno(), False)
        live[p] = {"buf": b"", "next": first, "first": first, "ran": [], "cur": None, "t": time.monotonic()}
        sel.register(p.stdout, selectors.EVENT_READ, p)

    for w in range(WORKERS):
        start(w, wall)

    def handle(p, st, rec):
        nonlocal viol
        k = rec["k"]
        st["t"] = time.monotonic()
        if k == "begin":
            st["cur"] = rec["seed"]
            st["next"] = rec["seed"] - base + WORKERS
        elif k == "run":
            agg["runs"] += 1
            agg["sim"] += rec["sim"]
            agg["steps"] += rec["steps"]
            agg["errs"] += rec["errs"]
            for a, b in rec["stats"].items():
                agg["stats"][a] = agg["stats"].get(a, 0) + b
            for a, b in rec["probes"].items():
                agg["probes"][a] = agg["probes"].get(a, 0) + b
            agg["digests"].add(rec["digest"])
            agg["orders"].add(rec["order"])
            agg["states"].update(rec["st"])
            if rec["nt"]:
                agg["nt_seen"].add(rec["order"])
            if rec["abort"]:
                a = rec["abort"][:60]
                agg["aborts"][a] = agg["aborts"].get(a, 0) + 1
            if len(agg["samples"]) < 4:
                agg["samples"].append({"seed": rec["seed"], "steps": rec["steps"],
                                       "sim_s": round(rec["sim"], 3), "digest": rec["digest"],
                                       "faults": {x[6:]: y for x, y in rec["stats"].items()
                                                  if x.startswith("fault:")}})
                first_digest[rec["seed"]] = rec["digest"]
            if rec["sig"]:
                hit = next((kf for kf in known if rec["sig"] == kf[0]), None)
                if hit:
                    agg["known"].setdefault(hit, []).append(rec["seed"])
                elif viol is None:
                    viol = dict(rec, prior=list(st["ran"]), hashseed=st["first"] % WORKERS)
            st["ran"].append(rec["seed"])
            st["cur"] = None
        elif k == "harness":
            agg["harness"].append(rec)
            st["ran"].append(rec["seed"])
        elif k == "wedged":
            agg["wedged"].append(rec["seed"])
        elif k == "fatal":
            agg["fatal"].append(rec)

    while live and viol is None:
        now = time.monotonic()
        if now > deadline + 5:
            # budget over: unfinished runs are dropped (not counted)
            break
        for key, _ in sel.select(timeout=0.5):
            p = key.data
            st = live[p]
            try:
                data = os.read(p.stdout.fileno(), 1 << 20)
            except BlockingIOError:
                continue
            if not data:
                sel.unregister(p.stdout)
                p.wait()
                live.pop(p)
                left = deadline - time.monotonic()
                # recycled (max_runs) or wedged/crashed worker: carry on
                if left > 3 and viol is None and len(agg["fatal"]) < 4 and len(agg["wedged"]) < 4:
                    start(st["next"], left)
                continue
            st["buf"] += data
            *lines, st["buf"] = st["buf"].split(b"\n")
            for ln in lines:
                if ln.startswith(b"{"):
                    handle(p, st, json.loads(ln))
    for p in live:
        kill(p)
    for p in live:
        p.wait()
    t_search = time.monotonic() - t0

    # a run that burns its whole wall budget: does it do so again, alone?
    wedge_confirmed = []
    if viol is None and agg["wedged"]:
        for s in agg["wedged"][:2]:
            p = spawn(prop, {"mode": "replay", "file": {"plan": make_plan(prop, s), "seed": s},
                             "wall_limit": 90}, xenv, s % WORKERS)
            r = next((x for x in collect(p, 150) if x["k"] == "replayed"), None)
            if r and r["sig"] == "wedged":
                wedge_confirmed.append(s)
                if spec.get("live"):
                    viol = {"seed": s, "sig": "wedged", "text": r["text"], "prior": [], "digest": None,
                            "hashseed": s % WORKERS}
                    break
    code = 0
    path = None
    if viol is not None:
        path, ok = report(prop, viol, xenv)
        if ok:
            code = 1
            print(f"violation: {viol['sig']}: {viol['text'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        else:
            print(f"check error: seed {viol['seed']} sig {viol['sig']} did not reproduce in a fresh process")
            code = 2
    # determinism: the first runs again, in a fresh interpreter
    det = None
    if code == 0 and first_digest:
        hs = min(first_digest) % WORKERS
        seeds = [s for s in sorted(first_digest) if s % WORKERS == hs]
        p = spawn(prop, {"mode": "digests", "seeds": seeds}, xenv, hs)
        recs = collect(p, 200)
        d = next((x["d"] for x in recs if x["k"] == "digests"), None)
        det = d is not None and all(first_digest[s] == g for s, g, _ in d)
        if not det:
            # (recorded in the evidence; violations are always verified by replay)
            print(f"warning: execution not deterministic: {first_digest} vs {d or recs[-1:]}")
    if code == 0:
        if agg["fatal"] or agg["runs"] == 0 or wedge_confirmed:
            print("check error:", (agg["fatal"] or ["no run completed"])[0], "wedged:", wedge_confirmed)
            code = 2
        elif len(agg["harness"]) > 0.05 * agg["runs"] + 1:
            print("check error:", agg["harness"][0]["err"], agg["harness"][0]["tb"])
            code = 2
        elif agg["runs"] >= 50 and not agg["nt_seen"]:
            print("check error: no run exercised the property")
            code = 2
    for (sig, text), seeds in sorted(agg["known"].items()):
        print(f"KNOWN-FINDING: property={prop} {sig}: {text} (seeds {seeds[:3]}, {len(seeds)} runs)")
    for sig, text in known:
        if (sig, text) not in agg["known"]:
            print(f"KNOWN-FINDING: property={prop} {sig}: {text} (not met in this run)")
    clean_scratch()
    evidence(prop, tier, seed0, agg, t_search, time.monotonic() - t0, 1 if code == 1 else 0, det, spec)
    print(f"{prop} {tier}: {agg['runs']} runs, {agg['sim']:.0f} simulated s, {len(agg['orders'])} orders, "
          f"{len(agg['harness'])} harness errors, {t_search:.0f} s; exit {code}", flush=True)
    return code


def make_plan(prop, seed):
    """a plan, made in a subprocess-free way (generators import nothing heavy)"""
    import importlib
    import random

    from dst import registry

    mod = importlib.import_module("dst." + registry.PROPS[prop]["scn"])
    plan = mod.gen(random.Random(f"plan:{prop}:{seed}"), prop)
    plan["scn"] = registry.PROPS[prop]["scn"]
    return plan


def report(prop, viol, xenv):
    """minimise, write and verify the replay file"""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{viol['seed']}.json")
    f = {"property": prop, "seed": viol["seed"], "sig": viol["sig"], "text": viol["text"],
         "hashseed": viol["hashseed"]}
    hs = viol["hashseed"]
    if viol["sig"] == "wedged":
        f.update(plan=make_plan(prop, viol["seed"]), digest=None)
        json.dump(f, open(path, "w"), indent=1)
        return path, True
    for prior in ([], viol["prior"]):
        if prior is viol["prior"] and not prior:
            break
        p = spawn(prop, {"mode": "minimise", "seed": viol["seed"], "sig": viol["sig"], "prior": prior,
                         "shrink": 40.0 if not prior else 1.0}, xenv, hs)
        recs = collect(p, 150 + 3 * len(prior))
        m = next((x for x in recs if x["k"] == "min"), None)
        if m is None or not m["ok"]:
            continue
        f.update(plan=m["plan"], streams=m["streams"], digest=m["digest"], text=m["text"], prior=prior,
                 tried=m["tried"])
        # replay in a fresh process
        p = spawn(prop, {"mode": "replay", "file": f}, xenv, hs)
        r = next((x for x in collect(p, 200 + 3 * len(prior)) if x["k"] == "replayed"), None)
        if r and r["sig"] == f["sig"] and r["digest"] == f["digest"]:
            f["history"] = r["hist"]
            json.dump(f, open(path, "w"), indent=1)
            return path, True
        # minimised form depends on what ran before it: keep the original run
        p = spawn(prop, {"mode": "replay", "file": {"plan": make_plan(prop, viol["seed"]),
                                                    "seed": viol["seed"], "prior": prior}}, xenv, hs)
        r = next((x for x in collect(p, 200 + 3 * len(prior)) if x["k"] == "replayed"), None)
        if r and r["sig"]:
            f.update(plan=make_plan(prop, viol["seed"]), sig=r["sig"], digest=r["digest"], prior=prior,
                     text=r["text"], history=r["hist"])
            f.pop("streams", None)
            json.dump(f, open(path, "w"), indent=1)
            return path, True
    return path, False


def evidence(prop, tier, seed0, agg, t_search, wall, nviol, det, spec):
    st = agg["stats"]
    hours = max(t_search, 1e-3) / 3600
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nt_seen"]),
        "rule": "one evaluation = one complete simulated execution, decided by one seed (plan, schedule, "
                "latencies, faults); non-trivial: " + spec.get("nontrivial", "the workload the property is "
                "about actually executed") + "; distinct: the sequence of message deliveries (link by link, "
                "without times) differs",
        "samples": agg["samples"] or [{"note": "no run completed"}],
        "runs_per_hour": int(agg["runs"] / hours),
        "seeds_per_hour": int(agg["runs"] / hours),
        "simulated_seconds": round(agg["sim"], 1),
        "scheduling_steps": agg["steps"],
        "distinct_executions": len(agg["digests"]),
        "distinct_delivery_orders": len(agg["orders"]),
        "distinct_delivery_4grams": len(agg["states"]),
        "faults_injected": faults,
        "other_counters": {k: v for k, v in sorted(st.items()) if not k.startswith("fault:")},
        "probes": agg["probes"],
        "aborted_runs": agg["aborts"],
        "harness_errors": len(agg["harness"]),
        "uncaught_exceptions_in_simulated_threads": agg["errs"],
        "determinism_recheck": {"fresh interpreter": det},
        "known_findings_met": {k[0]: len(v) for k, v in agg["known"].items()},
        "real_components": spec.get("real", REAL),
        "stub_components": spec.get("stub", STUB),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration", "coverage": cov,
        "assumptions": spec.get("assumptions", ASSUME), "wall_s": round(wall, 2), "violations": nviol,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)


REAL = [
    "ipyparallel.controller: IPController, Hub, HeartMonitor, TaskScheduler, broadcast schedulers, databases",
    "ipyparallel.engine: IPEngine, IPythonParallelKernel (message handling, apply, abort, control)",
    "ipyparallel.client: Client, views, AsyncResult, futures, maps, executors",
    "ipyparallel.serialize, jupyter_client.session (signing, packing), pyzmq ZMQStream, tornado, asyncio, "
    "concurrent.futures, threading (on simulated locks), ipykernel.kernelbase",
]
STUB = [
    "libzmq: in-memory transport with ROUTER/DEALER/PUB/SUB/PAIR/REQ/REP semantics and device threads",
    "OS threads' scheduling, processes, clocks, entropy, asyncio selector: the simulation kernel",
    "IPython InteractiveShell: exec() of code with captured output",
]
ASSUME = [
    "the transport never loses, duplicates or reorders messages on a live connection (as TCP/ZeroMQ); "
    "loss happens by process death and disconnection, delay and stalls are unbounded",
    "threads interleave at lock operations, I/O, sleeps and (where enabled) client source lines, "
    "not between arbitrary bytecodes of all code",
    "a seeded sample of executions, not all of them",
]


def main(argv):
    if argv and argv[0] == "--worker":
        return worker(argv[1:])
    sys.path.insert(0, HERE)
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    o = ap.parse_args(argv)
    tier = o.tier if o.tier in WALL else "quick"
    if o.replay:
        return replay_cmd(o.prop, o.replay, o.trace)
    try:
        seed0 = int(o.seed)
    except ValueError:
        import hashlib

        seed0 = int(hashlib.sha256(o.seed.encode()).hexdigest()[:6], 16)
    from dst import registry

    wall = o.wall or registry.PROPS[o.prop].get("wall", WALL).get(tier, WALL[tier])
    return search(o.prop, tier, seed0, wall)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
