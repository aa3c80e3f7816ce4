"""Control requests (C10) and waiting for engines (C09)."""

from collections import defaultdict

from . import common, core
from .common import Bad
from .scn_client import CV, Gen, is_work, values

MIX10 = {"dapply": 4, "task": 3, "clear": 4, "ns": 6, "abort": 3, "shutdown": 2, "sleep": 3, "get": 1}


# ---------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------
def gen(rng, prop):
    return gen09(rng) if prop == "C09" else gen10(rng)


def gen09(rng):
    plan = common.base_plan(rng)
    plan["profile"]["line_p"] = rng.choice([0.0, 0.0, 0.002, 0.01, 0.04])
    n_eng = rng.choice([0, 0, 1, 2])
    n_more = rng.choice([1, 2, 2, 3, 4])
    n_cl = rng.choice([1, 1, 2])
    T = rng.choice([0.3, 1.0, 3.0, 8.0])
    plan["engines"] = [{"delay": 0} for _ in range(n_eng)]
    plan["settle"] = False
    total = n_eng + n_more
    faults = [{"kind": "start_engine", "at": round(rng.uniform(0, T), 3)} for _ in range(n_more)]
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append({"kind": "kill_engine", "eng": rng.randrange(total), "at": round(rng.uniform(0.5, T + 3), 3)})
            faults.append({"kind": "start_engine", "at": round(rng.uniform(0, T + 3), 3)})
    other = common.gen_faults(rng, max(n_eng, 1), n_cl, deaths=False)
    faults += [f for f in other if f["kind"] not in ("clock", "start_engine")]
    plan["faults"] = faults
    plan["clients"] = []
    for c in range(n_cl):
        threads = []
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.4:
                    ops.append({"op": "sleep", "d": rng.choice([0.01, 0.1, 0.5, 2.0])})
                ops.append({"op": "call", "fn": "wfe", "n": rng.randint(1, total), "timeout": rng.choice(
                    [-1, -1, -1, 0, 0.05, 0.5, 2.0, 6.0]), "block": rng.random() < 0.6})
                if not ops[-1]["block"] and rng.random() < 0.3:
                    ops[-1]["abandon"] = rng.choice([0, 0.1, 1.0])
            threads.append(ops)
        plan["clients"].append({"ops": [{"op": "call", "fn": "threads", "threads": threads}], "wait_engines": 0,
                                "delay": rng.choice([0, 0.3, 1.0])})
    plan["recover_early"] = total
    plan["quiesce"] = 5
    plan["tail"] = 2.0
    plan["max_prog"] = 120.0
    plan["taps"] = []
    return plan


def gen10(rng):
    plan = common.base_plan(rng)
    plan["profile"]["line_p"] = rng.choice([0.0, 0.0, 0.002, 0.01, 0.04])
    n_eng = rng.choice([1, 2, 2, 3, 4])
    n_cl = rng.choice([1, 1, 2])
    plan["engines"] = [{"delay": 0} for _ in range(n_eng)]
    durs = rng.choice([[0.0, 0.01], [0.05, 0.2], [0.0, 0.3, 1.0]])
    kinds = list(MIX10)
    weights = [MIX10[k] for k in kinds]
    g = Gen(rng, "C07", 0, n_eng, durs)
    for _ in range(rng.randint(4, 14)):
        k = rng.choices(kinds, weights)[0]
        if k == "ns":
            op = {"op": "call", "fn": "ns", "targets": ctargets(rng, n_eng), "name": f"v{rng.randrange(3)}",
                  "do": rng.choice(["push", "push", "pull", "pull", "exec"]), "val": len(g.ops)}
            g.ops.append(op)
        elif k == "clear":
            g.ops.append({"op": "call", "fn": "ctl", "what": "clear", "targets": ctargets(rng, n_eng, True),
                          "block": rng.random() < 0.8})
        elif k == "abort":
            lb = [o["tag"] for o in g.ops if o.get("tag")]
            g.ops.append({"op": "call", "fn": "ctl", "what": "abort", "targets": ctargets(rng, n_eng, True),
                          "labels": rng.sample(lb, min(len(lb), rng.randint(0, 3))), "block": rng.random() < 0.7})
        elif k == "shutdown":
            if rng.random() < 0.4:
                g.ops.append({"op": "call", "fn": "ctl", "what": "shutdown", "targets": ctargets(rng, n_eng),
                              "block": rng.random() < 0.6})
        else:
            g.add(k)
    ops = g.ops
    if rng.random() < 0.3:
        ops.append({"op": "call", "fn": "ctl", "what": "shutdown", "targets": "all", "block": rng.random() < 0.5,
                    "hub": rng.random() < 0.7})
    # (the connection is settled first: a notification sent meanwhile is lost, finding of E02)
    ops.insert(0, {"op": "sleep", "d": 0.6})
    plan["clients"] = [{"ops": ops, "wait_engines": n_eng}]
    if n_cl == 2:
        g = Gen(rng, "C07", 1, n_eng, durs)
        for _ in range(rng.randint(2, 8)):
            g.add(rng.choice(["dapply", "task", "sleep", "get"]))
        plan["clients"].append({"ops": [dict(o, timeout=5.0) if "timeout" in o else o for o in g.ops],
                                "wait_engines": n_eng})
    faults = common.gen_faults(rng, n_eng, n_cl, deaths=rng.random() < 0.5)
    plan["faults"] = [f for f in faults if f["kind"] != "clock"]
    plan["recover_early"] = 1
    plan["wait_unreg"] = True
    plan["quiesce"] = 60
    plan["tail"] = 1.0
    plan["max_prog"] = 300.0
    plan["taps"] = []
    return plan


def ctargets(rng, n, none=False):
    x = rng.random()
    if x < 0.2 and none:
        return None
    if x < 0.4:
        return "all"
    return sorted(rng.sample(range(n), rng.randint(1, n)))


# ---------------------------------------------------------------------------
# operations
# ---------------------------------------------------------------------------
def c_threads(a, op, rec):
    ts = []
    for k, ops in enumerate(op["threads"]):
        def go(k=k, ops=ops):
            for j, o in enumerate(ops):
                a.do(100 * (k + 1) + j, o)

        ts.append(a.world.spawn_user(a.proc, go, name=f"user{k}"))
    while not all(t.dead for t in ts):
        a.sim.sleep(0.05)


def c_wfe(a, op, rec):
    s = a.sim
    t0 = s.now
    out = {"n": op["n"], "timeout": op["timeout"], "t0": t0, "i0": rec["i"]}
    # (known even if the call never returns)
    rec["wfe"] = out
    try:
        if op["block"]:
            out["r"] = a.rc.wait_for_engines(op["n"], timeout=op["timeout"], interactive=False)
        else:
            f = a.rc.wait_for_engines(op["n"], timeout=op["timeout"], block=False, interactive=False)
            out["dt_call"] = s.now - t0
            f.add_done_callback(lambda f: out.setdefault("t1", s.now))
            if op.get("abandon") is not None:
                s.sleep(op["abandon"])
                out["abandoned"] = f.cancel()
                if out["abandoned"]:
                    return out
            out["r"] = f.result()
        out["what"] = "ok"
    except core.SimKilled:
        raise
    except Exception as e:
        out["what"] = type(e).__name__
        out["msg"] = str(e)[:200]
    out.setdefault("t1", s.now)
    return out


def _targets(a, t):
    """(targets to pass, uuids meant) -- None when there is nobody to ask"""
    if t is None or t == "all":
        return t, list(dict(a.rc._engines).values())
    ids = a.eids(t)
    if not ids:
        return (), []
    eng = dict(a.rc._engines)
    return ids, [eng.get(i) for i in ids]


def c_ctl(a, op, rec):
    rc, s = a.rc, a.sim
    t, uuids = _targets(a, op["targets"])
    if t == ():
        rec["skip"] = True
        return None
    out = {"op": op, "t0": s.now, "uuids": uuids, "i0": rec["i"], "closed": rc._closed}
    rec["ctl"] = out
    fut = None
    try:
        if op["what"] == "clear":
            fut = rc.clear(targets=t, block=op["block"])
        elif op["what"] == "abort":
            jobs = [a.ars[x] for x in op["labels"] if x in a.ars]
            out["ids"] = [m for j in jobs for m in j.msg_ids]
            fut = rc.abort(jobs, targets=t, block=op["block"])
        else:
            kw = {"hub": True} if op.get("hub") else {}
            a.world.h("shut", uuids=uuids, all=op["targets"] == "all", hub=bool(op.get("hub")))
            rc.shutdown(targets=t, block=op["block"], **kw)
        out["what"] = "ok"
    except core.SimKilled:
        raise
    except Exception as e:
        out["what"] = getattr(e, "ename", None) or type(e).__name__
        out["msg"] = str(e)[:300]
    out["t1"] = s.now
    a.h("ctl_end", n=rec["n"])
    if fut is not None and hasattr(fut, "add_done_callback"):
        out["future"] = None

        def done(f):
            out["future"] = s.now
            try:
                out["replies"] = [m["content"].get("ename") or m["content"]["status"] for m in f.result()]
            except Exception as e:
                out["replies"] = f"{type(e).__name__}: {e}"

        fut.add_done_callback(done)
    return out


def c_ns(a, op, rec):
    """a namespace operation on each engine in turn, waiting for it"""
    rc, s = a.rc, a.sim
    t, uuids = _targets(a, op["targets"])
    if t == ():
        rec["skip"] = True
        return None
    eng = {u: i for i, u in dict(rc._engines).items()}
    out = {"op": op, "res": []}
    for u in uuids:
        if u not in eng:
            continue
        one = {"uuid": u, "i0": len(a.world.hist), "t0": s.now}
        out["res"].append(one)
        try:
            v = rc.direct_view(eng[u])
            v.block = False
            if op["do"] == "push":
                ar = v.push({op["name"]: op["val"]})
            elif op["do"] == "exec":
                ar = v.execute(f"{op['name']} = {op['val']}", silent=True)
            else:
                ar = v.pull(op["name"])
            x = ar.get(60)
            one["v"] = x if op["do"] == "pull" else True
        except core.SimKilled:
            raise
        except Exception as e:
            one["err"] = getattr(e, "ename", None) or type(e).__name__
        one["t1"] = s.now
        one["i1"] = len(a.world.hist)
    return out


CALLS = {"threads": c_threads, "wfe": c_wfe, "ctl": c_ctl, "ns": c_ns}


def _cnote_tap(run):
    import json

    from . import world

    w = run.world
    port = str(w.client_info["notification"])

    def tap(pipe, frames):
        if pipe.link.addr.rsplit(":", 1)[-1] != port or pipe.dst is pipe.link.bound:
            return
        p = pipe.dst._proc.name
        if not p.startswith("client"):
            return
        try:
            i = frames.index(world.DELIM)
            header = json.loads(frames[i + 2])
            content = json.loads(frames[i + 5])
        except Exception:
            return
        kind = {"registration_notification": "reg", "unregistration_notification": "unreg"}.get(header["msg_type"])
        if kind:
            w.h("cnote", c=int(p[6:]), what=kind, uuid=content["uuid"], eid=content.get("id"))

    return tap


def start(sim, plan, prop):
    from .actors import Run

    run = Run(sim, plan)
    run.calls.update(CALLS)

    def on_world(run):
        run.world.net.taps.append(_cnote_tap(run))

    run.calls["on_world"] = on_world
    run.calls["final"] = final
    sim.ctx["run"] = run
    sim.run(run.main)
    return run


def final(run):
    w = run.world
    end = run.sim.now + 60

    def pending():
        seen = {h["uuid"] for h in w.hist if h["k"] == "reg"} - {h["uuid"] for h in w.hist if h["k"] == "unreg"}
        return any(not e.alive and e.uuid in seen for e in w.engines if e.app is not None)

    if run.plan.get("wait_unreg"):
        run.sim.sleep(1)
        while run.sim.now < end and w.controller_proc.alive and pending():
            run.sim.sleep(0.2)
        run.sim.sleep(1)
    run.end = run.sim.now
    if any(h["k"] == "shut" and h["hub"] for h in run.world.hist):
        # time for everything to stop
        end = run.sim.now + 60
        w = run.world
        while run.sim.now < end and (w.controller_proc.alive or any(e.alive for e in w.engines)):
            run.sim.sleep(0.1)
        run.controller_alive = w.controller_proc.alive
    else:
        end = run.sim.now + 30
        while run.sim.now < end and any(e.alive and e.uuid in _shut(run) for e in run.world.engines):
            run.sim.sleep(0.1)
        run.controller_alive = run.world.controller_proc.alive
    run.engines_alive = {e.uuid for e in run.world.engines if e.alive and e.app is not None}
    run.end2 = run.sim.now


def _shut(run):
    return {u for h in run.world.hist if h["k"] == "shut" for u in h["uuids"]}


# ---------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------
def judge(run, prop):
    cv = CV(run)
    if prop == "C09":
        check_C09(cv)
    else:
        run.sim.ctx["nontrivial"] = sum(1 for h in run.world.hist if h["k"] == "ctl_end") >= 2
        check_C10(cv)


def check_C09(cv):
    run = cv.run
    hist = cv.w.hist
    ups = {h["c"]: h for h in hist if h["k"] == "client_up"}
    calls = [(h["c"], h["wfe"]) for h in hist if h["k"] == "op" and "wfe" in h]
    run.sim.ctx["nontrivial"] = sum(1 for c, o in calls if o.get("t1", 1e9) > o["t0"] + 0.01) >= 1
    for c, o in calls:
        up = ups[c]
        slack = 0.3 + (0.5 if cv.plan["profile"].get("line_p") else 0.0)
        t0, t1 = o["t0"], o.get("t1", run.end)
        tol = slack + cv.slack(t0 - 1, t1)
        # what the client can know, as steps (time, number of engines)
        ids = set(up["ids"])
        steps = [(up["t"], len(ids))]
        unregs = []
        for h in hist:
            if h["k"] == "cnote" and h["c"] == c and h["t"] >= up["t"] - 0.5:
                if h["what"] == "reg":
                    if h["t"] < up["t"] and h["eid"] not in ids and h["i"] < up["i"]:
                        # not handled yet, or already gone again
                        pass
                    ids.add(h["eid"])
                else:
                    ids.discard(h["eid"])
                    unregs.append(h["t"])
                steps.append((max(h["t"], up["t"]), len(ids)))
        n = o["n"]
        who = f"wait_for_engines({n}, timeout={o['timeout']}) at {t0:.3f} in client {c}"

        def most(a, b):
            return max([k for i, (t, k) in enumerate(steps) if t <= b and (i + 1 == len(steps) or steps[i + 1][0] >= a)],
                       default=0)

        def least(a, b):
            return min([k for i, (t, k) in enumerate(steps) if t <= b and (i + 1 == len(steps) or steps[i + 1][0] >= a)],
                       default=0)

        if "t1" not in o:
            if least(run.end - 3 - tol, run.end) >= n:
                raise Bad("wait-hung", f"{who} had not returned at {run.end:.3f}, engines known: {steps}")
            continue
        if o.get("abandoned"):
            continue
        # returns as soon as there is a reason to
        end = t1 - tol - 0.2
        if end > t0 and least(t1 - tol - 0.2, t1 - tol) >= n and most(t0, t1) >= n:
            first = None
            for i, (t, k) in enumerate(steps):
                a, b = max(t, t0), min(steps[i + 1][0] if i + 1 < len(steps) else t1, t1)
                if k >= n and b - a > tol + 0.2:
                    first = a
                    break
            if first is not None:
                raise Bad("wait-late", f"{who} returned {o['what']} at {t1:.3f}, {n} engines were known from {first:.3f}: {steps}")
        if o["timeout"] >= 0 and t1 > t0 + o["timeout"] + tol + 0.1:
            raise Bad("timeout-late", f"{who} returned {o['what']} at {t1:.3f}")
        if o["what"] == "ok":
            if o.get("r") is not None:
                raise Bad("wait-value", f"{who} returned {o['r']}")
            if most(t0 - tol, t1) < n:
                raise Bad("wait-early", f"{who} returned at {t1:.3f}, engines known: {steps}")
        elif o["what"] == "TimeoutError":
            if o["timeout"] < 0 or t1 < t0 + o["timeout"] - 1e-3:
                raise Bad("timeout-early", f"{who} timed out at {t1:.3f}")
            if least(t0 - 0.2, t1) >= n:
                raise Bad("timeout-false", f"{who} timed out at {t1:.3f}, engines known: {steps}")
        elif o["what"] == "EngineError":
            if not any(t0 - tol <= u <= t1 for u in unregs):
                raise Bad("false-engine-error", f"{who}: {o['msg']}, unregistrations {unregs}")
        else:
            raise Bad("wait-raised", f"{who} raised {o['what']}: {o['msg']}")
    # (a client that has missed an engine's registration while connecting waits on: finding of E02)
    waiting = {c for c, o in calls if "t1" not in o}
    stuck = [c for c in cv.stuck if c not in waiting]
    if stuck:
        raise Bad("hung", f"clients {stuck} blocked")


def check_C10(cv):
    run = cv.run
    w = cv.w
    line = 0.6 if cv.plan["profile"].get("line_p") else 0.1
    down = [h for h in w.hist if h["k"] == "shut" and h["hub"]]
    t_down = min([h["t"] for h in down], default=1e9)
    calls = [dict(h["ctl"], c=h["c"]) for h in w.hist if h["k"] == "op" and "ctl" in h]
    shut_at = {}
    for h in w.hist:
        if h["k"] == "shut":
            for u in h["uuids"]:
                shut_at.setdefault(u, h["t"])
    up = {h["c"]: h["t"] for h in w.hist if h["k"] == "client_up"}

    def joining(c, uuids):
        # the client connected while the engine left (finding of E02)
        return any(cv.unreg.get(u, 1e9) < up[c] + 0.5 for u in uuids)

    lost = lambda u: min(cv.deaths.get(u, 1e9), shut_at.get(u, 1e9), cv.unreg.get(u, 1e9))  # noqa: E731
    waits_c = set()
    for o in calls:
        op, t0 = o["op"], o["t0"]
        who = f"{op['what']}(targets={op['targets']}, block={op['block']}{', hub' if op.get('hub') else ''}) at {t0:.3f}"
        done = o.get("future") if "future" in o else o.get("t1")
        waits = op["block"] or op.get("hub") or "future" in o
        if done is None:
            if t_down < 1e8 and not op.get("hub"):
                continue  # nobody is left to tell
            if joining(o["c"], o["uuids"]):
                waits_c.add(o["c"])
                continue
            raise Bad(f"unresolved:{op['what']}", f"{who} had not {'returned' if 't1' not in o else 'resolved'} at {run.end:.2f}")
        if not waits and o["t1"] > t0 + line * 5 + cv.slack(t0, o["t1"]):
            raise Bad("slow", f"{who} does not wait but took {o['t1'] - t0:.2f} s")
        if done < t_down or op.get("hub"):
            gone = [cv.unreg[u] for u in o["uuids"] if u in cv.unreg and lost(u) <= done]
            by = max([t0, *gone]) + 3 + 5 * line + cv.slack(t0, done)
            if done > by:
                raise Bad(f"late:{op['what']}", f"{who} resolved at {done:.2f}, its engines went at {gone}")
        dying = [u for u in o["uuids"] if lost(u) <= done]
        if o["what"] != "ok":
            if o["closed"] or t_down <= t0 and op["what"] != "shutdown":
                continue
            okay = {"EngineError", "IndexError", "NoEnginesRegistered", "KeyError"} if (dying or not o["uuids"] or t_down <= done) else set()
            if op["what"] == "shutdown":
                okay.discard("EngineError")
            if o["what"] not in okay:
                raise Bad(f"raised:{op['what']}", f"{who} raised {o['what']}: {o['msg']}")
        for x in o.get("replies", ()):
            if x != "ok" and not (x == "EngineError" and (dying or t_down < done)):
                raise Bad(f"reply:{op['what']}", f"{who}: replies {o['replies']}")
    # --- who stops ---
    strange = any(f["kind"] in ("pause", "hb_drop", "stall") for f in cv.plan["faults"])
    for e in w.engines:
        if e.app is None:
            continue
        u = e.uuid
        exited = u not in run.engines_alive
        if u in shut_at and not exited and cv.deaths.get(u, 1e9) > 1e8:
            ok = [o for o in calls if o["op"]["what"] == "shutdown" and u in o["uuids"] and o["what"] == "ok"]
            if ok and (cv.unreg.get(u, 1e9) > min(o["t0"] for o in ok)):
                raise Bad("not-stopped", f"engine{e.index} was shut down at {shut_at[u]:.3f} and still runs at {run.end2:.2f}")
        if exited and u not in cv.deaths and u not in shut_at and t_down > 1e8 and not strange:
            raise Bad("bystander-stopped", f"engine{e.index} stopped but nobody shut it down")
    if t_down < 1e8:
        ok = [o for o in calls if o["op"].get("hub") and o["what"] == "ok"]
        if ok and run.controller_alive:
            raise Bad("hub-not-stopped", f"shutdown(hub=True) returned at {ok[0]['t1']:.2f}, the controller still runs at {run.end2:.2f}")
    elif not run.controller_alive:
        raise Bad("bystander-stopped", "the controller stopped but nobody shut it down")
    # --- clear ---
    state = defaultdict(dict)  # uuid -> name -> set of possible values
    NONE = "NameError"
    events = []
    for h in w.hist:
        if h["k"] == "op" and "ctl" in h and h["ctl"]["op"]["what"] == "clear":
            events.append((h["i"], "clear", h["ctl"]))
        if h["k"] == "opdone" and h["op"] == "call" and isinstance(h.get("v"), dict) and "res" in h["v"]:
            for one in h["v"]["res"]:
                events.append((one["i0"], "ns", (h["v"]["op"], one)))
    events.sort(key=lambda e: (e[0], e[1]))
    loose = defaultdict(list)  # uuid -> clears that may still happen
    for i, kind, x in events:
        if kind == "clear":
            for u in x["uuids"]:
                if "t1" in x and x["op"]["block"] and x["what"] == "ok":
                    state[u] = {}
                else:
                    loose[u].append(x)
            continue
        op, one = x
        u, name = one["uuid"], op["name"]
        st = state[u]
        poss = st.setdefault(name, {NONE})
        # a clear nobody waited for has happened, may have, or will
        may = [c for c in loose[u]]
        if may:
            poss = st[name] = poss | {NONE}
            for k in st:
                st[k] = st[k] | {NONE}
        sure = [c for c in loose[u] if c.get("future") is not None and c["future"] <= one["t0"] and
                all(r == "ok" for r in c["replies"])]
        if sure:
            loose[u] = [c for c in loose[u] if c not in sure]
        if "err" in one and one["err"] != NONE:
            if one["err"] in ("EngineError", "IndexError", "NoEnginesRegistered") and (lost(u) <= one["t1"] or t_down <= one["t1"]):
                continue
            if one["err"] in ("TimeoutError", "OSError") and (t_down <= one["t1"] or lost(u) <= one["t1"]):
                continue
            raise Bad("ns-failed", f"{op['do']} of {name} on engine {cv.idx_of.get(u)} gave {one['err']}")
        if op["do"] in ("push", "exec"):
            if "err" in one:
                raise Bad("ns-failed", f"{op['do']} of {name} on engine {cv.idx_of.get(u)} gave {one['err']}")
            st[name] = {op["val"]} | ({NONE} if loose[u] else set())
        else:
            got = one.get("v", NONE)
            if got not in poss:
                raise Bad("clear" if got != NONE else "cleared-too-much",
                          f"{name} on engine {cv.idx_of.get(u)} is {got} at {one['t0']:.3f}, expected one of {sorted(map(str, poss))}")
            st[name] = {got} | ({NONE} if loose[u] else set())
    # --- nothing else suffers ---
    if t_down > 1e8:
        for label, s in cv.live_subs():
            f = cv.fin(label)
            if f is not None and not f["ready"] and s["c"] not in cv.stuck:
                if joining(s["c"], s["uuids"] or ()):
                    continue
                if s["uuids"] is None and all(u in cv.unreg or u in cv.deaths or u in shut_at for u in (
                        h["uuid"] for h in w.hist if h["k"] == "reg")):
                    continue  # nobody is left to run it
                raise Bad("unresolved", f"{label} is not resolved at the end")
            if f is not None and f["ready"] and is_work(s["spec"]):
                values(cv, label, s)
        if set(cv.stuck) - waits_c:
            raise Bad("hung", f"clients {cv.stuck} blocked")
