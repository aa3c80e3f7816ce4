"""Membership scenarios: registration, heartbeats, engine and controller loss,
controller restart (E properties)."""

import json

from . import actors, common, core, simfs, tasks, world
from .common import Bad


def gen(rng, focus=None):
    plan = common.base_plan(rng)
    if plan["profile"]["lat"] == "wild":
        plan["profile"]["lat"] = "jitter"
    period = rng.choice([500, 500, 1000])
    miss = rng.choice([1, 2, 2, 3, 4])
    plan["cfg"]["controller"]["HeartMonitor"] = {
        "period": period, "max_heartmonitor_misses": miss}
    plan["hb"] = [period / 1000, miss]
    p = period / 1000
    regto = rng.choice([5, 8, 30])
    plan["cfg"]["controller"]["IPController"] = {"registration_timeout": regto}
    plan["regto"] = regto
    etimeout = rng.choice([2.0, 5.0, 5.0])
    emiss = rng.choice([0, 4, 6, 50]) if focus != "E05" else rng.choice([2, 3, 5, 8, 8])
    plan["cfg"]["engine"] = {"timeout": etimeout, "max_heartbeat_misses": emiss}
    plan["etimeout"], plan["emiss"] = etimeout, emiss
    n_eng = rng.choice([1, 2, 3, 3, 4, 6])
    T = rng.choice([2.0, 6.0, 12.0, 20.0])
    engines = []
    req_p = rng.choice([0.0, 0.2, 0.6]) if focus != "E01" else rng.choice([0.3, 0.6, 0.9])
    for i in range(n_eng):
        engines.append({"delay": round(rng.choice([0, 0, 0.05, 0.3, 1.0, rng.uniform(0, T)]), 3),
                        "kw": _ekw(rng, req_p, n_eng)})
    plan["engines"] = engines
    plan["settle"] = rng.random() < 0.5
    faults = []
    nf = rng.choice([0, 1, 2, 3, 5])
    for _ in range(nf):
        r = rng.random()
        at = round(rng.uniform(0, T), 3)
        k = rng.randrange(n_eng + 2)
        if r < 0.26:
            faults.append({"kind": "kill_engine", "eng": k, "at": at})
        elif r < 0.42:
            # silence of a length around the detection threshold
            dur = round(rng.choice([0.3 * p, (miss - 0.6) * p, (miss - 0.45) * p, (miss - 0.45) * p,
                                    (miss + 3) * p, (miss + 8) * p]), 3)
            kind = rng.choice(["pause", "hb_drop"])
            if kind == "pause":
                faults.append({"kind": "pause", "proc": f"engine{k}", "at": at, "dur": max(0.05, dur)})
            else:
                faults.append({"kind": "hb_drop", "eng": k, "at": at, "dur": max(0.05, dur)})
        elif r < 0.62:
            faults.append({"kind": "start_engine", "at": at, "kw": _ekw(rng, req_p, n_eng)})
        elif r < 0.72:
            faults.append({"kind": "pause", "proc": rng.choice(["hub", "hub", "hb", "task"]), "at": at,
                           "dur": rng.choice([0.05, 0.5, p, 3 * p, etimeout - 1.0, etimeout + 1.5])})
        elif r < 0.8:
            faults.append({"kind": "stall", "a": rng.choice(["hub", "hb"]), "b": f"engine{k}", "at": at,
                           "dur": rng.choice([0.1, 0.4 * p])})
        elif r < 0.88:
            faults.append({"kind": "kill_at_reg", "at": at, "phase": rng.choice(["req", "reply", "reply", "beat"]),
                           "kw": _ekw(rng, req_p, n_eng)})
        elif r < 0.94:
            faults.append({"kind": "dup_uuid", "at": at, "eng": k})
        else:
            faults.append({"kind": "shutdown_one", "at": at, "eng": k})
    if rng.random() < 0.1:
        faults.append({"kind": "clock", "at": round(rng.uniform(0, T), 3), "by": rng.choice([-5, 5, 3600]),
                       "proc": rng.choice([None, "hub", "hb"])})
    if rng.random() < 0.15:
        faults.append({"kind": "disk_full", "at": round(rng.uniform(0, T), 3), "dur": rng.choice([2.0, 6.0, 30.0]),
                       "errno": rng.choice([28, 5, 13])})
    plan["crash"] = False
    flaky = rng.random()
    if focus == "E03" and miss > 1 and flaky < 0.35:
        # heartbeats lost now and then, never enough of them in a row
        k, at = rng.randrange(n_eng), round(rng.uniform(1.0, 4.0), 3)
        for _ in range(rng.randint(4, 12)):
            j = rng.randint(1, miss - 1)
            faults.append({"kind": "hb_drop", "eng": k, "at": round(at, 3), "dur": round(j * p, 3)})
            at += (j + rng.choice([1.5, 2.0, 3.0])) * p
        T = max(T, at)
    if focus == "E05" and emiss <= 5 and flaky < 0.5:
        # the controller is heard now and then, before the limit is reached
        chk = p + 0.5
        k, at = rng.randrange(n_eng), round(rng.uniform(1.0, 4.0), 3)
        for _ in range(rng.randint(3, 7)):
            d = round(max(0.3, (emiss - 1) * chk - rng.choice([1.5, 2.0, 2.5]) * p), 3)
            if rng.random() < 0.7:
                faults.append({"kind": "hb_drop", "eng": k, "at": round(at, 3), "dur": d})
            else:
                faults.append({"kind": "pause", "proc": "hb", "at": round(at, 3), "dur": d})
            at += d + rng.choice([1.1, 1.6, 2.5]) * chk
        T = max(T, at)
    if focus == "E05" and rng.random() < 0.75:
        at = round(rng.uniform(0.5, T + 4), 3)
        faults = [f for f in faults if f["at"] < at or f["kind"] in ("kill_engine", "start_engine")]
        faults.append({"kind": "kill_controller", "at": at,
                       "which": rng.choice(["all", "all", "hb"])})
        plan["crash"] = True
    if focus == "E06":
        plan["cfg"]["controller"]["IPController"].update(reuse_files=True, restore_engines=True)
        plan["cfg"]["engine"]["max_heartbeat_misses"] = rng.choice([0, 50])
        plan["emiss"] = plan["cfg"]["engine"]["max_heartbeat_misses"]
        faults = [f for f in faults if f["kind"] not in ("dup_uuid", "disk_full")]
        for f in faults:
            if f["kind"] == "pause" and f["proc"] in ("hub", "hb"):
                # a stopped heart monitor looks like dead engines to the hub
                f["dur"] = min(f["dur"], 1.0)
        lost = rng.random() < 0.6
        if lost:
            # an engine leaves, in time for the controller to notice
            faults.append({"kind": rng.choice(["kill_engine", "kill_engine", "shutdown_one"]),
                           "eng": rng.choice([n_eng - 1, rng.randrange(n_eng)]), "at": round(rng.uniform(0.5, 3.0), 3)})
        for _ in range(rng.choice([1, 1, 2])):
            at = round(rng.uniform(0.5, T + 3), 3)
            if lost and rng.random() < 0.7:
                at = round(3.0 + (miss + 4) * p + rng.uniform(0, T), 3)
            if rng.random() < 0.6:
                faults.append({"kind": "start_engine", "at": round(at + rng.uniform(1.0, 8.0), 3),
                               "kw": _ekw(rng, req_p, n_eng)})
            faults.append({"kind": "kill_controller", "at": at, "which": "all",
                           "mode": rng.choice(["now", "now", "statewrite"]), "ops": rng.choice([0, 1, 2, 2, 3, 4])})
            faults.append({"kind": "restart_controller", "at": round(at + rng.choice([0.5, 2.0, 5.0]), 3)})
    plan["faults"] = faults
    n_cl = rng.choice([1, 1, 2, 3])
    plan["clients"] = []
    for c in range(n_cl):
        ops = []
        for _ in range(rng.randint(0, 4)):
            r = rng.random()
            if r < 0.4:
                ops.append({"op": "sleep", "d": round(rng.uniform(0.05, T / 2), 3)})
            elif r < 0.6:
                ops.append({"op": "ids"})
            elif r < 0.9:
                ops.append({"op": "wait_for_engines", "n": rng.randint(1, n_eng + 1),
                            "timeout": rng.choice([0.2, 1.0, 5.0, 15.0])})
            else:
                ops.append({"op": "qstatus"})
        if plan["crash"] or focus == "E06":
            ops = [o for o in ops if o["op"] != "qstatus"]
        plan["clients"].append({"ops": ops, "wait_engines": 0,
                                "delay": round(rng.choice([0, 0.02, 0.3, rng.uniform(0, T)]), 3)})
    plan["T"] = T
    plan["quiesce"] = 5.0
    # long enough for every detection bound to run out
    plan["tail"] = round((miss + 4) * p + max(regto, etimeout + 2) + 8.0 + (6 if emiss < 50 else 0)
                         + (emiss + 3) * (p + 0.5) * (1 if plan["crash"] else 0), 3)
    plan["max_prog"] = 200.0
    return plan


def _ekw(rng, req_p, n):
    if rng.random() < req_p:
        return {"engine_id": rng.choice([0, 1, 1, 2, 3, n, n + 3])}
    return {}


# ---------------------------------------------------------------------------


def start(sim, plan, prop):
    run = actors.Run(sim, plan)
    sim.ctx["run"] = run
    run.prop = prop
    run.reg = []  # registration traffic, as the hub and its peers see it
    run.ctl = []  # controller kills and restarts
    run.killreg = []
    w = run.world

    def on_world(r):
        _taps(r)

    run.calls["on_world"] = on_world
    run.calls["fault_kill_controller"] = lambda f: _kill_controller(run, f)
    run.calls["fault_restart_controller"] = lambda f: _restart(run)
    run.calls["fault_kill_at_reg"] = lambda f: _kill_at_reg(run, f)
    run.calls["fault_dup_uuid"] = lambda f: _dup(run, f)
    run.calls["fault_disk_full"] = lambda f: _disk_full(run, f)
    run.calls["fault_shutdown_one"] = lambda f: _shutdown_one(run, f)
    if not plan.get("crash"):
        run.calls["final"] = _final
    w.on_engine_exit = None
    orig = w.start_engine

    def start_engine(**kw):
        e = orig(**kw)
        e.req = kw.get("engine_id")
        e.req_uuid = kw.get("uuid")
        e.spawned = sim.now + kw.get("delay", 0.0)

        def ended(p):
            e.exited_at = sim.now
            e.exit_code = p.exit_code
            w.h("engine_exit", eng=e.index, uuid=e.uuid, code=p.exit_code)

        e.exited_at = None
        e.exit_code = None
        e.proc.on_exit.append(ended)
        return e

    w.start_engine = start_engine
    sim.run(run.main)
    return run


REGK = ("registration_request", "registration_reply", "connection_reply", "unregistration_request",
        "registration_notification", "unregistration_notification", "shutdown_reply", "new_heart",
        "stopped_heart")


def _taps(run):
    w, sim = run.world, run.sim
    ci, ei = w.client_info, w.engine_info
    names = {str(ci["registration"]): "query", str(ci["notification"]): "notify",
             str(ei["hb_ping"]): "ping", str(ei["hb_pong"]): "pong"}
    run.pongs = {}
    run.pings = {}
    run.subs = {}
    cache = {}

    def mk(phase):
        def tap(pipe, frames):
            a = pipe.link.addr
            r = cache.get(a)
            if r is None:
                r = cache[a] = names.get(a.rsplit(":", 1)[-1], "")
            if not r:
                return
            if r == "ping":
                if phase == "rcv":
                    run.pings.setdefault(pipe.dst._proc.name, []).append(sim.now)
                return
            if r == "pong":
                if phase == "rcv" and pipe.dst is pipe.link.bound:
                    u = pipe.link.conn._identity
                    run.pongs.setdefault(u.decode("utf8", "replace"), []).append(sim.now)
                    _kill_hook(run, "beat", u)
                return
            try:
                i = frames.index(world.DELIM)
                header = json.loads(frames[i + 2])
                content = json.loads(frames[i + 5])
            except Exception:
                return
            mt = header["msg_type"]
            if mt not in REGK:
                return
            conn = pipe.link.conn
            peer = conn._identity.decode("utf8", "replace") if conn._identity else ""
            rec = {"t": sim.now, "ph": phase, "mt": mt, "c": content, "peer": peer,
                   "proc": conn._proc.name, "inst": len(run.ctl), "n": len(run.reg),
                   "parent": None}
            run.reg.append(rec)
            if phase == "rcv":
                if mt == "registration_request":
                    _kill_hook(run, "req", conn._identity)
                elif mt == "registration_reply":
                    _kill_hook(run, "reply", conn._identity)
        return tap

    w.net.taps.append(mk("rcv"))
    w.net.send_taps.append(mk("snd"))

    def lost(sock, frames):
        # replies to peers which are gone already
        if not any(names.get(a.rsplit(":", 1)[-1]) == "query" for a in sock._binds):
            return
        try:
            i = frames.index(world.DELIM)
            header = json.loads(frames[i + 2])
            content = json.loads(frames[i + 5])
        except Exception:
            return
        if header["msg_type"] == "registration_reply":
            run.reg.append({"t": sim.now, "ph": "snd", "mt": "registration_reply", "c": content,
                            "peer": bytes(frames[0]).decode("utf8", "replace"), "proc": "?",
                            "inst": len(run.ctl), "n": len(run.reg), "parent": None})

    w.net.unroutable_taps.append(lost)


def _kill_hook(run, phase, ident):
    if not run.killreg:
        return
    u = ident.decode("utf8", "replace")
    for k in list(run.killreg):
        e, ph = k
        if ph == phase and e.uuid == u and e.alive:
            run.killreg.remove(k)
            run.sim.at(run.sim.now, run.world.kill_engine, e, "kill_at_reg")


def _kill_at_reg(run, f):
    e = run.world.start_engine(**f.get("kw", {}))
    run.killreg.append((e, f["phase"]))
    return True


def _dup(run, f):
    """an engine started with the uuid of a live one"""
    w = run.world
    if f["eng"] >= len(w.engines):
        return False
    o = w.engines[f["eng"]]
    if not o.alive or o.uuid is None or getattr(o, "req_uuid", None) or o.eid is None:
        return False
    d = w.start_engine(uuid=o.uuid)
    d.dup_of = o
    w.h("dup", eng=d.index, of=o.index, uuid=o.uuid)
    return True


def _shutdown_one(run, f):
    w = run.world
    if f["eng"] >= len(w.engines):
        return False
    e = w.engines[f["eng"]]
    a = next((a for a in run.actors if a.rc is not None and a.proc.alive and a.done), None)
    if a is None or not e.alive or e.eid is None or a.rc._engines.get(e.eid) != e.uuid:
        return False
    eid = e.eid
    w.h("shutting", eng=e.index, uuid=e.uuid)
    e.shutting = run.sim.now

    def go():
        try:
            a.rc.shutdown([eid], block=False)
        except core.SimKilled:
            raise
        except Exception as ex:
            w.h("shut_err", err=str(ex)[:200])

    w.spawn_user(a.proc, go, name="shut")
    return True


def _disk_full(run, f):
    """the controller cannot write its files for a while"""
    p = run.world.controller_proc
    if not p.alive:
        return False
    fl = simfs.faults(run.sim)
    fl.error_until[p.name] = (run.sim.now + f["dur"], f.get("errno", 28))
    run.world.h("disk_full", dur=f["dur"])
    return True


def _kill_controller(run, f):
    w = run.world
    p = w.controller_proc
    if not p.alive:
        return False
    if f.get("mode") == "statewrite":
        # die in the middle of the next write of the engine state file
        fl = simfs.faults(run.sim)
        fl.watch = "engines"
        fl.crash_after[p.name] = f.get("ops", 1)
        fl.on_crash = lambda proc: _controller_dies(run, "all", proc)
        return True
    return _controller_dies(run, f.get("which", "all"))


def _controller_dies(run, which, but=None):
    w = run.world
    simfs.faults(run.sim).crash_after.clear()
    if which == "hb":
        hb = w.child("hb")
        if hb is None:
            return False
        w.h("ctl_death", which="hb")
        run.ctl.append((run.sim.now, "hb"))
        hb.kill(-9)
        return True
    w.h("ctl_death", which="all")
    run.ctl.append((run.sim.now, "down"))
    for pr in list(run.sim.procs):
        if pr.alive and pr is not but and (pr is w.controller_proc or pr.name in CTL or pr.name.startswith("Broadcast")):
            pr.kill(-9)
    return True


CTL = {"hb", "TaskScheduler", "DirectScheduler", "ControlScheduler", "IOPubScheduler"}


def _restart(run):
    w = run.world
    if w.controller_proc.alive:
        if not simfs.faults(run.sim).crash_after:
            return False
        _controller_dies(run, "all")
    run.ctl.append((run.sim.now, "up"))
    w.h("ctl_restart")
    w.start_controller(wait=False)
    return True


# ---------------------------------------------------------------------------


def _final(run):
    """a fresh client's view, and a probe of every engine through every route"""
    w, sim = run.world, run.sim
    run.ctl_alive = w.controller_proc.alive
    if not w.controller_proc.alive:
        return
    proc = w.client_proc("probe")
    out = {}
    run.probe = out
    done = []

    def go():
        try:
            rc = w.make_client(timeout=20)
            sim.sleep(0.5)
            out["ids"] = list(rc.ids)
            out["engines"] = dict(rc._engines)
            out["direct"] = {}
            out["lb"] = {}
            ars = {}
            for i in rc.ids:
                ars[i] = rc[i].apply_async(tasks.eng_index)
            lbs = {}
            v = rc.load_balanced_view()
            for i in rc.ids:
                with v.temp_flags(targets=[i]):
                    lbs[i] = v.apply_async(tasks.eng_index)
            free = [v.apply_async(tasks.eng_index) for _ in range(2 * len(rc.ids))]
            bc = rc.broadcast_view(list(rc.ids)).apply_async(tasks.eng_index) if rc.ids else None
            for i, ar in ars.items():
                out["direct"][i] = _got(ar)
            for i, ar in lbs.items():
                out["lb"][i] = _got(ar)
            out["free"] = [_got(a) for a in free]
            out["bcast"] = _got(bc) if bc is not None else []
            if rc.ids:
                out["qs"] = {k: v2 for k, v2 in rc.queue_status().items()}
            out["ok"] = True
        except core.SimKilled:
            raise
        except Exception as e:
            out["err"] = f"{type(e).__name__}: {e}"[:300]
        finally:
            done.append(1)

    w.spawn_user(proc, go)
    end = sim.now + 150
    while not done and sim.now < end:
        sim.sleep(0.05)
    out["finished"] = bool(done)
    w.h("probe", **{k: str(v)[:200] for k, v in out.items()})


def _got(ar):
    try:
        return ar.get(timeout=15)
    except core.SimKilled:
        raise
    except Exception as e:
        return f"!{getattr(e, 'ename', type(e).__name__)}"


# ---------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------


def judge(run, prop):
    globals()["judge_" + prop](run)
    sim = run.sim
    sim.ctx["nontrivial"] = len(run.world.engines) > 1 and len(run.reg) > 8


def silences(run, e, gap=0.05):
    """intervals during which engine e could not answer heartbeats"""
    w = run.world
    out = []
    for h in w.hist:
        if h["k"] == "pause" and h["proc"] == f"engine{e.index}":
            out.append((h["t"], h["t"] + h["dur"]))
        elif h["k"] == "hb_drop" and h["eng"] == e.index:
            out.append((h["t"], h["t"] + h["dur"]))
        elif h["k"] == "stall" and h["b"] == f"engine{e.index}" and h["a"] == "hb":
            out.append((h["t"], h["t"] + h["dur"]))
    if e.exited_at is not None:
        out.append((e.exited_at, 1e9))
    out.sort()
    m = []
    for a, b in out:
        if m and a <= m[-1][1] + gap:
            m[-1][1] = max(m[-1][1], b)
        else:
            m.append([a, b])
    return m


def pauses_of(run, *names):
    return [(h["t"], h["dur"]) for h in run.world.hist if h["k"] == "pause" and h["proc"] in names]


def notes(run, phase="snd"):
    """distinct (un)registration notifications in the order the hub sent them"""
    seen = set()
    out = []
    for r in run.reg:
        if r["ph"] != phase or not r["mt"].endswith("registration_notification"):
            continue
        key = (r["mt"], r["c"]["id"], r["c"]["uuid"], round(r["t"], 6))
        if key in seen:
            continue
        seen.add(key)
        out.append(r)
    return out


def judge_E01(run):
    """ids and uuids are unique among registered and pending engines."""
    w = run.world
    reg = {}  # eid -> uuid (registered)
    used = {}  # eid -> uuid that held it last
    pending = {}  # eid -> (uuid, t)
    seen = set()
    requested = {}
    for r in run.reg:
        if r["mt"] == "registration_request" and r["ph"] == "rcv":
            requested[r["peer"]] = r["c"].get("id")
        if r["ph"] != "snd":
            continue
        mt, c = r["mt"], r["c"]
        if mt == "registration_reply":
            u = r["peer"]
            if c.get("status") != "ok":
                continue
            i = c["id"]
            if i in reg:
                raise Bad("id-in-use", f"engine {u} was given id {i}, which belongs to registered engine {reg[i]}")
            if u in reg.values():
                raise Bad("uuid-in-use", f"a second engine with uuid {u} was accepted while the first is registered")
            if i in pending and pending[i][0] != u and r["t"] - pending[i][1] < run.plan["regto"] - 0.5:
                raise Bad("id-pending", f"engine {u} was given id {i}, pending for {pending[i][0]}")
            if any(p == u and r["t"] - t < run.plan["regto"] - 0.5 for p, t in pending.values()):
                raise Bad("uuid-pending", f"uuid {u} accepted while its registration is pending")
            want = requested.get(u)
            if i in used and used[i] != u and want != i:
                raise Bad("id-reused", f"engine {u} (requested id {want}) was given id {i} of former engine {used[i]}")
            if want is not None and i != want and want not in reg and not any(
                    p == want for p in pending) and want not in used:
                raise Bad("request-ignored", f"engine {u} asked for unused id {want} and got {i}")
            pending[i] = (u, r["t"])
            used[i] = u
        elif mt == "registration_notification":
            i, u = c["id"], c["uuid"]
            key = (mt, i, u, round(r["t"], 6))
            if key in seen:
                continue
            seen.add(key)
            if i in reg:
                raise Bad("registered-twice", f"id {i} registered for {u} while {reg[i]} holds it")
            if u in reg.values():
                raise Bad("registered-twice", f"uuid {u} registered twice")
            if i not in pending or pending[i][0] != u:
                raise Bad("wrong-id", f"engine {u} registered as {i}, which it was never offered")
            pending.pop(i)
            reg[i] = u
        elif mt == "unregistration_notification":
            i, u = c["id"], c["uuid"]
            key = (mt, i, u, round(r["t"], 6))
            if key in seen:
                continue
            seen.add(key)
            if reg.get(i) != u:
                raise Bad("bad-unregistration", f"id {i} unregistered as {u}; registered is {reg.get(i)}")
            reg.pop(i)
    # the engine uses the id it was given
    for e in w.engines:
        if e.app is None or e.exited_at is not None:
            continue
        for i, u in reg.items():
            if u == e.uuid and not getattr(e, "dup_of", None) and e.eid != i and not any(
                    getattr(d, "dup_of", None) is e for d in w.engines):
                raise Bad("engine-id-mismatch", f"engine {u} is registered as {i} but calls itself {e.eid}")
    # a rejected or unanswered engine does not linger
    replies = {}
    for r in run.reg:
        if r["mt"] == "registration_reply" and r["ph"] == "rcv":
            replies.setdefault((r["proc"]), []).append((r["t"], r["c"].get("status")))
    end = run.sim.now
    for e in w.engines:
        if e.exited_at is not None or e.app is None:
            continue
        rs = replies.get(e.proc.name, [])
        slack = run.plan["etimeout"] + 4 + sum(
            h["dur"] for h in w.hist if h["k"] == "pause" and h["proc"] == f"engine{e.index}")
        if any(s != "ok" for _, s in rs):
            t = [t for t, s in rs if s != "ok"][0]
            if end - t > slack:
                raise Bad("rejected-lingers", f"engine{e.index} ({e.uuid}) was rejected at {t:.2f}, still running at {end:.2f}")
        if not rs and end - e.spawned > slack:
            raise Bad("unanswered-lingers", f"engine{e.index} got no registration reply for {end - e.spawned:.1f} s and still runs")
    # registrations that were accepted and whose engine answers heartbeats complete
    _complete(run)


def _complete(run):
    """an accepted engine which answers heartbeats is announced in time"""
    w = run.world
    per, miss = run.plan["hb"]
    announced = {}
    for r in notes(run):
        if r["mt"] == "registration_notification":
            announced.setdefault(r["c"]["uuid"], r["t"])
    for r in run.reg:
        if r["mt"] != "registration_reply" or r["ph"] != "snd" or r["c"].get("status") != "ok":
            continue
        u = r["peer"]
        e = next((e for e in w.engines if e.uuid == u and not getattr(e, "dup_of", None)), None)
        if e is None or u in announced:
            continue
        if run.ctl:
            continue
        sil = silences(run, e)
        hubp = sum(d for _, d in pauses_of(run, "hub", "hb"))
        back = common.clock_back(w)
        bound = 3 * per + 2.5 + hubp + back
        if bound > run.plan["regto"] - 1:
            continue  # the registration may have been purged before
        if any(a < r["t"] + bound and b > r["t"] - 0.5 for a, b in sil):
            continue
        if run.sim.now - r["t"] > bound:
            raise Bad("never-registered", f"engine {u} was accepted at {r['t']:.2f}, answered heartbeats, and was never "
                      f"registered (by {run.sim.now:.2f})")


def final_expect(run):
    """uuid -> engine of the engines that must be registered at the end"""
    w = run.world
    per, miss = run.plan["hb"]
    reg = {}
    for r in notes(run):
        if r["mt"] == "registration_notification":
            reg[r["c"]["uuid"]] = r["c"]["id"]
        else:
            reg.pop(r["c"]["uuid"], None)
    return reg


def judge_E02(run):
    """clients, schedulers and hub agree on the engines."""
    w = run.world
    p = getattr(run, "probe", None)
    if p is None or "err" in p or not p.get("finished"):
        if p is not None and ("err" in p or not p.get("finished")):
            raise Bad("probe-failed", f"a fresh client could not use the settled cluster: {p.get('err')}")
        return
    reg = final_expect(run)
    fresh = {int(k): u for k, u in p["engines"].items() if isinstance(k, int)}
    want = {i: u for u, i in reg.items()}
    if fresh != want:
        raise Bad("fresh-view", f"announced engines {want} but a new client is told {fresh}")
    alive = {e.uuid: e for e in w.engines if e.exited_at is None}
    for i, u in fresh.items():
        e = alive.get(u)
        if e is None:
            raise Bad("ghost-engine", f"engine {i} ({u}) is dead but still listed")
    byu = {u: {e.index for e in w.engines if e.uuid == u} for u in fresh.values()}
    for i, u in fresh.items():
        for route in ("direct", "lb"):
            g = p[route].get(i)
            if g not in byu[u]:
                raise Bad(f"route-{route}", f"engine {i} ({u}, engine index {byu[u]}) answered {g!r} through the {route} route")
    allidx = set().union(*byu.values()) if byu else set()
    for g in p.get("free", ()):
        if g not in allidx:
            raise Bad("route-lb-free", f"a load-balanced task in the settled cluster gave {g!r}, engines {allidx}")
    b = p.get("bcast") or []
    if isinstance(b, str) or len(b) != len(fresh) or any(x not in byu[fresh[i]] for i, x in zip(p["ids"], b)):
        raise Bad("route-broadcast", f"broadcast to {p['ids']} answered {b!r}")
    qs = p.get("qs")
    if qs is not None:
        ks = {k for k in qs if isinstance(k, int)}
        if not set(fresh) <= ks:
            raise Bad("queue-status", f"queue_status lists {sorted(ks)}, registered are {sorted(fresh)}")
    # long-lived clients
    for h in w.hist:
        if h["k"] != "final":
            continue
        got = {k: v for k, v in h["engines"].items() if isinstance(k, int)}
        if got == want and sorted(h["ids"]) == sorted(want):
            continue
        cid = h["c"]
        diff = set(got.items()) ^ set(want.items())
        if missed_window(run, cid, diff):
            raise Bad("client-missed-notification-while-connecting",
                      f"client{cid} believes {got}, registered are {want}: a notification was sent between the hub's "
                      f"connection reply and the client's subscription")
        raise Bad("client-view", f"client{cid} believes {got} (ids {h['ids']}), registered are {want}")
    for h in w.hist:
        if h["k"] == "opdone" and h["op"] == "ids" and h["status"] == "ok":
            v = h["v"]
            if len(set(v)) != len(v) or sorted(v) != v:
                raise Bad("ids-malformed", f"client{h['c']} ids {v}")
    # wait_for_engines
    for h in w.hist:
        if h["k"] == "opdone" and h["op"] == "wait_for_engines" and h["status"] == "ok":
            v = h["v"]
            op = run.plan["clients"][h["c"]]["ops"][h["n"]]
            stretch = sum(d for _, d in pauses_of(run, f"client{h['c']}")) + 1.0
            if v["ok"]:
                if v["n"] < op["n"] and not any(
                        r["mt"] == "unregistration_notification" and h["t"] - 1.5 < r["t"] <= h["t"] + 0.01
                        for r in run.reg):
                    raise Bad("wait-engines-early", f"client{h['c']} waited for {op['n']} engines and sees {v['n']}")
            elif v["exc"] == "TimeoutError":
                if v["dt"] < op["timeout"] - 0.05:
                    raise Bad("wait-engines-timeout-early", f"timed out after {v['dt']} of {op['timeout']}")
            elif not (v["exc"] == "EngineError" and any(
                    r["mt"] == "unregistration_notification" and h["t"] - v["dt"] - 1 < r["t"] <= h["t"] + 0.01
                    for r in run.reg)):
                raise Bad("wait-engines-error", f"{v}")
            if v["dt"] > op["timeout"] + stretch:
                raise Bad("wait-engines-late", f"took {v['dt']} with timeout {op['timeout']}")


def missed_window(run, cid, diff):
    """was every differing engine's notification sent before this client's
    notification subscription was in force, but after its connection reply?"""
    name = f"client{cid}"
    snap = None
    for r in run.reg:
        if r["mt"] == "connection_reply" and r["ph"] == "snd" and r["proc"] == name:
            snap = r["t"]
    if snap is None:
        return False
    us = {u for _, u in diff}
    for u in us:
        for r in run.reg:
            if r["mt"].endswith("registration_notification") and r["ph"] == "rcv" and r["proc"] == name \
                    and r["c"]["uuid"] == u:
                return False
        sent = [r["t"] for r in run.reg if r["mt"].endswith("registration_notification") and r["ph"] == "snd"
                and r["c"]["uuid"] == u and r["t"] >= snap - 1e-9]
        if not sent or min(sent) > snap + 2.0:
            return False
    return True


def judge_E03(run):
    """heartbeat failure detection: bounded for the dead, none for the living."""
    w = run.world
    per, miss = run.plan["hb"]
    end = run.sim.now
    hubp = pauses_of(run, "hub", "hb")
    back = common.clock_back(w)
    regs = {}
    asked = {}
    for r in run.reg:
        if r["mt"] == "unregistration_request" and r["ph"] == "rcv":
            asked.setdefault(r["peer"], r["t"])
    for r in notes(run):
        u = r["c"]["uuid"]
        if r["mt"] == "registration_notification":
            regs[u] = r["t"]
            continue
        e = next((e for e in w.engines if e.uuid == u and not getattr(e, "dup_of", None)), None)
        t = r["t"]
        r0 = regs.pop(u, None)
        if e is None:
            continue
        if u in asked or getattr(e, "shutting", None) is not None:
            continue
        if e.exited_at is not None and e.exited_at < t:
            continue
        if run.ctl:
            continue
        need = (miss - 0.35) * per
        # (no beat need fall into a gap shorter than the period)
        sil = [(a, min(b, t)) for a, b in silences(run, e, per + 0.3) if a < t]
        if not any(b - a >= need - 1e-6 and t - b <= 3 * per + sum(d for _, d in hubp) + back for a, b in sil):
            raise Bad("live-engine-dropped", f"engine {r['c']['id']} ({u}) was unregistered at {t:.2f} although it answered "
                      f"heartbeats (silent: {[(round(a, 2), round(b, 2)) for a, b in sil]}, need {need:.2f} s; "
                      f"period {per}, misses {miss}), registered at {r0}")
    # detection bound
    gone = {}
    for r in notes(run):
        if r["mt"] == "unregistration_notification":
            gone[r["c"]["uuid"]] = r["t"]
    regged = {}
    for r in notes(run):
        if r["mt"] == "registration_notification":
            regged[r["c"]["uuid"]] = (r["t"], r["c"]["id"])
    if run.ctl:
        return
    for e in w.engines:
        u = e.uuid
        if u not in regged or getattr(e, "dup_of", None):
            continue
        for a, b in silences(run, e):
            t0 = max(a, regged[u][0])
            extra = back + sum(d for t, d in hubp if t + d > a)
            bound = (miss + 3) * per + 1.0 + extra
            if b - t0 < bound:
                continue
            if u in gone and gone[u] <= t0 + bound:
                continue
            if end < t0 + bound:
                continue
            raise Bad("dead-engine-kept", f"engine {regged[u][1]} ({u}) silent since {t0:.2f}; unregistered "
                      f"{'at %.2f' % gone[u] if u in gone else 'never'} (bound {bound:.1f} s)")


def judge_E05(run):
    """engines without a controller stop; engines with one don't."""
    w = run.world
    per, miss = run.plan["hb"]
    M = run.plan["emiss"]
    chk = per + 0.5
    end = run.sim.now
    down = next((t for t, k in run.ctl if k in ("down", "hb")), None)
    full = next((t for t, k in run.ctl if k == "down"), None)
    replies = {}
    for r in run.reg:
        if r["mt"] == "registration_reply" and r["ph"] == "rcv":
            replies.setdefault(r["proc"], []).append((r["t"], r["c"].get("status")))
    for e in w.engines:
        if e.app is None:
            continue
        pz = sum(h["dur"] for h in w.hist if h["k"] == "pause" and h["proc"] == f"engine{e.index}")
        jump = sum(abs(h["by"]) for h in w.hist if h["k"] == "clock" and h.get("proc") is None)
        rs = replies.get(e.proc.name, [])
        ok = [t for t, s in rs if s == "ok"]
        if down is not None and M > 0 and ok and (full is not None or ok[0] < down):
            t0 = max(down, ok[0])
            bound = (M + 3) * chk + 3.0 + pz + jump
            stop = e.exited_at
            if stop is None and end - t0 > bound:
                raise Bad("orphan-engine", f"engine{e.index} still runs {end - t0:.1f} s after the last heartbeat of its "
                          f"controller (limit {M} misses of {chk} s)")
            if stop is not None and e.exit_code not in (-9,) and stop - t0 > bound:
                raise Bad("orphan-engine-late", f"engine{e.index} stopped {stop - t0:.1f} s after its controller died "
                          f"(bound {bound:.1f})")
        if full is not None and not rs:
            t0 = e.spawned
            if e.exited_at is None and end - t0 > run.plan["etimeout"] + 3 + pz:
                raise Bad("unanswered-lingers", f"engine{e.index} never got a registration reply and still runs "
                          f"after {end - t0:.1f} s")
        # premature stop
        if e.exited_at is not None and e.exit_code not in (-9, 255) and ok and getattr(e, "shutting", None) is None:
            t = e.exited_at
            if any(h["k"] == "clock" for h in w.hist):
                continue
            starved = M * chk - 1.0
            pings = [x for x in run.pings.get(e.proc.name, ()) if x <= t]
            last = max(pings) if pings else ok[0]
            if M == 0 or t - last < min(starved, (M - 1) * chk) - 0.6:
                sil = silences(run, e)
                # heartbeats lost on the way do not reach the engine either
                if any(b - a > (M - 1) * chk for a, b in sil if a < t - 0.1 and b < 1e8):
                    continue
                if any(d > (M - 1) * chk for _, d in pauses_of(run, "hub", "hb")):
                    continue
                raise Bad("engine-quit", f"engine{e.index} stopped (code {e.exit_code}) at {t:.2f} although the last "
                          f"heartbeat reached it at {last:.2f} (limit {M} misses of {chk} s)")
        if e.exited_at is not None and e.exit_code == 255:
            # gave up registering: only when unanswered in time or refused
            t = e.exited_at
            if rs and rs[0][1] == "ok" and rs[0][0] < e.spawned + run.plan["etimeout"] - 0.3 and pz < 0.05:
                raise Bad("registration-aborted", f"engine{e.index} gave up at {t:.2f} although its registration was "
                          f"accepted at {rs[0][0]:.2f}")


def judge_E06(run):
    """restart with restored engines."""
    w = run.world
    p = getattr(run, "probe", None)
    ups = [t for t, k in run.ctl if k == "up"]
    if not ups:
        return
    if not run.ctl_alive:
        raise Bad("restart-failed", "the restarted controller did not stay up: " + "; ".join(
            l[3][:100] for l in run.sim.logs if l[2] in ("ERROR", "CRITICAL"))[:300] + " ".join(
            x.strip().splitlines()[-1] for x in run.sim.errors[-2:])[:300])
    if p is None or "err" in p or not p.get("finished"):
        raise Bad("probe-failed", f"a fresh client could not use the restarted cluster: {p}")
    fresh = {int(k): u for k, u in p["engines"].items() if isinstance(k, int)}
    alive = {e.uuid: e for e in w.engines if e.exited_at is None}
    # engines registered before the crash and alive since are still there
    downs = [t for t, k in run.ctl if k == "down"]
    reg = {}
    for r in notes(run):
        if r["t"] <= downs[0] - 0.0:
            if r["mt"] == "registration_notification":
                reg[r["c"]["uuid"]] = r["c"]["id"]
            else:
                reg.pop(r["c"]["uuid"], None)
    run.sim.ctx.setdefault("probes", {})["restored"] = len(reg)
    for u, i in reg.items():
        e = alive.get(u)
        if e is None or silences(run, e):
            continue
        if fresh.get(i) != u:
            raise Bad("engine-forgotten", f"engine {i} ({u}) was registered before the controller crashed and is alive, "
                      f"but the restarted controller lists {fresh}")
    if len(set(fresh.values())) != len(fresh):
        raise Bad("uuid-twice", f"{fresh}")
    byu = {u: {e.index for e in w.engines if e.uuid == u} for u in fresh.values()}
    for i, u in fresh.items():
        if u not in alive:
            raise Bad("ghost-engine", f"engine {i} ({u}) is dead but listed by the restarted controller")
        for route in ("direct", "lb"):
            g = p[route].get(i)
            if g not in byu[u]:
                raise Bad(f"route-{route}", f"engine {i} ({u}, index {byu[u]}) answered {g!r} through the {route} route")
    # ids handed out after the restart are new
    former = {}
    for r in notes(run):
        if r["mt"] == "registration_notification" and r["t"] < downs[0] - 0.5:
            former[r["c"]["id"]] = r["c"]["uuid"]
    asked = {}
    for r in run.reg:
        if r["mt"] == "registration_request" and r["ph"] == "rcv":
            asked[r["peer"]] = r["c"].get("id")
        if r["mt"] == "registration_reply" and r["ph"] == "snd" and r["c"].get("status") == "ok" and r["t"] > ups[0]:
            i, u = r["c"]["id"], r["peer"]
            if i in former and former[i] != u and asked.get(u) != i:
                raise Bad("id-recycled", f"engine {u} (which asked for {asked.get(u)}) got id {i} after the restart, "
                          f"which engine {former[i]} had before")
    for r in run.reg:
        if r["mt"] == "registration_reply" and r["ph"] == "snd" and r["c"].get("status") == "ok":
            i, u = r["c"]["id"], r["peer"]
            if i in reg.values() and reg.get(u) != i and r["t"] > ups[0]:
                e = next((x for x in w.engines if x.uuid == u), None)
                if e is None or e.req != i or any(j == i and x in alive and not silences(run, alive[x])
                                                  for x, j in reg.items()):
                    raise Bad("id-reused", f"engine {u} got id {i}, already used before the restart")
