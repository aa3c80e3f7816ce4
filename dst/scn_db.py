"""What survives of the hub's task database when the controller stops or dies and
is started again with the same SQLite database, and when the disk fails (H06)."""

import os
import shutil
import sqlite3

from . import common, core
from .actors import _rv
from .common import Bad
from .core import EPOCH
from .scn_hub import CALLS, Gen, HV, INF, _err, _size, _slim, _try, norm

MIX = {"task": 6, "dapply": 4, "dexec": 1, "print": 2, "purge": 2, "resubmit": 1, "query": 1, "sleep": 6}
EPS = 1e-4


def gen(rng, prop):
    plan = common.base_plan(rng)
    n_eng = rng.choice([1, 2, 2, 3])
    n_cl = rng.choice([1, 2])
    plan["engines"] = [{"delay": 0} for _ in range(n_eng)]
    plan["db"] = "sqlite"
    plan["cfg"]["controller"]["IPController"] = {"db_class": "ipyparallel.controller.sqlitedb.SQLiteDB"}
    if rng.random() < 0.3:
        plan["cfg"]["controller"]["SQLiteDB"] = {"table": "tasks", "filename": "hub.db"}
    plan["cfg"]["controller"]["TaskScheduler"] = {"hwm": rng.choice([0, 1, 1, 2])}
    kinds = list(MIX)
    weights = [MIX[k] for k in kinds]
    durs = rng.choice([[0.0, 0.01], [0.05, 0.2], [0.0, 0.3, 1.0]])
    everyone = [[] for _ in range(n_cl)]
    plan["clients"] = []
    gens = [Gen(rng, "H01", c, n_eng, durs, everyone, set()) for c in range(n_cl)]
    for g in gens:
        for _ in range(rng.randint(4, 16)):
            g.add(rng.choices(kinds, weights)[0])
    for g in gens:
        plan["clients"].append({"ops": g.ops, "wait_engines": n_eng, "delay": rng.choice([0, 0, 0.2])})
    faults = common.gen_faults(rng, n_eng, n_cl, deaths=rng.random() < 0.15)
    faults = [f for f in faults if f["kind"] != "clock"]
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append({"kind": "disk_error", "at": round(rng.uniform(0, 8), 3),
                           "dur": rng.choice([0.05, 0.5, 2.0, 4.0]), "rollback": rng.random() < 0.5,
                           "what": rng.choice(["full", "io"])})
    mode = rng.choice(["now", "now", "sql", "sql", "sigterm", "shutdown"])
    f = {"kind": "power", "mode": mode, "at": round(rng.choice([rng.uniform(0.1, 4.0), rng.uniform(2.0, 14.0)]), 3)}
    if mode == "sql":
        f["n"] = rng.choice([0, 1, 1, 2, 3, 5])
    faults.append(f)
    plan["faults"] = faults
    plan["again"] = rng.choice([None, 0.1, 4.0])
    plan["after"] = [rng.randrange(100) for _ in range(4)]
    plan["quiesce"] = 0.5
    plan["tail"] = 0.5
    plan["max_prog"] = 60.0
    return plan


# ---------------------------------------------------------------------------
# the disk
# ---------------------------------------------------------------------------
class Disk:
    def __init__(self):
        self.until = -1.0
        self.rollback = False
        self.what = "full"
        self.countdown = None
        self.fire = None


class SimConn(sqlite3.Connection):
    """connection of the simulated hub: its writes can fail or be its last"""

    def _fault(self, write):
        s = core._in_sim()
        d = s and s.ctx.get("disk")
        if not d:
            return
        if d.countdown is not None and write:
            if d.countdown <= 0:
                d.countdown = None
                d.fire()
                s.sleep(0)
                raise core.SimKilled()
            d.countdown -= 1
        if s.now < d.until:
            s.count("fault:disk_error_hit")
            if d.rollback and self.in_transaction:
                super().rollback()
            raise sqlite3.OperationalError("database or disk is full" if d.what == "full" else "disk I/O error")

    def execute(self, sql, *a):
        if sql.lstrip()[:6].upper() in ("INSERT", "UPDATE", "DELETE"):
            self._fault(True)
        return super().execute(sql, *a)

    def commit(self):
        if self.in_transaction:
            self._fault(True)
        return super().commit()


_connect = sqlite3.connect


def _sim_connect(*a, **kw):
    if core._in_sim() is not None:
        kw["factory"] = SimConn
    return _connect(*a, **kw)


def install():
    """connections the simulated hub makes are ours, however it imports sqlite3"""
    sqlite3.connect = _sim_connect
    from ipyparallel.controller import sqlitedb

    if getattr(sqlitedb, "connect", None) is _connect:
        sqlitedb.connect = _sim_connect


# ---------------------------------------------------------------------------


def _dir(run, k):
    p = os.path.join(run.world.dir, f"db{k}")
    os.makedirs(p, exist_ok=True)
    for f in os.listdir(p):
        os.remove(os.path.join(p, f))
    return p


def _cut(run):
    """the machine loses power: what is on the disk now is what remains"""
    w, s = run.world, run.sim
    run.ctx_disk.until = -1.0
    run.ctx_disk.countdown = None
    old = w.db_dir
    run.k += 1
    w.db_dir = _dir(run, run.k)
    for f in sorted(os.listdir(old)):
        shutil.copy(os.path.join(old, f), os.path.join(w.db_dir, f))
    known = {}
    for a in run.actors:
        if a.rc is None or not a.proc.alive:
            continue
        for m, v in dict(a.rc.results).items():
            known[m] = {"v": _rv(v), "uuid": dict.get(a.rc.metadata.get(m) or {}, "engine_uuid")}
    for pr in list(s.procs):
        if pr.alive and pr.name != "driver" and pr is not s.current.proc:
            pr.kill(-9)
    return known


def _power(run, mode):
    if run.off is not None:
        return False
    w = run.world
    graceful = mode in ("sigterm", "shutdown")
    known = _cut(run)
    run.off = w.h("power", mode=mode, at=run.stopping if graceful else run.sim.now)
    run.known = known
    return True


def fault_power(run, f):
    w, s = run.world, run.sim
    if run.off is not None:
        return False
    if f["mode"] == "now":
        return _power(run, "now")
    if f["mode"] == "sql":
        run.ctx_disk.countdown = f["n"]
        return True
    app = w.controller
    run.stopping = s.now
    w.h("stop", mode=f["mode"])
    p = w.controller_proc
    if f["mode"] == "sigterm":
        s.spawn(lambda: app.loop.add_callback_from_signal(app.handle_signal, 15, None), name="signal", proc=p)
    else:
        a = next((a for a in run.actors if a.rc is not None and a.proc.alive), None)
        if a is None:
            return False

        w.spawn_user(a.proc, lambda: a.rc.shutdown(hub=True, block=False), name="stopper")
    return True


def fault_disk(run, f):
    if run.off is not None:
        return False
    d = run.ctx_disk
    d.until = run.sim.now + f["dur"]
    d.rollback = f["rollback"]
    d.what = f["what"]
    run.windows.append((run.sim.now, d.until))
    run.world.h("disk_error", dur=f["dur"])
    return True


COLS = ("msg_id", "client_uuid", "engine_uuid", "submitted", "started", "completed", "received", "queue", "header",
        "content", "result_header", "result_content", "stdout", "stderr", "resubmitted")


def final(run):
    w, s = run.world, run.sim
    if run.off is None:
        if any(h["k"] == "stop" for h in w.hist):
            end = s.now + 60
            while w.controller_proc.alive and s.now < end:
                s.sleep(0.05)
            run.stopped = not w.controller_proc.alive
            _power(run, [h["mode"] for h in w.hist if h["k"] == "stop"][0])
        else:
            _power(run, "now")
    run.looks = []
    again = run.plan["again"]
    for n in range(2 if again is not None else 1):
        look = {"n": n}
        run.looks.append(look)
        if n:
            look["t_cut"] = s.now
            _cut(run)
        w.controller = None
        w.ctl_ready = False
        p = w.start_controller(wait=False)
        end = s.now + 20
        while not w.ctl_ready and p.alive and s.now < end:
            s.sleep(0.05)
        look["up"] = w.ctl_ready
        if not w.ctl_ready:
            return
        e = w.start_engine()
        proc = w.client_proc(f"after{n}")
        done = []

        def go():
            try:
                _look(run, look, n)
            except core.SimKilled:
                raise
            except Exception as e:
                import traceback

                look["err"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-900:]
            done.append(1)

        t = w.spawn_user(proc, go)
        end = s.now + 200
        while not done and not t.dead and s.now < end:
            s.sleep(0.02)
        look["done"] = bool(done)
        if again is not None:
            s.sleep(again)


def _look(run, look, n):
    from ipyparallel.serialize import deserialize_object

    w, s = run.world, run.sim
    rc = w.make_client(timeout=20)
    end = s.now + 20
    while not rc.ids and s.now < end:
        s.sleep(0.05)
    look["hist"] = rc.hub_history()
    look["recs"] = {}
    recs = rc.db_query({"msg_id": {"$ne": ""}}, list(COLS))
    look["nrecs"] = len(recs)
    for r in _slim(recs):
        look["recs"][r["msg_id"]] = r
    res = look["res"] = {}
    ids = [m for label, sub in list(w.submits.items()) for m in sub.get("msg_ids", ())]
    ids += [m for m in run.looks[0].get("new", ()) if n]
    for m in ids:
        one = _try(lambda: rc.result_status([m], status_only=False))
        one["so"] = _try(lambda: rc.result_status([m], status_only=True))
        if m in rc.results:
            one["res"] = _rv(rc.results[m])
            one["uuid"] = rc.metadata[m]["engine_uuid"]
        res[m] = one
    if n:
        return
    completed = [m for m in ids if look["recs"].get(m, {}).get("completed")]
    if not completed:
        return
    a, b, c, d = (completed[x % len(completed)] for x in run.plan["after"])
    again = [m for m in {c: 1, d: 1} if (look["recs"][m]["header"] or {}).get("msg_type") == "apply_request"]
    if again:
        def go():
            ar = rc.resubmit(again)
            look["new"] = list(ar.msg_ids)
            look["of"] = again
            look["waited"] = ar.wait(30)
            if look["waited"]:
                look["got"] = _rv(ar.get(5, return_exceptions=True))

        look["resub"] = _try(go)
    look["purge_ids"] = sorted({a, b})
    look["t_purge"] = s.now
    look["purge"] = _try(lambda: rc.purge_hub_results(jobs=look["purge_ids"]))
    for m in look["purge_ids"]:
        rc.results.pop(m, None)
    look["purged"] = {m: _try(lambda: rc.result_status([m], status_only=True)) for m in look["purge_ids"]}
    look["t_end"] = s.now


def start(sim, plan, prop):
    from .actors import Run

    install()
    run = Run(sim, plan)
    run.calls.update(CALLS)
    run.calls["final"] = final
    run.calls["fault_power"] = lambda f: fault_power(run, f)
    run.calls["fault_disk_error"] = lambda f: fault_disk(run, f)
    run.k = 0
    run.off = run.stopping = run.stopped = None
    run.known = {}
    run.windows = []
    run.looks = []
    run.ctx_disk = sim.ctx["disk"] = Disk()
    run.ctx_disk.fire = lambda: _power(run, "sql")
    run.world.db_dir = _dir(run, 0)
    sim.ctx["run"] = run
    sim.run(run.main)
    return run


# ---------------------------------------------------------------------------
# oracle
# ---------------------------------------------------------------------------
COMMIT = 2.0


class DV(HV):
    def late(self, m):
        d = self.msg[m]
        lost = d["done"] < INF and self.done[m][0].get("ename") == "EngineError"
        return d["done"] + 1.0 + (self.reg_timeout + 1 if lost and d["uuid"] is not None else 0)

    def hit(self, a, b):
        """may failing writes have affected what the hub stored in [a, b]?"""
        tol = self.tol(a, b)
        return any(x <= b + tol + COMMIT + 0.1 and y >= a - tol for x, y in self.run.windows)


def judge(run, prop):
    cv = DV(run)
    run.sim.ctx["nontrivial"] = sum(len(v) for v in cv.execs.values()) >= 2
    graceful = run.off["mode"] in ("sigterm", "shutdown")
    off = run.off["at"]
    if graceful and not run.stopped:
        raise Bad("not-stopped", f"the controller did not stop ({run.off['mode']})")
    for n, look in enumerate(run.looks):
        if not look["up"]:
            raise Bad("not-up", f"controller start {n + 1} after the crash did not come up")
        if look.get("err"):
            raise Bad("look-failed", f"look {n}: {look['err']}")
        if not look["done"]:
            raise Bad("look-stuck", f"look {n}: a client blocked asking the restarted hub")
        check_look(cv, run, look, off, 0.0 if graceful else COMMIT)
    first = run.looks[0]
    if "new" in first:
        if first["resub"].get("err") or not first["waited"]:
            raise Bad("resubmit", f"{first['of']} as {first['new']}: {first['resub']} waited {first.get('waited')}")
    elif first.get("resub"):
        raise Bad("resubmit", f"{first['resub']}")
    if "new" in first and first["waited"]:
        got = first["got"]
        if not isinstance(got, list) or len(got) != len(first["new"]):
            raise Bad("resubmit", f"{first['of']}: {got}")
        for m, new, v in zip(first["of"], first["new"], got):
            check_value(cv, m, v, "resubmitted")
    if "purge" in first:
        if "err" in first["purge"]:
            raise Bad("purge", f"{first['purge_ids']}: {first['purge']['err']}")
        for m, v in first["purged"].items():
            if v.get("err", {}).get("error") != "KeyError":
                raise Bad("purged-known", f"{m}: {v}")
    if len(run.looks) > 1:
        compare(cv, run, first, run.looks[1])


def check_look(cv, run, look, off, period):
    recs, res = look["recs"], look["res"]
    n = look["n"]
    if look["nrecs"] != len(recs):
        raise Bad("duplicate-records", f"{look['nrecs']} records, {len(recs)} ids")
    if sorted(look["hist"]) != sorted(recs):
        raise Bad("history", f"history {look['hist']} records {sorted(recs)}")
    sub = [recs[m]["submitted"] for m in look["hist"] if recs[m]["submitted"] is not None]
    if sub != sorted(sub):
        raise Bad("history-order", f"{look['hist']}: {sub}")
    ours = set(cv.msg) | set(run.looks[0].get("new", ()))
    hidden = {h["c"] for h in cv.w.hist if h["k"] == "client_death"}
    for m in recs:
        if m not in ours:
            # sent by a call that had not returned
            started = any(h["k"] == "op" and h["op"] in ("task", "dapply", "dexec", "call") and
                          not any(o["c"] == h["c"] and o["n"] == h["n"] for o in cv.ops) for h in cv.w.hist)
            if not started:
                raise Bad("unknown-record", f"record {m} of no message")
    for m, d in cv.msg.items():
        who = f"{d['label']} {m} (look {n})"
        r, one = recs.get(m), res[m]
        if n and m in run.looks[0].get("purge_ids", ()):
            continue
        p = cv.purged(m, off)
        if d["op"] == "resubmit" or (d["uuid"] is not None and d["uuid"] in cv.unreg):
            p = "maybe" if p == "no" else p
        t0, t1 = d["t0"], min(d["done"], off)
        if r is None:
            if p == "no" and d["t"] + cv.tol(d["t"], d["t"]) + period < off and not cv.hit(d["t0"], d["t"]):
                raise Bad("record-lost", f"{who} submitted {d['t']:.3f} is not recorded, controller down at {off:.3f}")
            if one.get("err", {}).get("error") != "KeyError" or one["so"].get("err", {}).get("error") != "KeyError":
                raise Bad("not-recorded-but-known", f"{who}: {one}")
            continue
        if p == "yes":
            t = max(x[1] for x in cv.purges if x[3].get("labels") == "all" or m in x[2]["kw"].get("jobs", ()))
            if t + cv.tol(t, t) + period < off and not cv.hit(d["t0"], t):
                raise Bad("purged-back", f"{who} was purged before {t:.3f}, controller down at {off:.3f}")
        if r["header"] is None and cv.hit(d["t0"], d["done"]):
            continue  # (only later parts of it could be written)
        if (r["completed"] is None) != ("res" not in one):
            raise Bad("status", f"{who}: completed {r['completed']}, result {one}")
        if "err" in one["so"]:
            raise Bad("status", f"{who}: {one}")
        if m not in one["so"]["v"]["completed" if r["completed"] else "pending"]:
            raise Bad("status", f"{who}: completed {r['completed']}, {one['so']}")
        if r["submitted"] is None:
            if not cv.hit(d["t0"], d["t"]) and d["t"] + cv.tol(d["t"], d["t"]) + period < off:
                raise Bad("record-partial", f"{who}: {r}")
            continue
        if not d["t0"] - 0.1 <= r["submitted"] - EPOCH <= d["t"] + 0.1 + cv.slack(d["t0"], d["t"]):
            raise Bad("record-submitted", f"{who}: submitted {r['submitted'] - EPOCH:.3f}, sent {d['t']:.3f}")
        if r["completed"] is None:
            if cv.late(m) + cv.tol(d["done"], d["done"]) + period < off and not cv.hit(d["t0"], d["done"]):
                raise Bad("result-lost", f"{who} was done at {d['done']:.3f}, is not in the database the controller "
                                         f"left at {off:.3f}")
            continue
        k = run.known.get(m)
        if k is not None and not (cv.gone and isinstance(k["v"], dict)):
            if d["op"] != "dexec" and norm(one["res"]) != norm(k["v"]):
                raise Bad("result-differs", f"{who}: {one['res']}, its submitter got {k['v']}")
        elif not cv.ran(m, run.off["t"]) and not cv.gone:
            raise Bad("result-invented", f"{who}: {one['res']}")
        check_value(cv, m, one["res"], "stored")


def check_value(cv, m, v, what):
    """v is a value (or error) that m can have produced"""
    d = cv.msg[m]
    sp = d["sp"]
    if d["op"] not in ("task", "dapply") or isinstance(v, dict) and v.get("error") in ("EngineError", "TaskAborted"):
        return
    mode = sp.get("mode")
    if mode in ("fail", "failn"):
        if mode == "fail" and not (isinstance(v, dict) and v.get("error") == "TaskFailed" and v["evalue"] == sp["tag"]):
            raise Bad("wrong-value", f"{what} {d['label']} {m}: {v}")
        return
    if isinstance(v, dict):
        if sp.get("dep") is None:
            raise Bad("wrong-value", f"{what} {d['label']} {m}: {v}")
        return
    if mode == "none":
        if v is not None:
            raise Bad("wrong-value", f"{what} {d['label']} {m}: {v}")
    elif v[:2] != ["r", sp["tag"]]:
        raise Bad("wrong-value", f"{what} {d['label']} {m}: {v}")


def compare(cv, run, a, b):
    """what the first look found is still there after another crash"""
    safe = "t_end" in a and a["t_end"] + COMMIT + cv.tol(0, 0) < b["t_cut"]
    for m, r in a["recs"].items():
        if m in a.get("purge_ids", ()):
            if safe and m in b["recs"]:
                raise Bad("purged-back", f"{m} purged at {a['t_purge']:.3f}, next crash at {b['t_cut']:.3f}")
            continue
        q = b["recs"].get(m)
        if q is None:
            raise Bad("record-lost", f"{m} was there after the first restart, not after the second")
        for k in r:
            if r[k] != q[k] and not (k == "resubmitted" and m in a.get("of", ())):
                raise Bad("record-changed", f"{m}: {k} was {r[k]} after the first restart, {q[k]} after the second")
    if safe:
        for m in a.get("new", ()):
            if not b["recs"].get(m, {}).get("completed"):
                raise Bad("result-lost", f"resubmitted {m} is {b['recs'].get(m)} after the second restart")
        for m, new in zip(a.get("of", ()), a.get("new", ())):
            if m in b["recs"] and b["recs"][m]["resubmitted"] != new:
                raise Bad("record-changed", f"{m}: resubmitted {b['recs'][m]['resubmitted']}, not {new}")
