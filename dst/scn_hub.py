"""The hub's task database as its users see it: results fetched by other
clients, task records, queue status, purging and resubmission (H01-H04)."""

from collections import defaultdict

from . import common
from .common import Bad
from .core import EPOCH
from .scn_client import CV

EPS = 1e-4
DB = {"dict": "ipyparallel.controller.dictdb.DictDB", "sqlite": "ipyparallel.controller.sqlitedb.SQLiteDB",
      "no": "ipyparallel.controller.dictdb.NoDB"}

MIX = {
    "H01": {"task": 5, "dapply": 4, "dexec": 1, "status": 4, "get": 5, "abort": 1, "sleep": 3},
    "H02": {"task": 6, "dapply": 4, "dexec": 1, "print": 3, "queue": 4, "history": 1, "query": 2, "sleep": 3},
    "H03": {"task": 5, "dapply": 4, "purge": 4, "status": 3, "get": 2, "sleep": 4, "print": 1},
    "H05": {"task": 6, "dapply": 5, "dexec": 2, "print": 2, "purge": 1, "resubmit": 1, "sleep": 4},
    "H07": {"task": 8, "dapply": 5, "dexec": 1, "count": 3, "get": 1, "resubmit": 1, "sleep": 3},
    "H04": {"task": 5, "dapply": 3, "resubmit": 5, "get": 2, "status": 2, "sleep": 4},
}


def gen(rng, prop):
    plan = common.base_plan(rng)
    n_eng = rng.choice([1, 2, 2, 3])
    n_cl = rng.choice([1, 2])
    plan["engines"] = [{"delay": 0} for _ in range(n_eng)]
    db = rng.choice(["dict", "sqlite"])
    plan["db"] = db
    plan["cfg"]["controller"]["IPController"] = {"db_class": DB[db]}
    plan["cfg"]["controller"]["TaskScheduler"] = {"hwm": rng.choice([0, 1, 1, 2])}
    if prop == "H07":
        plan["db"] = db = rng.choice(["dict", "dict", "dict", "no"])
        plan["cfg"]["controller"]["IPController"] = {"db_class": DB[db]}
        if db == "dict":
            plan["limits"] = lim = {"cull_fraction": rng.choice([0.1, 0.1, 0.3, 0.5, 0.01])}
            if rng.random() < 0.6:
                lim["record_limit"] = rng.choice([3, 5, 8, 12, 20])
            if rng.random() < 0.6:
                lim["size_limit"] = rng.choice([2000, 5000, 20000])
            plan["cfg"]["controller"]["DictDB"] = lim
    if prop == "H05":
        plan["queries"] = [a_query(rng) for _ in range(rng.randint(3, 10))]
    kinds = list(MIX[prop])
    weights = [MIX[prop][k] for k in kinds]
    durs = rng.choice([[0.0, 0.01], [0.05, 0.2], [0.0, 0.3, 1.0]])
    picky = set()
    everyone = [[] for _ in range(n_cl)]  # labels of each client
    plan["clients"] = []
    gens = [Gen(rng, prop, c, n_eng, durs, everyone, picky) for c in range(n_cl)]
    for g in gens:
        for _ in range(rng.randint(3, 12)):
            g.add(rng.choices(kinds, weights)[0])
    for g in gens:
        plan["clients"].append({"ops": g.ops, "wait_engines": n_eng, "delay": rng.choice([0, 0, 0.2])})
    # the observer only asks
    plan["clients"].append({"ops": [], "wait_engines": n_eng})
    faults = common.gen_faults(rng, n_eng, n_cl, deaths=rng.random() < 0.4)
    # timestamps of several hosts are compared
    plan["faults"] = [f for f in faults if f["kind"] not in ("clock",)]
    plan["recover_early"] = 1
    plan["quiesce"] = 150
    # messages of dead engines are failed after the registration timeout
    plan["tail"] = 36.0 if any(f["kind"] in ("kill_engine", "hb_drop") or f.get("dur", 0) > 2 for f in faults) else 6.0
    plan["max_prog"] = 400.0
    plan["taps"] = ["c.task", "e.task", "c.mux", "e.mux"]
    return plan


TIMES = ("submitted", "started", "completed", "received")
FIELDS = TIMES * 2 + ("msg_id", "msg_id", "client_uuid", "engine_uuid", "engine_uuid", "queue", "stdout", "resubmitted")
COLS = ("msg_id", "client_uuid", "engine_uuid", "submitted", "started", "completed", "received", "queue", "header",
        "metadata", "content", "buffers", "result_header", "result_metadata", "result_content", "result_buffers",
        "execute_input", "execute_result", "error", "stdout", "stderr", "resubmitted")


def a_query(rng):
    """conditions [field, operator, numbers of the records to take values from]"""
    conds = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        f = rng.choice(FIELDS)
        if any(c[0] == f for c in conds):
            continue
        ops = ["", "$eq", "$ne", "$in", "$nin"]
        if f in TIMES:
            ops = ["", "$ne", "$lt", "$gt", "$lte", "$gte", "$lt", "$gt", "none", "notnone"]
        elif f in ("engine_uuid", "resubmitted"):
            ops += ["none", "notnone"]
        elif f == "stdout":
            ops = ["$glob"]
        op = rng.choice(ops)
        conds.append([f, op, [rng.randrange(100) for _ in range(rng.choice([0, 1, 2, 3]))]])
        if f in TIMES and rng.random() < 0.3:
            conds[-1].append([rng.choice(["$lt", "$gte"]), rng.randrange(100)])
    keys = None if rng.random() < 0.5 else rng.sample(COLS, rng.randint(1, 5))
    return {"conds": conds, "keys": keys, "tz": rng.choice([0, 0, 2, -7, 14])}


class Gen:
    def __init__(self, rng, prop, c, n_eng, durs, everyone, picky):
        self.rng, self.prop, self.c, self.n_eng, self.durs = rng, prop, c, n_eng, durs
        self.everyone = everyone
        self.ops = []
        self.k = 0
        self.picky = picky  # may wait for other engines for as long as it takes

    def tag(self, x):
        self.k += 1
        t = f"c{self.c}{x}{self.k}"
        self.everyone[self.c].append(t)
        return t

    def labels(self, n=4):
        r = self.rng
        pool = []
        for c, ls in enumerate(self.everyone):
            if c == self.c or r.random() < 0.6:
                pool += ls[-5:]
        if not pool:
            return None
        return sorted(r.sample(pool, min(len(pool), r.randint(1, n))))

    def mode(self):
        x = self.rng.random()
        if x < 0.15:
            return {"mode": "fail"}
        if x < 0.22:
            return {"mode": "none"}
        return {}

    def add(self, kind):
        r = self.rng
        ops = self.ops
        if kind == "sleep":
            ops.append({"op": "sleep", "d": r.choice([0.01, 0.1, 0.5, 1.5])})
        elif kind == "task":
            op = {"op": "task", "tag": self.tag("t"), "dur": r.choice(self.durs), **self.mode()}
            x = r.random()
            if x < 0.15:
                op.update(mode="failn", arg=r.randint(1, 2), retries=r.randint(0, 2))
                self.picky.add(op["tag"])
            elif x < 0.25:
                op["dep"] = r.sample(range(self.n_eng), r.randint(1, self.n_eng))
                op["limit"] = self.n_eng
                self.picky.add(op["tag"])
            ops.append(op)
        elif kind == "print":
            tag = self.tag("o")
            op = {"op": r.choice(["task", "dapply"]), "tag": tag, "dur": r.choice(self.durs),
                  "mode": r.choice(["print", "printflush", "errprint"]), "arg": [f"{tag}-0", f"{tag}-1"]}
            if op["op"] == "dapply":
                op["targets"] = r.sample(range(self.n_eng), r.randint(1, self.n_eng))
            ops.append(op)
        elif kind == "dapply":
            t = r.choice([r.randrange(self.n_eng), r.sample(range(self.n_eng), r.randint(1, self.n_eng)), "all"])
            ops.append({"op": "dapply", "tag": self.tag("d"), "targets": t, "dur": r.choice(self.durs), **self.mode()})
        elif kind == "dexec":
            self.k += 1
            nm = f"x{self.c}_{r.randrange(2)}"
            ops.append({"op": "dexec", "tag": self.tag("e"), "nm": nm, "targets": r.choice([r.randrange(self.n_eng), "all"]),
                        "code": r.choice([f"{nm} = {self.k}", f"{nm} = {nm} + 1"])})
        elif kind == "queue":
            ops.append({"op": "call", "fn": "h_queue", "verbose": r.random() < 0.7})
        elif kind == "count":
            ops.append({"op": "call", "fn": "h_count"})
        elif kind == "history":
            ops.append({"op": "call", "fn": "h_history"})
        elif kind == "query":
            ops.append({"op": "call", "fn": "h_query", "which": r.choice(["client", "completed", "pending", "queue", "ids"]),
                        "keys": r.choice([None, ["msg_id", "engine_uuid"], ["completed", "result_buffers"]]),
                        "labels": self.labels() or []})
        elif kind == "abort":
            own = self.everyone[self.c][-4:]
            if own:
                ops.append({"op": "abort", "labels": r.sample(own, r.randint(1, len(own)))})
        else:
            lb = self.labels()
            if lb is None:
                return
            op = {"op": "call", "fn": "h_" + kind, "labels": lb}
            if kind == "status":
                op["so"] = r.random() < 0.5
            elif kind == "get":
                op["timeout"] = r.choice([0, 0.3, 2.0, 30.0, -1, -1])
                if self.picky.intersection(lb):
                    op["timeout"] = 10.0
                op["owner"] = r.random() < 0.3
                if r.random() < 0.25:
                    op["return_exceptions"] = True
                if r.random() < 0.3:
                    op["as_ar"] = True
            elif kind == "purge":
                x = r.random()
                if x < 0.1:
                    op["labels"] = "all"
                elif x < 0.25:
                    op["labels"] = []
                    op["targets"] = [r.randrange(self.n_eng)]
                if r.random() < 0.4:
                    # wait for them first
                    ops.append({"op": "cwait", "timeout": 60.0})
                    ops.append({"op": "sleep", "d": r.choice([0.3, 1.0])})
            elif kind == "resubmit":
                self.k += 1
                op["tag"] = self.tag("r")
                op["labels"] = [x for x in lb if x != op["tag"]][:2]
                op["timeout"] = r.choice([None, 0.5, 30.0, -1])
                if self.picky.intersection(op["labels"]):
                    op["timeout"] = 10.0
                    self.picky.add(op["tag"])
            ops.append(op)


# ---------------------------------------------------------------------------
# operations
# ---------------------------------------------------------------------------


def _err(e):
    from .actors import _rv

    d = _rv(e)
    if "error" not in d:
        d["error"] = "CompositeError"
    return d


def _try(fn):
    from . import core
    from .actors import _rv

    try:
        return {"v": _rv(fn())}
    except core.SimKilled:
        raise
    except Exception as e:
        return {"err": _err(e)}


def h_status(a, op, rec):
    ids = a.msgids(op["labels"])
    if not ids:
        return None
    local = [m for m in ids if m in a.rc.results]
    out = _try(lambda: a.rc.result_status(ids, status_only=op["so"]))
    from .actors import _rv

    # results that a failure keeps from being returned are in the client's cache
    cached = {m: _rv(a.rc.results[m]) for m in ids if m in a.rc.results}
    return {"ids": ids, "local": local, "cached": cached, **out}


def h_get(a, op, rec):
    rc = a.rc
    ids = a.msgids(op["labels"])
    if not ids:
        return None
    out = {"ids": ids, "mine": [m for m in ids if m in rc._futures]}
    arg = ids
    if op.get("as_ar") and op["labels"][0] in a.ars:
        arg = a.ars[op["labels"][0]]
        ids = out["ids"] = list(arg.msg_ids)
    elif len(ids) == 1:
        arg = ids[0]
    t0 = a.sim.now
    got = _try(lambda: rc.get_result(arg, block=False, owner=op["owner"]))
    if "err" in got:
        out["raised"] = got["err"]
        return out
    ar = rc.get_result(arg, block=False, owner=op["owner"])
    out["cls"] = type(ar).__name__
    out["ar_ids"] = list(ar.msg_ids)
    w = _try(lambda: ar.wait(op["timeout"]))
    out["wait"] = w
    out["dt"] = a.sim.now - t0
    out["tw"] = a.sim.now
    if w.get("v") is True:
        kw = {"return_exceptions": True} if op.get("return_exceptions") else {}
        out["get"] = _try(lambda: ar.get(5, **kw))
        out["successful"] = _try(lambda: ar.successful())
    return out


def h_queue(a, op, rec):
    out = _try(lambda: a.rc.queue_status(verbose=op["verbose"]))
    out["engines"] = dict(a.rc._engines)
    return out


def h_history(a, op, rec):
    return _try(lambda: a.rc.hub_history())


def _slim(recs, keys=None):
    out = []
    for r in recs:
        d = {}
        for k, v in r.items():
            if hasattr(v, "timestamp"):
                v = v.timestamp()
            if k in ("buffers", "result_buffers"):
                v = None if v is None else [bytes(b) for b in v].__len__()
            d[k] = v
        out.append(d)
    return out


def h_query(a, op, rec):
    ids = a.msgids(op["labels"])
    q = {"client": {"client_uuid": a.rc.session.session}, "completed": {"completed": {"$ne": None}},
         "pending": {"completed": None}, "queue": {"queue": "mux"}, "ids": {"msg_id": {"$in": ids}}}[op["which"]]
    out = _try(lambda: [r["msg_id"] for r in a.rc.db_query(q, op["keys"])])
    out["ids"] = ids
    out["session"] = a.rc.session.session
    return out


def h_count(a, op, rec):
    """how much the hub keeps at this moment"""

    def go():
        recs = a.rc.db_query({"msg_id": {"$ne": ""}}, ["submitted", "buffers", "result_buffers"])
        return {"n": len(recs), "bytes": sum(_size(r) for r in recs)}

    return _try(go)


def _size(r):
    return sum(len(b) for k in ("buffers", "result_buffers") for b in r[k] or ())


def _find(q, recs):
    """reference semantics of a query: MongoDB's"""
    out = []
    for r in recs:
        for f, c in q.items():
            v = r[f]
            tests = c if isinstance(c, dict) else {"$eq": c}
            if not all(_test(v, op, x) for op, x in tests.items()):
                break
        else:
            out.append(r)
    return out


def _test(v, op, x):
    import fnmatch

    if op == "$eq":
        return v == x
    if op == "$ne":
        return v != x
    if op == "$in":
        return v in x
    if op == "$nin":
        return v not in x
    if v is None:
        return False
    return {"$lt": lambda: v < x, "$gt": lambda: v > x, "$lte": lambda: v <= x, "$gte": lambda: v >= x,
            "$glob": lambda: fnmatch.fnmatchcase(v, x)}[op]()


def _resolve(spec, recs):
    from datetime import timedelta, timezone

    def val(f, i):
        v = recs[i % len(recs)][f] if recs else None
        if f in TIMES and v is not None:
            return v.astimezone(timezone(timedelta(hours=spec["tz"])))
        return v

    q = {}
    for f, op, ns, *more in spec["conds"]:
        vs = [v for v in (val(f, n) for n in ns) if v is not None]
        if op == "none":
            q[f] = None
        elif op == "notnone":
            q[f] = {"$ne": None}
        elif op in ("$in", "$nin"):
            q[f] = {op: vs}
        elif op == "$glob":
            q[f] = {op: (vs[0][:4] if vs and vs[0] else "c0") + "*"}
        elif vs:
            q[f] = {op: vs[0]} if op else vs[0]
            for op2, n in more:
                if val(f, n) is not None and op not in ("", op2):
                    q[f][op2] = val(f, n)
    return q


def ask_queries(rc, specs):
    """compare the answers to queries with the whole content of the database"""
    from ipyparallel.serialize import deserialize_object

    from .actors import _rv

    recs = sorted(rc.db_query({"msg_id": {"$ne": ""}}, list(COLS)), key=lambda r: r["msg_id"])
    out = []
    for spec in specs:
        q = _resolve(spec, recs)
        want = _find(q, recs)
        try:
            got = sorted(rc.db_query(q, spec["keys"]), key=lambda r: r["msg_id"])
        except Exception as e:
            out.append({"q": repr(q), "keys": spec["keys"], "err": _err(e)})
            continue
        o = {"q": repr(q), "keys": spec["keys"], "want": [r["msg_id"] for r in want], "got": [r["msg_id"] for r in got]}
        if o["want"] == o["got"]:
            cols = spec["keys"] or [c for c in COLS if not c.endswith("buffers")]
            o["cols"] = sorted({c for a, b in zip(want, got) for c in cols if c not in b or _plain(a[c]) != _plain(b[c])})
        out.append(o)
    data = {}
    for r in recs:
        d = {"error": r["error"], "xr": r["execute_result"]}
        if r["result_content"] and r["result_content"].get("status") == "ok" and r["queue"] and \
                r["header"]["msg_type"] == "apply_request":
            d["v"] = _rv(deserialize_object(r["result_buffers"])[0])
        data[r["msg_id"]] = d
    return {"answers": out, "data": data, "hist": rc.hub_history()}


def _plain(v):
    if isinstance(v, list):
        return [bytes(x) if isinstance(x, memoryview) else x for x in v]
    return v


def h_purge(a, op, rec):
    if op["labels"] == "all":
        kw = {"jobs": "all"}
    elif op.get("targets"):
        t = a.eids(op["targets"])
        if not t:
            return None
        kw = {"targets": t}
        rec["uuids"] = [a.rc._engines.get(i) for i in t]
    else:
        ids = a.msgids(op["labels"])
        if not ids:
            return None
        kw = {"jobs": ids}
    out = {"kw": kw, "uuids": rec.get("uuids")}
    out.update(_try(lambda: a.rc.purge_hub_results(**kw)))
    return out


def h_resubmit(a, op, rec):
    ids = a.msgids(op["labels"])
    if not ids:
        return None
    out = {"ids": ids}
    box = []

    def go():
        box.append(a.rc.resubmit(ids))

    t0 = a.sim.now
    out.update(_try(go))
    if "err" in out:
        return out
    ar = box[0]
    out["new"] = list(ar.msg_ids)
    sub = a.h("resubmitted", label=op["tag"], msg_ids=out["new"], of=ids, t0=t0)
    a.world.submits[op["tag"]] = sub
    sub["spec"] = dict(op, op="resubmit")
    if op["timeout"] is not None:
        out["wait"] = _try(lambda: ar.wait(op["timeout"]))
        if out["wait"].get("v") is True:
            out["get"] = _try(lambda: ar.get(5, return_exceptions=True))
    out["dt"] = a.sim.now - t0
    return out


CALLS = {f.__name__: f for f in (h_count, h_status, h_get, h_queue, h_history, h_query, h_purge, h_resubmit)}


def final(run):
    """everything the hub knows, asked by the observer once all is quiet"""
    w = run.world
    obs = run.actors[-1]

    def ask():
        from .actors import _rv

        rc = obs.rc
        out = {"queue": _try(lambda: rc.queue_status(verbose=True)), "counts": _try(lambda: rc.queue_status()),
               "history": _try(lambda: rc.hub_history()), "engines": dict(rc._engines)}
        recs = _try(lambda: _slim(rc.db_query({"msg_id": {"$ne": ""}})))
        out["records"] = recs
        if run.plan.get("queries"):
            out["asked"] = ask_queries(rc, run.plan["queries"])
        if "limits" in run.plan:
            out["kept"] = [[r["msg_id"], r["submitted"].timestamp(), _size(r)] for r in rc.db_query(
                {"msg_id": {"$ne": ""}}, ["submitted", "buffers", "result_buffers"])]
        res = {}
        for label, s in list(w.submits.items()):
            for m in s.get("msg_ids", ()):
                one = _try(lambda: rc.result_status([m], status_only=False))
                if m in rc.results:
                    one["res"] = _rv(rc.results[m])
                    md = rc.metadata[m]
                    one["md"] = {k: (md[k].timestamp() if hasattr(md[k], "timestamp") else md[k]) for k in
                                 ("engine_uuid", "stdout", "stderr", "submitted", "started", "completed", "status")}
                else:
                    one["so"] = _try(lambda: rc.result_status([m], status_only=True))
                res[m] = one
        out["res"] = res
        w.h("hubview", **out)

    run.in_client(obs, ask, 120)


def start(sim, plan, prop):
    from .actors import Run

    run = Run(sim, plan)
    run.calls.update(CALLS)
    run.calls["final"] = final
    sim.ctx["run"] = run
    sim.run(run.main)
    return run


# ---------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------
INF = float("inf")
# within this time a message gets to the hub, by way of its scheduler
LAT = {"fast": 0.05, "lan": 0.1, "jitter": 0.5, "wild": 1.5}


class HV(CV):
    def __init__(self, run):
        super().__init__(run)
        self.view = next((h for h in self.w.hist if h["k"] == "hubview"), None)
        self.reg_timeout = 30.0
        self.msg = {}  # msg id -> info
        for label, s in self.subs.items():
            sp = s["spec"]
            uu = s.get("uuids")
            for j, m in enumerate(s.get("msg_ids", ())):
                d = {"label": label, "sub": s, "op": sp["op"], "j": j, "c": s["c"], "ti": s["i"], "t0": s.get("t0", s["t"]),
                     "t": s["t"], "uuid": uu[j] if uu and sp["op"] in ("dapply", "dexec") else None, "done": INF,
                     "sp": sp}
                if self.done[m]:
                    d["done"] = self.done[m][0]["t"]
                f = self.fin(label) if s["k"] == "submit" else None
                if f is not None and f["ready"]:
                    d["kid"] = f["kids"][j]
                    d["md"] = f["md"][j]
                self.msg[m] = d
        self.aborts = [o["labels"] for c in self.plan["clients"] for o in c["ops"] if o["op"] == "abort"]
        self.purges = []  # (history index of op, t0, t1, predicate(msg id), ok)
        for o in self.ops:
            if o["op"] != "call" or not o.get("v"):
                continue
            op = self.plan["clients"][o["c"]]["ops"][o["n"]]
            if op["fn"] == "h_purge":
                self.purges.append((o["t0"], o["t"], o["v"], op))
        # purges that never returned may or may not have happened
        for h in self.w.hist:
            if h["k"] == "op" and h["op"] == "call":
                op = self.plan["clients"][h["c"]]["ops"][h["n"]]
                if op["fn"] == "h_purge" and not any(o["c"] == h["c"] and o["n"] == h["n"] for o in self.ops):
                    self.purges.append((h["t"], INF, {"kw": {"jobs": "all"}, "maybe": True}, op))

    def purged(self, m, by=INF):
        """'no', 'maybe' or 'yes' (surely purged before `by`)"""
        best = "no"
        d = self.msg[m]
        for t0, t1, v, op in self.purges:
            if t0 > by:
                continue
            kw = v["kw"]
            sure = "err" not in v and not v.get("maybe") and t1 <= by
            if kw.get("jobs") == "all":
                # drops what the hub knows to be completed
                if sure and self.late(m) < t0 - self.tol(t0, t1) and d["op"] != "resubmit":
                    best = "yes"
                elif d["t0"] < t1:
                    best = "maybe" if best == "no" else best
            elif kw.get("targets"):
                if d["t0"] < t1:
                    best = "maybe" if best == "no" else best
            elif m in kw["jobs"]:
                if sure and self.late(m) < t0 - self.tol(t0, t1):
                    best = "yes"
                elif "err" not in v:
                    best = "maybe" if best == "no" else best
        return best

    def calls(self, *fns):
        for o in self.ops:
            if o["op"] != "call" or o["c"] in self.dead_clients:
                continue
            op = self.plan["clients"][o["c"]]["ops"][o["n"]]
            if op["fn"] in fns:
                if o["status"] == "raise":
                    raise Bad("raised:" + op["fn"], f"{op} raised {o['err']}")
                if o.get("v") is not None:
                    yield o, op, o["v"]

    def tol(self, a, b):
        wild = 1.3 if self.plan["profile"]["lat"] == "wild" else 0
        return 0.5 + wild + self.slack(a, b)

    def ran(self, m, by):
        """could the hub know an outcome of m by then?"""
        d = self.msg[m]
        if d["op"] in ("dexec",):
            return True
        if d["op"] == "resubmit" or any(d["label"] in x for x in self.aborts):
            return True
        idx = self.idx_of.get(d["uuid"])
        tag = d["sp"]["tag"]
        if any(e["t"] <= by + EPS and (idx is None or e["eng"] == idx) for e in self.ends[tag]):
            return True
        gone = {u: t for u, t in list(self.unreg.items()) + list(self.deaths.items())}
        if d["uuid"] is not None:
            return d["uuid"] in gone
        return bool(gone) or d["sp"].get("dep") is not None or d["sp"].get("mode") == "nopickle"

    def late(self, m):
        """when the hub must know the outcome at the latest"""
        d = self.msg[m]
        if d["done"] == INF:
            return INF
        t = d["done"] + 1.0
        k = d.get("kid")
        if isinstance(k, dict) and k.get("error") == "EngineError" and d["uuid"] is not None:
            t += self.reg_timeout + 1
        return t


def norm(v):
    if isinstance(v, dict) and "error" in v:
        return {"error": v["error"], "evalue": v.get("evalue")}
    return v


def same(cv, m, got):
    """the hub's result for m against the one its submitter got"""
    d = cv.msg[m]
    if d["op"] == "resubmit":
        return None
    if "kid" not in d:
        return None
    kid, got = norm(d["kid"]), norm(got)
    if kid == got:
        return None
    ee = {"EngineError"}
    # an engine lost while its result was on the way: each side may have seen
    # the loss first
    u = d["uuid"]
    lost = u in cv.gone if u else bool(cv.gone)
    if lost and d["uuid"] is not None and isinstance(kid, dict) and kid["error"] in ee:
        return None
    if isinstance(kid, dict) and isinstance(got, dict) and kid["error"] == got["error"] and kid["error"] in ee:
        return None
    if d["op"] == "dexec" and not isinstance(kid, dict) and not isinstance(got, dict):
        return None  # ExecuteReply objects
    return f"the hub's result of {d['label']} {m} is {got}, its submitter got {kid}"


def check_stuck(cv):
    from .scn_client import stuck_ops

    if not cv.stuck:
        return
    c = sorted(cv.stuck)[0]
    last = [h for h in cv.w.hist if h["k"] == "op" and h["c"] == c]
    op = cv.plan["clients"][c]["ops"][last[-1]["n"]] if last else None
    raise Bad("hung:" + (op.get("fn", op["op"]) if op else "start"), f"client {c} blocked forever in {op}")


def check_basic(cv):
    for h in cv.w.hist:
        if h["k"] == "final_err":
            raise Bad("final-error", f"looking at the hub's state raised {h['err']}\n{h['tb']}")
        if h["k"] == "final_stuck":
            raise Bad("final-stuck", f"client {h['c']} blocked asking the hub")
    check_stuck(cv)
    if cv.view is None:
        raise Bad("no-view", "the hub's state could not be read")


def unknown_ok(cv, m, t0, t1):
    """may the hub not know m?"""
    d = cv.msg[m]
    if cv.purged(m, t1) != "no":
        return True
    if d["t"] > t0 - cv.tol(t0, t1):
        return True
    # never recorded: sent to an engine that the hub had unregistered by then
    return d["uuid"] is not None and d["uuid"] in cv.unreg


def status_reply(cv, o, op, v, ids, completed, pending):
    t0, t1 = o["t0"], o["t"]
    tol = cv.tol(t0, t1)
    if sorted(set(completed) | set(pending)) != sorted(set(ids)) or set(completed) & set(pending):
        raise Bad("status-partition", f"{op}: asked {ids}, completed {completed}, pending {pending}")
    for m in completed:
        if not cv.ran(m, t1):
            raise Bad("early-completed", f"{op}: {cv.msg[m]['label']} {m} completed at {t1:.3f}, not finished by then")
        if cv.purged(m, t0) == "yes" and not op.get("so") and m not in v.get("local", ()):
            raise Bad("purged-found", f"{op}: {m} had been purged")
    for m in pending:
        if m in v.get("local", ()):
            raise Bad("local-pending", f"{op}: {m} is in the client's cache but pending")
        if cv.late(m) < t0 - tol and cv.purged(m, t1) == "no":
            raise Bad("late-pending", f"{op}: {cv.msg[m]['label']} {m} pending at {t0:.3f}, resolved at {cv.msg[m]['done']:.3f}")


def check_status(cv):
    for o, op, v in cv.calls("h_status"):
        ids = v["ids"]
        t0, t1 = o["t0"], o["t"]
        for m, got in v["cached"].items():
            bad = same(cv, m, got)
            if bad:
                raise Bad("wrong-result", f"{op}: {bad}")
        if "err" in v:
            e = v["err"]
            if e["error"] == "KeyError" and not any(m in v["cached"] and norm(v["cached"][m]) == norm(e) for m in ids):
                if not any(unknown_ok(cv, m, t0, t1) for m in ids):
                    raise Bad("unknown", f"{op}: {e}")
                continue
            kids = [norm(v["cached"][m]) for m in ids if m in v["cached"]]
            if op["so"] or not any(isinstance(k, dict) for k in kids):
                raise Bad("status-raised", f"{op} raised {e}, results {kids}")
            continue
        r = v["v"]
        if not op["so"] and any(isinstance(v["cached"].get(m), dict) and m not in v["local"] for m in r["completed"]):
            raise Bad("error-hidden", f"{op} gave {r}")
        status_reply(cv, o, op, v, ids, r["completed"], r["pending"])


def check_get(cv):
    for o, op, v in cv.calls("h_get"):
        ids = v["ids"]
        t0, t1 = o["t0"], v.get("tw", o["t"])
        if "raised" in v:
            raise Bad("get-raised", f"{op}: get_result({ids}) raised {v['raised']}")
        if v["ar_ids"] != ids:
            raise Bad("get-ids", f"{op}: asked for {ids}, got a result for {v['ar_ids']}")
        w = v["wait"]
        unk = [m for m in ids if unknown_ok(cv, m, t0, t1)]
        if "err" in w:
            if w["err"]["error"] == "KeyError" and unk:
                continue
            raise Bad("wait-raised", f"{op}: wait raised {w['err']}")
        to = op["timeout"]
        tol = cv.tol(t0, t1)
        if to >= 0 and v["dt"] > to + 0.6 + tol:
            raise Bad("overslept", f"{op}: wait took {v['dt']:.3f}")
        if w["v"] is False:
            if to < 0:
                raise Bad("wait-false", f"{op}: wait without timeout gave False")
            if not unk and all(cv.late(m) < t0 - tol for m in ids):
                raise Bad("wait-missed", f"{op}: wait gave False at {t1:.3f}, all resolved by {max(cv.msg[m]['done'] for m in ids):.3f}")
            continue
        for m in ids:
            if not cv.ran(m, t1):
                raise Bad("early-result", f"{op}: {m} claimed at {t1:.3f}, not finished by then")
        g = v["get"]
        kids = [cv.msg[m].get("kid") for m in ids]
        if any(k is None and cv.msg[m].get("kid", 0) == 0 for k, m in zip(kids, ids)):
            continue
        if any(cv.msg[m]["op"] in ("dexec", "resubmit") or cv.msg[m]["uuid"] in cv.gone for m in ids):
            continue
        kids = [norm(k) for k in kids]
        errs = [k for k in kids if isinstance(k, dict)]
        single = len(ids) == 1
        if "err" in g:
            if any(k and k["error"] == "TaskAborted" for k in errs) and errs:
                continue
            if not errs or op.get("return_exceptions"):
                raise Bad("get-raised", f"{op}: get raised {g['err']}, results {kids}")
            continue
        if errs and not op.get("return_exceptions"):
            raise Bad("error-hidden", f"{op}: get gave {g['v']}, results {kids}")
        got = g["v"]
        if single and not (isinstance(got, list) and len(got) == 1):
            got = [got]
        if [norm(x) for x in got] != kids:
            raise Bad("wrong-result", f"{op}: get gave {got}, submitters got {kids}")


def check_final_results(cv):
    for m, d in cv.msg.items():
        r = cv.view["res"].get(m)
        if r is None or d["c"] in cv.dead_clients:
            continue
        p = cv.purged(m)
        if "res" in r:
            if p == "yes":
                raise Bad("purged-found", f"{d['label']} {m} was purged but the hub still has {r['res']}")
            bad = same(cv, m, r["res"])
            if bad:
                raise Bad("wrong-result", bad)
            continue
        if d["done"] == INF and d["op"] != "resubmit":
            continue
        e = r.get("err")
        if e is not None:
            if e["error"] == "KeyError" and (p != "no" or (d["uuid"] is not None and d["uuid"] in cv.unreg)):
                continue
            raise Bad("unavailable", f"{d['label']} {m}: the hub answers {e}, its submitter got {d.get('kid')}")
        if m in r["v"]["pending"]:
            if p == "yes":
                raise Bad("purged-pending", f"{d['label']} {m} was purged and is now pending forever")
            if p == "maybe":
                continue
            raise Bad("pending-forever", f"{d['label']} {m} is pending at the hub, its submitter got {d.get('kid')}")
        raise Bad("unavailable", f"{d['label']} {m}: {r}")


def check_H01(cv):
    check_basic(cv)
    check_status(cv)
    check_get(cv)
    check_final_results(cv)


# ---------------------------------------------------------------------------
def check_queue(cv, q, t0, t1, final=False):
    tol = cv.tol(t0, t1)
    seen = {}
    for eid, st in q.items():
        if eid == "unassigned":
            for m in st:
                if cv.msg.get(m) and cv.late(m) < t0 - tol:
                    raise Bad("queue-stale", f"{m} unassigned at {t0:.3f}, resolved at {cv.msg[m]['done']:.3f}")
            continue
        for cat in ("queue", "tasks", "completed"):
            for m in st[cat]:
                if m not in cv.msg:
                    continue
                d = cv.msg[m]
                if cat == "completed":
                    if st[cat].count(m) > 1:
                        raise Bad("queue-dup", f"engine {eid}: {m} is completed {st[cat].count(m)} times")
                    if not cv.ran(m, t1):
                        raise Bad("queue-early", f"{m} completed on {eid} at {t1:.3f}, not finished by then")
                elif cv.late(m) < t0 - tol:
                    raise Bad("queue-stale", f"{d['label']} {m} in {cat} of engine {eid} at {t0:.3f}, resolved at "
                              f"{d['done']:.3f}")
                if (m in seen and seen[m] != (eid, cat)) and final:
                    raise Bad("queue-twice", f"{d['label']} {m} is in {cat} of engine {eid} and in {seen[m]}")
                seen[m] = (eid, cat)


def check_H02(cv):
    check_basic(cv)
    for o, op, v in cv.calls("h_queue"):
        if "err" in v:
            raise Bad("queue-raised", f"{op} raised {v['err']}")
        if op["verbose"]:
            check_queue(cv, v["v"], o["t0"], o["t"])
        else:
            for eid, st in v["v"].items():
                if eid != "unassigned" and any(st[c] < 0 for c in st):
                    raise Bad("queue-negative", f"{eid}: {st}")
    vw = cv.view
    if "err" in vw["queue"] or "err" in vw["counts"]:
        raise Bad("queue-raised", f"{vw['queue']} {vw['counts']}")
    q = vw["queue"]["v"]
    check_queue(cv, q, vw["t"], vw["t"], True)
    for eid, st in vw["counts"]["v"].items():
        want = len(q[eid]) if eid == "unassigned" else {c: len(q[eid][c]) for c in q[eid]}
        if st != want:
            raise Bad("queue-counts", f"engine {eid}: {st}, listed {q[eid]}")
    recs = vw["records"]
    if "err" in recs:
        raise Bad("query-raised", f"{recs['err']}")
    by = {r["msg_id"]: r for r in recs["v"]}
    if len(by) != len(recs["v"]):
        raise Bad("record-dup", "a message has several records")
    # completed lists hold what ran there
    for m, d in cv.msg.items():
        if d["op"] not in ("task", "dapply") or "kid" not in d or d["c"] in cv.dead_clients:
            continue
        if isinstance(d["kid"], dict) and d["kid"]["error"] == "EngineError":
            continue
        u = d["md"]["engine_uuid"]
        if u is None or u in cv.gone:
            continue
        if d["kid"] is not None and isinstance(d["kid"], dict) and d["kid"]["error"] in ("ImpossibleDependency", "TaskTimeout"):
            continue
        eid = next((k for k, x in vw["engines"].items() if x == u), None)
        if eid is None or str(eid) not in q:
            continue
        if m not in q[str(eid)]["completed"]:
            raise Bad("queue-lost", f"{d['label']} {m} ran on engine {eid} but is not among its completed {q[str(eid)]}")
    hist = vw["history"]
    if "err" in hist:
        raise Bad("history-raised", f"{hist['err']}")
    hist = hist["v"]
    if len(set(hist)) != len(hist):
        raise Bad("history-dup", f"{hist}")
    for m in cv.msg:
        d = cv.msg[m]
        if d["c"] in cv.dead_clients:
            continue
        rec = by.get(m)
        if rec is None:
            if d["uuid"] is not None and d["uuid"] in cv.unreg:
                continue
            raise Bad("record-missing", f"{d['label']} {m} has no record")
        if m not in hist:
            raise Bad("history-missing", f"{d['label']} {m} is not in the history")
        record(cv, m, d, rec)
    order = [by[m]["submitted"] for m in hist if m in by]
    if order != sorted(order):
        raise Bad("history-order", f"history is not ordered by submission: {order}")
    for o, op, v in cv.calls("h_history"):
        if "err" in v:
            raise Bad("history-raised", f"{v['err']}")
        for m, d in cv.msg.items():
            if d["t"] < o["t0"] - cv.tol(o["t0"], o["t"]) and m not in v["v"] and not (d["uuid"] in cv.unreg):
                raise Bad("history-missing", f"{d['label']} {m} submitted {d['t']:.3f}, not in the history at {o['t0']:.3f}")
    for o, op, v in cv.calls("h_query"):
        if "err" in v:
            raise Bad("query-raised", f"{op}: {v['err']}")
        check_query(cv, o, op, v)


def check_query(cv, o, op, v):
    t0, t1 = o["t0"], o["t"]
    tol = cv.tol(t0, t1)
    got = set(v["v"])
    if len(got) != len(v["v"]):
        raise Bad("query-dup", f"{op}: {v['v']}")
    w = op["which"]
    for m, d in cv.msg.items():
        old = d["t"] < t0 - tol and not (d["uuid"] in cv.unreg)
        if w == "client":
            sess = v["session"]
            if (m in got) and not m.startswith(sess):
                raise Bad("query-extra", f"{op}: {m} is of another client")
            if old and m.startswith(sess) and m not in got:
                raise Bad("query-missing", f"{op}: {d['label']} {m}")
        elif w == "completed":
            if m in got and not cv.ran(m, t1):
                raise Bad("query-early", f"{op}: {d['label']} {m} completed")
            if cv.late(m) < t0 - tol and old and m not in got:
                raise Bad("query-missing", f"{op}: {d['label']} {m} is completed")
        elif w == "pending":
            if m in got and cv.late(m) < t0 - tol:
                raise Bad("query-late", f"{op}: {d['label']} {m} resolved at {d['done']:.3f}")
        elif w == "queue":
            if m in got and d["op"] not in ("dapply", "dexec"):
                raise Bad("query-extra", f"{op}: {d['label']} {m}")
            if old and d["op"] in ("dapply", "dexec") and m not in got:
                raise Bad("query-missing", f"{op}: {d['label']} {m}")
        elif w == "ids":
            if m in got and m not in v["ids"]:
                raise Bad("query-extra", f"{op}: {d['label']} {m}")
            if old and m in v["ids"] and m not in got:
                raise Bad("query-missing", f"{op}: {d['label']} {m}")


def record(cv, m, d, rec):
    """one task record against what happened"""
    who = f"record of {d['label']} {m}"
    if rec["client_uuid"] != m.rsplit("_", 2)[0] and not m.startswith(rec["client_uuid"] or "?"):
        raise Bad("record-client", f"{who}: client {rec['client_uuid']}")
    if rec["submitted"] is None:
        raise Bad("record-submitted", f"{who} has no submission time")
    if not d["t0"] - 0.1 <= rec["submitted"] - EPOCH <= d["t"] + 0.1 + cv.slack(d["t0"], d["t"]):
        raise Bad("record-submitted", f"{who}: submitted {rec['submitted']}")
    if "kid" not in d:
        return
    kid = d["kid"]
    lost = isinstance(kid, dict) and kid["error"] in ("EngineError",)
    if rec["completed"] is None:
        raise Bad("record-incomplete", f"{who}: not completed, submitter got {kid}")
    if not lost:
        u = d["md"]["engine_uuid"]
        if u and rec["engine_uuid"] != u and not (u in cv.gone):
            raise Bad("record-engine", f"{who}: engine {rec['engine_uuid']}, ran on {u}")
        ts = [rec[k] for k in ("submitted", "started", "completed", "received")]
        if any(t is not None for t in ts[1:2]):
            for a, b in zip(ts, ts[1:]):
                if a is not None and b is not None and a > b + EPS:
                    raise Bad("record-times", f"{who}: submitted, started, completed, received are {ts}")
        st = (rec["result_content"] or {}).get("status")
        want = "error" if isinstance(kid, dict) else "ok"
        if st != want and u not in cv.gone:
            raise Bad("record-status", f"{who}: status {st}, submitter got {kid}")
    sp = d["sp"]
    if sp.get("mode") in ("print", "printflush", "errprint") and not cv.gone and settled(cv, d):
        so = "".join(x + "\n" for x in sp["arg"])
        se = "".join("E" + x + "\n" for x in sp["arg"]) if sp["mode"] == "errprint" else ""
        if rec["stdout"] != so or rec["stderr"] != se:
            raise Bad("record-output", f"{who}: stdout {rec['stdout']!r} stderr {rec['stderr']!r}, printed {so!r} {se!r}")


def settled(cv, d):
    """the hub's subscription reached the engine before the task printed"""
    reg = {h["uuid"]: h["t"] for h in cv.w.hist if h["k"] == "reg"}
    u = d["md"]["engine_uuid"]
    return u in reg and d["t"] >= reg[u] + 4 + cv.slack(reg[u] - 4, reg[u] + 4)


# ---------------------------------------------------------------------------
def check_H03(cv):
    check_basic(cv)
    for t0, t1, v, op in cv.purges:
        if v.get("maybe"):
            continue
        kw = v["kw"]
        tol = cv.tol(t0, t1)
        if "err" in v:
            e = v["err"]
            if e["error"] == "IndexError" and isinstance(kw.get("jobs"), list):
                if all(cv.late(m) < t0 - tol for m in kw["jobs"]):
                    raise Bad("purge-refused", f"{op}: {e}, but all were resolved")
                continue
            if e["error"] in ("IndexError",) and kw.get("targets") and cv.gone:
                continue
            raise Bad("purge-raised", f"{op} raised {e}")
        if isinstance(kw.get("jobs"), list):
            for m in kw["jobs"]:
                d = cv.msg[m]
                if not cv.ran(m, t1) and d["t"] < t0 - tol:
                    raise Bad("purge-pending", f"{op}: {d['label']} {m} was purged while pending")
    check_status(cv)
    check_get(cv)
    check_final_results(cv)
    recs = cv.view["records"]
    if "err" in recs:
        raise Bad("query-raised", f"{recs['err']}")
    have = {r["msg_id"] for r in recs["v"]}
    tg = [(t0, t1, v["uuids"]) for t0, t1, v, op in cv.purges if v["kw"].get("targets") and "err" not in v]
    for m, d in cv.msg.items():
        if d["c"] in cv.dead_clients or d["op"] == "resubmit":
            continue
        p = cv.purged(m)
        if p == "yes" and m in have:
            # (named before the hub had heard of it)
            if not any(isinstance(v["kw"].get("jobs"), list) and m in v["kw"]["jobs"] and "err" not in v
                       and d["t"] > t0 - cv.tol(t0, t1) for t0, t1, v, op in cv.purges):
                raise Bad("purged-record", f"{d['label']} {m} was purged but has a record")
        if p == "no" and m not in have and not (d["uuid"] in cv.unreg):
            raise Bad("record-lost", f"{d['label']} {m} was never purged but has no record")
        u = (d.get("md") or {}).get("engine_uuid")
        for t0, t1, us in tg:
            if u in us and u not in cv.gone and cv.late(m) < t0 - cv.tol(t0, t1) and m in have:
                raise Bad("purged-record", f"{d['label']} {m} ran on a purged engine before, but has a record")
        if tg and p == "maybe" and m not in have and u and not any(u in us for _, _, us in tg) and not any(
                v["kw"].get("jobs") == "all" or m in (v["kw"].get("jobs") or ()) for _, _, v, _ in cv.purges):
            raise Bad("record-lost", f"{d['label']} {m} ran on {u}, which was not purged, but has no record")


# ---------------------------------------------------------------------------
def check_H04(cv):
    check_basic(cv)
    claimed = defaultdict(dict)  # tag -> run number -> message
    times = defaultdict(int)
    for o, op, v in cv.calls("h_resubmit"):
        ids = v["ids"]
        t0, t1 = o["t0"], o["t"]
        if "err" in v:
            e = v["err"]
            if e["error"] == "KeyError" and any(unknown_ok(cv, m, t0, t1) or "_r" in m for m in ids):
                continue
            raise Bad("resubmit-raised", f"{op} raised {e}")
        new = v["new"]
        if len(new) != len(ids) or set(new) & set(cv.msg) - set(new) or set(new) & set(ids):
            raise Bad("resubmit-ids", f"{op}: {ids} became {new}")
        for m, n in zip(ids, new):
            times[root(cv, m)["label"], root(cv, m)["j"]] += 1
    for m, d in cv.msg.items():
        if d["op"] != "resubmit":
            continue
        org = cv.msg.get(d["sub"]["of"][d["j"]])
        r0 = root(cv, d["sub"]["of"][d["j"]])
        if r0["op"] == "dexec":
            continue
        res = cv.view["res"].get(m)
        if res is None:
            continue
        tag = r0["sp"]["tag"]
        if "res" not in res:
            raise Bad("resubmit-lost", f"{d['label']} {m}, a resubmission of {org['label']}: the hub answers "
                      f"{res.get('err') or res.get('v')}")
        got = norm(res["res"])
        mode = r0["sp"].get("mode", "ok")
        if isinstance(got, dict):
            if got["error"] == "EngineError" and cv.gone:
                continue
            if got["error"] == "TaskFailed" and mode in ("fail", "failn", "failon"):
                continue
            if got["error"] in ("UnmetDependency",) and r0["sp"].get("dep") is not None:
                continue
            raise Bad("resubmit-error", f"{d['label']} {m}, a resubmission of {org['label']}: {got}")
        if mode == "none":
            if got is not None:
                raise Bad("resubmit-value", f"{m}: {got}")
            continue
        if not (isinstance(got, list) and got[:2] == ["r", tag]):
            raise Bad("resubmit-value", f"{m}: {got}, of task {tag}")
        n = got[3]
        ex = [h for h in cv.execs[tag] if h["n"] == n]
        if not ex or ex[0]["t"] < d["sub"]["t0"] - EPS:
            raise Bad("resubmit-old", f"{m} resubmitted at {d['sub']['t0']:.3f} has the result of an earlier run {got}")
        if n in claimed[tag]:
            raise Bad("resubmit-shared", f"{m} and {claimed[tag][n]} both have the result of run {n} of {tag}")
        claimed[tag][n] = m
    for m, d in cv.msg.items():
        if d["op"] in ("task", "dapply") and not cv.gone and not d["sp"].get("retries") and d["sp"].get("dep") is None:
            tag = d["sp"]["tag"]
            k = len(d["sub"]["msg_ids"])
            more = sum(n for (lb, j), n in times.items() if lb == d["label"])
            runs = len(cv.execs[tag])
            if d["done"] < INF and runs != k + more:
                raise Bad("resubmit-runs", f"{d['label']}: {k} message(s), {more} resubmission(s) but {runs} executions")
    check_status(cv)
    check_get(cv)
    check_final_results(cv)


def root(cv, m):
    d = cv.msg[m]
    while d["op"] == "resubmit":
        d = cv.msg[d["sub"]["of"][d["j"]]]
    return d


def check_H05(cv):
    check_basic(cv)
    asked = cv.view["asked"]
    for a in asked["answers"]:
        if "err" in a:
            raise Bad("query-raised", f"{a['q']} keys {a['keys']} raised {a['err']}")
        if a["got"] != a["want"]:
            raise Bad("query-wrong", f"{a['q']} gave {a['got']}, matching are {a['want']}")
        if a["cols"]:
            raise Bad("query-columns", f"{a['q']} keys {a['keys']}: columns {a['cols']} differ from the records")
    for m, d in asked["data"].items():
        x = cv.msg.get(m)
        if d["error"] is not None and not (isinstance(d["error"], dict) and "ename" in d["error"]):
            raise Bad("record-error", f"record of {m}: error is {d['error']!r}")
        if d["xr"] is not None and not isinstance(d["xr"], dict):
            raise Bad("record-xr", f"record of {m}: execute_result is {d['xr']!r}")
        if x is not None and "v" in d:
            bad = same(cv, m, d["v"])
            if bad:
                raise Bad("wrong-result", bad)
    if sorted(asked["hist"]) != sorted(asked["data"]):
        raise Bad("history-records", f"history {asked['hist']} but records {sorted(asked['data'])}")


def check_H07(cv):
    check_basic(cv)
    lim = cv.plan.get("limits")
    if lim is None:
        # nothing is stored: says so, and does not get into the way
        for o, op, v in cv.calls("h_count"):
            if "err" not in v:
                raise Bad("nodb-found", f"{v}")
        resolved_all(cv)
        return
    n = lim.get("record_limit", 1024)
    size = lim.get("size_limit", 1024**3)
    frac = lim["cull_fraction"]
    for o, op, v in cv.calls("h_count"):
        if "err" in v:
            raise Bad("query-raised", f"{op}: {v['err']}")
        if v["v"]["n"] > n or v["v"]["bytes"] > size:
            raise Bad("over-limit", f"{v['v']} stored at {o['t']:.3f}, limits are {n} records, {size} bytes")
    kept = cv.view["kept"]
    b = sum(x[2] for x in kept)
    if len(kept) > n or b > size:
        raise Bad("over-limit", f"{len(kept)} records, {b} bytes at the end, limits are {n} records, {size} bytes")
    have = {x[0] for x in kept}
    lost = [m for m, d in cv.msg.items() if m not in have and d["c"] not in cv.dead_clients
            and not (d["uuid"] in cv.unreg) and d["op"] != "resubmit"]
    resub = any(d["op"] == "resubmit" for d in cv.msg.values())
    if lost and kept and not resub and not cv.gone:
        # the oldest of those it knows: one submitted earlier may have reached the hub later
        when, oldest = min((x[1] - EPOCH, x[0]) for x in kept)
        there = max(when, cv.msg[oldest]["t"] if oldest in cv.msg else when)
        there += LAT[cv.plan["profile"]["lat"]] + cv.slack(when, there)
        oldest = when
        for m in lost:
            d = cv.msg[m]
            if d["t0"] > there:
                raise Bad("culled-newer", f"{d['label']} {m} submitted {d['t0']:.4f} was culled, kept one of {oldest:.4f}")
        biggest = max(x[2] for x in kept)
        if len(kept) < n - max(1, int(n * frac)) and b < size * (1 - frac) - max(4000, 2 * biggest):
            raise Bad("culled-much", f"only {len(kept)} records, {b} bytes left; limits {lim}")
    if lost and len(cv.msg) <= n and not resub and lim.get("size_limit") is None:
        raise Bad("culled-early", f"{len(cv.msg)} messages, limit {n}, but {lost} are gone")
    resolved_all(cv)


def resolved_all(cv):
    for m, d in cv.msg.items():
        if d["op"] != "resubmit" and d["c"] not in cv.dead_clients and d["done"] == INF and not d["sp"].get("retries") \
                and d["sp"].get("dep") is None:
            raise Bad("unresolved", f"{d['label']} {m} was never resolved")


CHECKS = {"H05": check_H05, "H07": check_H07, "H01": check_H01, "H02": check_H02, "H03": check_H03, "H04": check_H04}


def judge(run, prop):
    cv = HV(run)
    run.sim.ctx["nontrivial"] = sum(len(v) for v in cv.execs.values()) >= 2
    CHECKS[prop](cv)
