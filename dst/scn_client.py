"""The client's view of the system: what a user of Client, the views and
AsyncResults observes (C properties, and E04)."""

from collections import defaultdict

from . import common
from .common import Bad

EPS = 1e-4

# operation mix per property
MIX = {
    "E04": {"dapply": 6, "bapply": 4, "task": 2, "dexec": 2, "bexec": 1, "pushpull": 2, "sg": 1, "map": 1,
            "get": 2, "cwait": 1, "sleep": 3, "wait": 1},
    "C01": {"dapply": 3, "task": 4, "map": 1, "bapply": 1, "wait": 4, "get": 4, "arq": 4, "sleep": 2},
    "C02": {"dapply": 3, "task": 4, "map": 2, "bapply": 2, "dexec": 1, "cwait": 5, "outq": 3, "sleep": 2, "get": 1},
    "C03": {"map": 4, "dmap": 2, "imap": 4, "iterate": 2, "task": 1, "get": 1, "sleep": 1},
    "C04": {"dapply": 3, "dexec": 3, "pushpull": 6, "sg": 3, "get": 2, "sleep": 2},
    "C05": {"bapply": 7, "bexec": 2, "bpushpull": 3, "bsg": 1, "bmap": 1, "get": 2, "sleep": 2, "dapply": 1},
    "C06": {"print": 8, "bprint": 1, "dapply": 1, "owait": 4, "get": 1, "sleep": 2},
    "C07": {"dapply": 6, "task": 4, "bapply": 1, "abort": 4, "get": 1, "sleep": 3},
    "C08": {"executor": 4, "task": 2, "sleep": 1, "imap": 1},
}


def gen(rng, prop):
    plan = common.base_plan(rng)
    plan["profile"]["line_p"] = rng.choice([0.0, 0.0, 0.002, 0.01, 0.04])
    n_eng = rng.choice([1, 2, 2, 3, 3, 4])
    if prop == "C05":
        n_eng = rng.choice([1, 2, 3, 4, 5, 6])
    n_cl = 1
    if prop in ("C04", "C06", "C07") and rng.random() < 0.4:
        n_cl = 2
    plan["engines"] = [{"delay": rng.choice([0, 0, 0.3])} for _ in range(n_eng)]
    depth = 0
    if prop in ("C05", "E04"):
        depth = rng.choice([0, 0, 1, 1, 2]) if prop == "C05" else rng.choice([0, 0, 0, 1])
    if depth:
        plan["cfg"]["controller"]["IPController"] = {"broadcast_scheduler_depth": depth}
    plan["depth"] = depth
    hwm = rng.choice([0, 1, 1, 2])
    plan["cfg"]["controller"]["TaskScheduler"] = {"hwm": hwm}
    mix = dict(MIX[prop])
    kinds = list(mix)
    weights = [mix[k] for k in kinds]
    durs = rng.choice([[0.0, 0.01], [0.05, 0.2], [0.0, 0.3, 1.0], [0.0, 0.02, 0.5]])
    plan["clients"] = []
    for c in range(n_cl):
        g = Gen(rng, prop, c, n_eng, durs)
        n = rng.randint(3, 14)
        if rng.random() < 0.15:
            n = rng.randint(15, 25)
        for i in range(n):
            g.add(rng.choices(kinds, weights)[0])
        plan["clients"].append({"ops": g.ops, "wait_engines": n_eng, "delay": rng.choice([0, 0, 0.2])})
        if prop == "C06":
            # the subscription to the output must have got through
            plan["clients"][-1]["settle"] = 5.0
    deaths = prop == "E04" or (prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08") and rng.random() < 0.25)
    faults = common.gen_faults(rng, n_eng, n_cl, deaths=deaths)
    if prop == "E04" and not any(f["kind"] == "kill_engine" for f in faults):
        faults.append({"kind": "kill_engine", "eng": rng.randrange(n_eng), "at": round(rng.uniform(0, 3), 3)})
    if prop in ("C07",):
        faults = [f for f in faults if f["kind"] != "start_engine"]
    if prop == "C06":
        plan["want_output"] = 1
        for f in faults:
            if f["kind"] != "start_engine":
                f["at"] += 5.0
    plan["faults"] = faults
    plan["recover_early"] = 1
    plan["quiesce"] = 150
    plan["max_prog"] = 400.0
    plan["taps"] = ["c.task", "e.task", "c.mux", "e.mux"]
    return plan


class Gen:
    """Random client program."""

    def __init__(self, rng, prop, c, n_eng, durs):
        self.rng = rng
        self.prop = prop
        self.c = c
        self.n_eng = n_eng
        self.durs = durs
        self.ops = []
        self.labels = []
        self.k = 0

    def tag(self, x):
        self.k += 1
        t = f"c{self.c}{x}{self.k}"
        self.labels.append(t)
        return t

    def targets(self, multi=True):
        r = self.rng
        x = r.random()
        if x < 0.25 and multi:
            return "all"
        if x < 0.5:
            return r.randrange(self.n_eng)
        return r.sample(range(self.n_eng), r.randint(1, self.n_eng))

    def mtargets(self):
        t = self.targets()
        return [t] if isinstance(t, int) else t

    def pick(self):
        if not self.labels:
            return None
        r = self.rng
        return r.choice(self.labels[-4:] if r.random() < 0.7 else self.labels)

    def timeout(self):
        return self.rng.choice([0, 0.05, 0.3, 1.0, 5.0, 60.0, -1, -1])

    def mode(self):
        r = self.rng
        x = r.random()
        if x < 0.15:
            return {"mode": "fail"}
        if x < 0.22:
            return {"mode": "failon", "arg": sorted(r.sample(range(self.n_eng), r.randint(1, self.n_eng)))}
        if x < 0.3:
            return {"mode": "none"}
        if x < 0.33:
            return {"mode": "badres"}
        if x < 0.36:
            return {"mode": "slowres"}
        if x < 0.38:
            return {"mode": "nopickle"}
        if x < 0.41:
            return {"mode": "compfail"}
        return {}

    def add(self, kind):
        r = self.rng
        ops = self.ops
        if kind == "sleep":
            ops.append({"op": "sleep", "d": r.choice([0.005, 0.05, 0.3, 1.0])})
        elif kind == "dapply":
            ops.append({"op": "dapply", "tag": self.tag("d"), "targets": self.targets(), "dur": r.choice(self.durs),
                        **self.mode()})
        elif kind == "bapply":
            ops.append({"op": "dapply", "tag": self.tag("b"), "targets": self.mtargets(), "bcast": True,
                        "coalescing": r.random() < 0.5, "dur": r.choice(self.durs), **self.mode()})
        elif kind in ("dexec", "bexec"):
            nm = f"{'b' if kind == 'bexec' else 'x'}{self.c}_{r.randrange(3)}"
            self.k += 1
            code = r.choice([f"{nm} = {self.k}", f"{nm} = {nm} * 3 + 1", f"{nm} = [{self.k}, {nm}]"])
            ops.append({"op": "dexec", "tag": self.tag("e"), "code": code,
                        "targets": self.targets() if kind == "dexec" else self.mtargets(), "nm": nm})
            if kind == "bexec":
                ops[-1]["bcast"] = True
        elif kind in ("pushpull", "bpushpull"):
            b = kind == "bpushpull"
            nm = f"{'b' if b else 'x'}{self.c}_{r.randrange(3)}"
            if r.random() < 0.5:
                self.k += 1
                ops.append({"op": "push", "tag": self.tag("p"), "ns": {nm: r.choice([self.k, [self.k, 7], f"s{self.k}"])},
                            "targets": self.mtargets() if b else self.targets()})
            else:
                names = nm if r.random() < 0.7 else [nm, f"{'b' if b else 'x'}{self.c}_{r.randrange(3)}"]
                ops.append({"op": "pull", "tag": self.tag("q"), "names": names,
                            "targets": self.mtargets() if b else self.targets()})
            if b:
                ops[-1]["bcast"] = True
        elif kind in ("sg", "bsg"):
            b = kind == "bsg"
            nm = f"{'b' if b else 'x'}{self.c}_s"
            t = self.mtargets()
            n = r.choice([0, 1, 2, 3, 5, 8, 13])
            self.k += 1
            ops.append({"op": "scatter", "tag": self.tag("s"), "key": nm, "seq": [self.k * 100 + j for j in range(n)],
                        "targets": t})
            if r.random() < 0.2:
                ops[-1]["flatten"] = True
            if b:
                ops[-1]["bcast"] = True
            if r.random() < 0.8:
                ops.append({"op": "gather", "tag": self.tag("g"), "key": nm, "targets": t})
                if b:
                    ops[-1]["bcast"] = True
        elif kind == "task":
            ops.append({"op": "task", "tag": self.tag("t"), "dur": r.choice(self.durs), **self.mode()})
        elif kind in ("map", "dmap", "bmap"):
            op = {"op": "map", "tag": self.tag("m"), "kind": r.choice(["async", "async", "sync"]),
                  "n": r.choice([1, 2, 3, 5, 9]), "dur": r.choice(self.durs), "lb": kind == "map"}
            if r.random() < 0.3:
                op["fail"] = sorted(r.sample(range(op["n"]), r.randint(1, op["n"])))
            if r.random() < 0.3:
                op["slow"] = sorted(r.sample(range(op["n"]), r.randint(1, op["n"])))
            if r.random() < 0.3:
                op["return_exceptions"] = True
            if kind == "map":
                op["chunksize"] = r.choice([1, 1, 2, 3, 20])
                op["ordered"] = r.random() < 0.7
            else:
                op["targets"] = self.mtargets()
                if kind == "bmap":
                    op["bcast"] = True
            ops.append(op)
        elif kind == "imap":
            op = {"op": "map", "kind": "imap", "tag": self.tag("i"), "n": r.choice([1, 2, 5, 8, 12]),
                  "dur": r.choice(self.durs), "ordered": r.random() < 0.5,
                  "max_outstanding": r.choice([None, 0, 1, 2, 3, 5])}
            if r.random() < 0.25:
                op["fail"] = sorted(r.sample(range(op["n"]), 1))
                op["return_exceptions"] = r.random() < 0.7
            if r.random() < 0.4:
                op["slow"] = sorted(r.sample(range(op["n"]), r.randint(1, op["n"])))
            if r.random() < 0.3:
                op["consume_delay"] = r.choice([0.05, 0.3])
            if r.random() < 0.2:
                op["stop_after"] = r.randint(1, op["n"])
            if r.random() < 0.1:
                op["gen_fail"] = r.randrange(op["n"])
            self.labels.pop()
            ops.append(op)
        elif kind == "iterate":
            lb = [o["tag"] for o in ops if o["op"] == "map" and o["kind"] == "async"]
            if lb:
                ops.append({"op": "iterate", "label": r.choice(lb)})
        elif kind == "print":
            n = r.choice([1, 2, 4])
            tag = self.tag("o")
            op = {"op": r.choice(["task", "dapply"]), "tag": tag, "dur": r.choice(self.durs),
                  "mode": r.choice(["print", "printflush", "errprint"]),
                  "arg": [f"{tag}-{j}" for j in range(n)]}
            if op["op"] == "dapply":
                op["targets"] = self.targets()
            ops.append(op)
        elif kind == "bprint":
            tag = self.tag("o")
            ops.append({"op": "dapply", "tag": tag, "dur": r.choice(self.durs), "bcast": True, "targets": self.mtargets(),
                        "mode": r.choice(["print", "printflush", "errprint"]), "arg": [f"{tag}-0", f"{tag}-1"],
                        "coalescing": r.random() < 0.3})
        elif kind in ("wait", "get", "arq", "owait"):
            lb = self.pick()
            if lb is None:
                return
            op = {"op": kind, "label": lb, "timeout": self.timeout()}
            if kind == "get" and r.random() < 0.3:
                op["return_exceptions"] = True
            if kind in ("wait", "get") and r.random() < 0.3:
                op["return_when"] = r.choice(["FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"])
            ops.append(op)
        elif kind == "cwait":
            op = {"op": "cwait", "timeout": self.timeout()}
            if self.labels and r.random() < 0.6:
                op["labels"] = r.sample(self.labels, min(len(self.labels), r.randint(1, 4)))
                op["as_ids"] = r.random() < 0.5
            ops.append(op)
        elif kind == "outq":
            ops.append({"op": "outq"})
        elif kind == "abort":
            lb = [o["tag"] for o in ops if o.get("tag") and not o.get("coalescing")]
            if not lb:
                return
            op = {"op": "abort", "labels": r.sample(lb, min(len(lb), r.randint(1, 4)))}
            if r.random() < 0.15:
                op["labels"] = None
            ops.append(op)
        elif kind == "executor":
            op = {"op": "executor", "tag": f"c{self.c}x{len(ops)}", "n": r.choice([1, 2, 4, 7]),
                  "dur": r.choice(self.durs), "how": r.choice(["shutdown", "with", "as_completed", "wait"]),
                  "timeout": 200}
            if r.random() < 0.4:
                op["map"] = r.choice([1, 3, 6])
            ops.append(op)


# ---------------------------------------------------------------------------
class CV:
    """What the oracles need, derived once from a run."""

    def __init__(self, run):
        self.run = run
        self.plan = run.plan
        w = self.w = run.world
        self.subs = dict(w.submits)
        self.done = defaultdict(list)
        self.execs = defaultdict(list)
        self.ends = defaultdict(list)
        self.deaths = {}
        for h in w.hist:
            k = h["k"]
            if k == "done":
                self.done[h["msg_id"]].append(h)
            elif k == "start":
                self.execs[h["tag"]].append(h)
            elif k == "end":
                self.ends[h["tag"]].append(h)
            elif k == "death":
                self.deaths[h["uuid"]] = h["t"]
        self.unreg = {h["uuid"]: h["t"] for h in w.hist if h["k"] == "unreg"}
        self.gone = set(self.deaths) | set(self.unreg)
        self.finals = {h["c"]: h for h in w.hist if h["k"] == "final"}
        self.by_index = {e.index: e for e in w.engines}
        self.idx_of = {e.uuid: e.index for e in w.engines if e.app is not None}
        self.op_i = {(h["c"], h["n"]): h["i"] for h in w.hist if h["k"] == "op"}
        self.progs = [h for h in w.hist if h["k"] == "programs_done"]
        self.stuck = set(self.progs[0]["stuck"]) if self.progs else set()
        self.ops = [h for h in w.hist if h["k"] == "opdone"]
        self.dead_clients = {h["c"] for h in w.hist if h["k"] == "client_death"}

    def live_subs(self):
        for label, s in self.subs.items():
            if "msg_ids" in s and s["k"] == "submit" and s["c"] not in self.dead_clients:
                yield label, s

    def slack(self, a, b):
        """pauses and stalls overlapping [a, b]"""
        return sum(h["dur"] for h in self.w.hist if h["k"] in ("pause", "stall")
                   and h["t"] <= b + 1 and h["t"] + h["dur"] >= a - 1)

    def pauses(self):
        return any(h["k"] in ("pause", "stall") for h in self.w.hist)

    def fin(self, label):
        s = self.subs[label]
        f = self.finals.get(s["c"])
        return f["ars"].get(label) if f else None


def op_of(s):
    sp = s["spec"]
    return sp


def resolved(cv, prop_sig):
    """every submitted message has exactly one outcome"""
    for label, s in cv.live_subs():
        sp = s["spec"]
        if sp.get("op") == "gather" or (sp.get("op") == "map" and sp.get("bcast")):
            pass
        for mid in set(s["msg_ids"]):
            n = len(cv.done[mid])
            if n == 0:
                raise Bad(f"{prop_sig}:" + shape(sp), f"{label} message {mid} never resolved: {brief(sp)} "
                          f"targets {s.get('targets')} gone {sorted(cv.idx_of[u] for u in cv.gone if u in cv.idx_of)}")
            if n > 1 and len({h['i'] for h in cv.done[mid]}) > s["msg_ids"].count(mid) + 0:
                raise Bad("dup-outcome", f"{label} {mid} resolved {n} times")
        f = cv.fin(label)
        if f is not None and not f["ready"]:
            raise Bad("unresolved-result:" + shape(sp), f"{label}: every message done but AsyncResult not ready")


def shape(sp):
    s = sp["op"]
    if sp.get("bcast"):
        s += "-bcast"
        if sp.get("coalescing"):
            s += "-coalescing"
    if sp["op"] == "map":
        s += "-lb" if sp.get("lb", True) else "-direct"
    return s


def brief(sp):
    return {k: v for k, v in sp.items() if k not in ("arg",)}


def is_work(sp):
    return sp["op"] in ("task", "dapply")


def values(cv, label, s):
    """the outcome of each message of a work submission, checked against what ran"""
    sp = s["spec"]
    f = cv.fin(label)
    if f is None or not f["ready"]:
        return
    uu = s.get("uuids")
    tag = sp["tag"]
    kids = f["kids"]
    if sp.get("coalescing"):
        v = kids[0]
        if isinstance(v, dict) and "error" in v:
            one_error(cv, label, sp, v, None, uu)
            return
        if not isinstance(v, list) or len(v) != len(uu):
            raise Bad("coalesced-length", f"{label}: {len(uu)} engines but coalesced result {v!r}")
        kids = v
        # coalesced results come in the order of the reply's engine list
        order = f["md"][0]["engine_uuid"]
        if not isinstance(order, list) or sorted(order) != sorted(uu):
            raise Bad("coalesced-targets", f"{label}: sent to {uu} but the result names {order}")
        uu = order
    if sp["op"] == "dapply" and len(kids) != len(uu):
        raise Bad("wrong-length", f"{label}: {len(uu)} targets but {len(kids)} results")
    for j, v in enumerate(kids):
        u = uu[j] if sp["op"] == "dapply" else None
        if isinstance(v, dict) and "error" in v:
            one_error(cv, label, sp, v, u, uu)
            continue
        idx = cv.idx_of.get(u)
        mode = sp.get("mode", "ok")
        if mode == "none":
            if v is not None:
                raise Bad("wrong-value", f"{label}[{j}] is {v!r}, expected None")
            if u is not None and not [e for e in cv.ends[tag] if e["ok"] and e["eng"] == idx]:
                raise Bad("fabricated", f"{label}[{j}] succeeded but never ran on engine {idx}")
            continue
        if mode == "echo":
            continue
        if not (isinstance(v, list) and len(v) == 4 and v[:2] == ["r", tag]):
            raise Bad("wrong-value", f"{label}[{j}] is {v!r}")
        if u is not None and v[2] != idx:
            raise Bad("wrong-engine", f"{label}[{j}] should come from engine {idx} but is {v!r} (kids {kids})")
        if not [e for e in cv.ends[tag] if e["ok"] and e["eng"] == v[2] and e["n"] == v[3]]:
            raise Bad("fabricated", f"{label}[{j}] {v!r} matches no execution")


def one_error(cv, label, sp, v, u, uu):
    en = v["error"]
    tag = sp["tag"]
    idx = cv.idx_of.get(u)
    if en == "TaskFailed":
        if not [e for e in cv.ends[tag] if not e["ok"] and (u is None or e["eng"] == idx)]:
            raise Bad("fabricated", f"{label} failure on engine {idx} matches no execution")
        if v.get("evalue") != tag:
            raise Bad("wrong-value", f"{label} error is {v}")
    elif en == "CompositeError" and sp.get("mode") == "compfail":
        if not [e for e in cv.ends[tag] if not e["ok"] and (u is None or e["eng"] == idx)]:
            raise Bad("fabricated", f"{label} failure on engine {idx} matches no execution")
        if v.get("evalue") != f"composite\n[Engine Exception]TaskFailed: {tag}":
            raise Bad("wrong-value", f"{label} error is {v}")
    elif en == "TypeError" and sp.get("mode") == "nopickle":
        if "pickle" not in v.get("evalue"):
            raise Bad("wrong-value", f"{label} error is {v}")
    elif en == "ValueError" and sp.get("mode") == "badres":
        if v.get("evalue") != "bad:" + tag:
            raise Bad("wrong-value", f"{label} error is {v}")
    elif en == "EngineError":
        cand = [u] if u is not None else (uu or list(cv.idx_of))
        if not any(x in cv.gone for x in cand):
            raise Bad("false-engine-error", f"{label}: EngineError but engine {[cv.idx_of.get(x) for x in cand]} "
                      f"was never lost")
    elif en == "TaskAborted":
        if not any(o["op"] == "abort" for o in cv.ops) and not any(
                h["k"] == "op" and (h["op"] == "abort" or h.get("ctl", {}).get("op", {}).get("what") in ("abort", "shutdown"))
                for h in cv.w.hist):
            raise Bad("false-abort", f"{label}: TaskAborted but nothing was aborted")
    else:
        raise Bad("unexpected-error", f"{label}: resolved with {v}")


def stuck_ops(cv, sig="hung"):
    """client programs that never returned"""
    if not cv.stuck:
        return
    c = sorted(cv.stuck)[0]
    last = [h for h in cv.w.hist if h["k"] == "op" and h["c"] == c]
    op = cv.plan["clients"][c]["ops"][last[-1]["n"]] if last else None
    raise Bad(f"{sig}:" + (op["op"] if op else "start"), f"client {c} blocked forever in {op}")


# ---------------------------------------------------------------------------
def check_E04(cv):
    resolved(cv, "unresolved")
    stuck_ops(cv)
    for label, s in cv.live_subs():
        sp = s["spec"]
        if is_work(sp):
            values(cv, label, s)
        f = cv.fin(label)
        # bounded time after the loss
        for mid in s["msg_ids"]:
            for d in cv.done[mid]:
                if d.get("ename") == "EngineError":
                    uu = s.get("uuids")
                    if uu and len(uu) == len(s["msg_ids"]):
                        cand = [uu[s["msg_ids"].index(mid)]]
                    else:
                        cand = uu or list(cv.unreg)
                    t0 = min([cv.unreg[u] for u in cand if u in cv.unreg], default=None)
                    if t0 is None:
                        raise Bad("false-engine-error", f"{label} {mid} EngineError but no engine of its was ever lost")
                    if s["op"] != "task" and d["t"] < t0 - EPS:
                        raise Bad("early-engine-error", f"{label} EngineError at {d['t']} before the loss at {t0}")
                    if s["op"] in ("task", "map"):
                        continue
                    by = max(t0, s["t"]) + 3.0 + cv.slack(t0, d["t"])
                    if d["t"] > by and len(cand) == 1:
                        raise Bad("late-engine-error", f"{label} EngineError at {d['t']:.2f}, loss announced at {t0:.2f}, "
                                  f"submitted {s['t']:.2f}")


# ---------------------------------------------------------------------------
TOL = 0.05  # what a preemption between two statements may take


def _tol(cv, s_or_c, a, b):
    # preempted at many lines in a row
    return (0.6 if cv.plan["profile"].get("line_p") else TOL) + cv.slack(a, b)


def check_common(cv):
    for h in cv.w.hist:
        if h["k"] == "final_err":
            raise Bad("final-error", f"looking at the results of client {h['c']} raised {h['err']}\n{h['tb']}")
        if h["k"] == "final_stuck":
            raise Bad("final-stuck", f"looking at the results of client {h['c']} blocked")


def check_C01(cv):
    """AsyncResult as a future"""
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    adone = defaultdict(list)
    for h in cv.w.hist:
        if h["k"] == "ardone":
            adone[h["label"]].append(h)
    for label, s in cv.live_subs():
        f = cv.fin(label)
        if f is None:
            continue
        if f["ready"] and len(adone[label]) != 1:
            raise Bad("callbacks", f"{label}: done, but its callback ran {len(adone[label])} times")
        if f["ready"]:
            ok = "exc" not in f
            if f["successful"] != ok and not s["spec"].get("return_exceptions"):
                raise Bad("successful", f"{label}: successful() is {f['successful']} but get() gives {f.get('exc', 'a value')}")
            kids = f["kids"]
            if s["spec"]["op"] in ("task", "dapply") and not s["spec"].get("coalescing"):
                errs = [k for k in kids if isinstance(k, dict) and "error" in k]
                single = not isinstance(f.get("v"), list) if ok else None
                if errs and ok:
                    raise Bad("error-hidden", f"{label}: children {kids} but get() gave {f['v']}")
                if not errs and not ok:
                    raise Bad("error-invented", f"{label}: children {kids} but get() raised {f['exc']}")
        if is_work(s["spec"]):
            values(cv, label, s)
    for o in cv.ops:
        if o.get("label") not in cv.subs or o["c"] in cv.dead_clients:
            continue
        lb = o["label"]
        if o["op"] not in ("wait", "get", "arq", "owait"):
            continue
        op = cv.plan["clients"][o["c"]]["ops"][o["n"]]
        t0, t1 = o["t0"], o["t"]
        tol = _tol(cv, o["c"], t0, t1)
        td = adone[lb][0]["t"] if adone[lb] else float("inf")
        if o["status"] == "raise":
            raise Bad(f"raised:{o['op']}", f"{o['op']}({lb}) raised {o['err']}")
        v = o.get("v")
        if v is None:
            continue
        f = cv.fin(lb) or {}
        to = op.get("timeout")
        if o["op"] == "arq":
            if v["ready"] and (v["successful"] == "RuntimeError" or v["get"] == "TimeoutError" or not v["ready2"]):
                raise Bad("ready-then-not", f"{lb}: {v}")
            if v["done"] and not v["done2"]:
                raise Bad("undone", f"{lb}: {v}")
            if not v["done2"] and (v["get"] != "TimeoutError"):
                raise Bad("early-value", f"{lb}: not done but {v}")
            if v["done"] and v["get"] == "TimeoutError":
                raise Bad("done-not-ready", f"{lb}: done() but get(0) timed out: {v}")
            if v["ready"] and v["progress"] != v["len"]:
                raise Bad("progress", f"{lb}: ready but progress {v['progress']} of {v['len']}")
            if not 0 <= v["progress"] <= v["len"]:
                raise Bad("progress", f"{lb}: {v}")
            if v["dt"] > tol + 0.5:
                raise Bad("slow-query", f"{lb}: queries took {v['dt']}")
            if f.get("ready") and v["get"] != "TimeoutError" and (v["get"] == "value") != ("exc" not in f):
                raise Bad("changed", f"{lb}: get(0) gave {v['get']}, finally {f.get('exc', 'a value')}")
            continue
        if to is not None and to >= 0 and v["dt"] > to + tol + 0.2:
            raise Bad("overslept:" + o["op"], f"{o['op']}({lb}, {to}) took {v['dt']:.3f}")
        if o["op"] == "owait":
            continue
        if o["op"] == "wait":
            if "rw" in v:
                if sorted(v["done"] + v["pending"]) != list(range(v["n"])):
                    raise Bad("partition", f"wait({lb}, {op}) gave {v}")
                if not all(v["alldone"][j] for j in v["done"]):
                    raise Bad("early-done", f"wait({lb}, {op}) gave {v}")
                early = to < 0 or v["dt"] < to - EPS
                if early and v["pending"]:
                    if v["rw"] == "ALL_COMPLETED" or (v["rw"] == "FIRST_COMPLETED" and not v["done"]) or (
                        v["rw"] == "FIRST_EXCEPTION" and not any(v["failed"][j] for j in v["done"])
                    ):
                        raise Bad("early-return:" + v["rw"], f"wait({lb}, {op}) gave {v}")
                continue
            if v["r"] not in (True, False):
                raise Bad("wait-type", f"wait({lb}) gave {v['r']!r}")
            if v["r"] and not v["ready"]:
                raise Bad("wait-true-early", f"wait({lb}, {to}) is True at {t1:.3f}, resolved at {td:.3f}")
            if not v["r"]:
                if to < 0:
                    raise Bad("wait-false", f"wait({lb}) without timeout is False")
                if v["dt"] < to - EPS:
                    raise Bad("wait-short", f"wait({lb}, {to}) gave up after {v['dt']:.3f}")
                if td < t1 - tol:
                    raise Bad("wait-missed", f"wait({lb}, {to}) is False at {t1:.3f}, resolved at {td:.3f}")
        elif o["op"] == "get":
            fe = op.get("return_when") == "FIRST_EXCEPTION"
            if v.get("timeout"):
                if to < 0:
                    raise Bad("get-timeout", f"get({lb}) without timeout raised TimeoutError {v}")
                if v["dt"] < to - EPS:
                    raise Bad("get-short", f"get({lb}, {to}) gave up after {v['dt']:.3f}")
                if td < t1 - tol:
                    raise Bad("get-missed", f"get({lb}, {to}) timed out at {t1:.3f}, resolved at {td:.3f}")
                continue
            if td > t1 + tol and not fe:
                raise Bad("get-early", f"get({lb}) returned {v} at {t1:.3f}, resolved at {td:.3f}")
            if not f.get("ready"):
                continue
            if "v" in v:
                if "exc" in f:
                    if not op.get("return_exceptions"):
                        raise Bad("changed", f"get({lb}) gave {v['v']}, finally {f['exc']}")
                    if is_work(cv.subs[lb]["spec"]) and not cv.subs[lb]["spec"].get("coalescing"):
                        got = v["v"] if isinstance(cv.subs[lb]["spec"].get("targets", 0), (list, str)) else [v["v"]]
                        if got != f["kids"] and not fe:
                            raise Bad("changed", f"get({lb}, return_exceptions) gave {v['v']}, children {f['kids']}")
                elif v["v"] != f["v"]:
                    raise Bad("changed", f"get({lb}) gave {v['v']}, finally {f['v']}")
            else:
                if op.get("return_exceptions"):
                    raise Bad("raised-anyway", f"get({lb}, return_exceptions=True) raised {v}")
                if "exc" not in f:
                    raise Bad("changed", f"get({lb}) raised {v}, finally {f['v']}")
                if v["exc"] != f["exc"] and not fe:
                    raise Bad("changed", f"get({lb}) raised {v}, finally {f['exc']}")


# ---------------------------------------------------------------------------
def check_C02(cv):
    """Client.wait and Client.outstanding"""
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    sub_t = defaultdict(dict)
    sub_i = {}
    done_t = {}
    for label, s in cv.subs.items():
        if "msg_ids" not in s:
            continue
        for m in s["msg_ids"]:
            sub_t[s["c"]][m] = s["t"]
            sub_i[m] = s["i"]
            if cv.done[m]:
                done_t[m] = cv.done[m][0]["t"]
    inf = float("inf")
    for c, f in cv.finals.items():
        if c in cv.dead_clients:
            continue
        if all(a["ready"] for a in f["ars"].values()) and f["out_ids"]:
            raise Bad("outstanding-leak", f"client {c}: every result is done but outstanding is {f['out_ids'][:4]}")
    for o in cv.ops:
        if o["op"] not in ("cwait", "outq") or o["c"] in cv.dead_clients:
            continue
        op = cv.plan["clients"][o["c"]]["ops"][o["n"]]
        t0, t1 = o["t0"], o["t"]
        if o["status"] == "raise":
            raise Bad(f"raised:{o['op']}", f"{op} raised {o['err']}")
        v = o.get("v")
        if v is None:
            continue
        tol = _tol(cv, o["c"], t0, t1)
        oi = cv.op_i[o["c"], o["n"]]
        mine = {m: ts for m, ts in sub_t[o["c"]].items() if sub_i[m] < oi}
        for when, ids in ((t0, v.get("before")), (t1, v.get("out"))):
            if ids is None:
                continue
            for m in ids:
                if m in mine:
                    if done_t.get(m, inf) < when - tol:
                        raise Bad("outstanding-stale", f"{m} outstanding at {when:.3f}, resolved at {done_t[m]:.3f}")
                else:
                    kids = [x for x in mine if x.startswith(m)]
                    if kids and max(done_t.get(x, inf) for x in kids) < when - tol:
                        raise Bad("outstanding-stale", f"broadcast {m} outstanding at {when:.3f}, all resolved by then")
            for m, ts in mine.items():
                if ts < when - tol and done_t.get(m, inf) > when + tol and m not in ids:
                    raise Bad("outstanding-missing", f"{m} submitted {ts:.3f}, resolved {done_t.get(m, inf):.3f}, not "
                              f"outstanding at {when:.3f}")
        if o["op"] == "outq":
            continue
        if op.get("labels") is None:
            want = list(mine)
        else:
            want = [m for lb in op["labels"] if lb in cv.subs and cv.subs[lb]["c"] == o["c"]
                    and cv.subs[lb]["i"] < oi for m in cv.subs[lb]["msg_ids"]]
        last = max([done_t.get(m, inf) for m in want], default=0)
        to = op["timeout"]
        if v["r"] not in (True, False):
            raise Bad("wait-type", f"wait gave {v['r']!r}")
        if v["r"]:
            if last > t1 + tol:
                raise Bad("wait-true-early", f"client.wait({op}) is True at {t1:.3f}, last of them resolved {last:.3f}")
        else:
            if to < 0:
                raise Bad("wait-false", f"client.wait({op}) without timeout is False")
            if v["dt"] < to - EPS:
                raise Bad("wait-short", f"client.wait({op}) gave up after {v['dt']:.3f}")
            if last < t1 - tol:
                raise Bad("wait-missed", f"client.wait({op}) is False at {t1:.3f}, all resolved by {last:.3f}")
        if to >= 0 and v["dt"] > to + tol + 0.2:
            raise Bad("overslept", f"client.wait({op}) took {v['dt']:.3f}")


# ---------------------------------------------------------------------------
def parts(n, q):
    b, r = divmod(n, q)
    out, i = [], 0
    for p in range(q):
        k = b + (1 if p < r else 0)
        out.append(list(range(i, i + k)))
        i += k
    return out


def map_parts(op, s):
    n = op["n"]
    if op.get("lb", True):
        c = op.get("chunksize") or 1
        return parts(n, n // c + (n % c > 0))
    k = s.get("n_targets") or len(s["msg_ids"])
    return [p for p in parts(n, k) if p] if not op.get("bcast") else parts(n, k)


def map_kids(cv, label, s):
    """outcome of every chunk of a map; returns them"""
    op = s["spec"]
    f = cv.fin(label)
    if f is None or not f["ready"]:
        return None
    fail = op.get("fail", ())
    ps = map_parts(op, s)
    if len(ps) != len(f["kids"]):
        raise Bad("map-chunks", f"{label}: {len(f['kids'])} chunks, expected {ps}")
    for p, k in zip(ps, f["kids"]):
        bad = [x for x in p if x in fail]
        if isinstance(k, dict) and "error" in k:
            if k["error"] == "TaskFailed":
                if not bad or k["evalue"] != f"{op['tag']}:{bad[0]}":
                    raise Bad("map-error", f"{label} chunk {p} failed with {k}, failing items {list(fail)}")
            elif k["error"] == "EngineError":
                if not cv.gone:
                    raise Bad("false-engine-error", f"{label} chunk {p}: EngineError but no engine was lost")
            else:
                raise Bad("unexpected-error", f"{label} chunk {p}: {k}")
            continue
        if bad:
            raise Bad("map-error-hidden", f"{label} chunk {p} includes failing {bad} but gave {k}")
        if k != [["i", x] for x in p]:
            raise Bad("map-value", f"{label} chunk {p} gave {k}")
    return list(zip(ps, f["kids"]))


def flat(chunks, errors):
    out = []
    for p, k in chunks:
        if isinstance(k, dict):
            if errors:
                out.append(k)
        else:
            out.extend(k)
    return out


def strip(v):
    if isinstance(v, dict) and "error" in v:
        return {"error": v["error"], "evalue": v.get("evalue")}
    return v


def check_iter(cv, label, op, v, chunks, what):
    """values gathered by iterating an AsyncMapResult"""
    rex = op.get("return_exceptions")
    anyerr = any(isinstance(k, dict) for _, k in chunks)
    out = [strip(x) for x in v["out"]]
    full = [strip(x) for x in flat(chunks, rex)]
    if v["err"] is None:
        if anyerr and not rex:
            raise Bad("map-error-hidden", f"{what} of {label} ended without error: {out}, chunks {chunks}")
        if op.get("ordered", True) or not op.get("lb", True):
            if out != full:
                raise Bad("map-order", f"{what} of {label} gave {out}, expected {full}")
        elif sorted(map(repr, out)) != sorted(map(repr, full)):
            raise Bad("map-items", f"{what} of {label} gave {out}, expected a permutation of {full}")
    else:
        if rex or not anyerr:
            raise Bad("map-raised", f"{what} of {label} raised {v['err']}, chunks {chunks}")
        if op.get("ordered", True) or not op.get("lb", True):
            good = []
            for p, k in chunks:
                if isinstance(k, dict):
                    break
                good.extend(k)
            if out != good[: len(out)] and not (not out):
                raise Bad("map-order", f"{what} of {label} gave {out} before {v['err']}, expected a prefix of {good}")
        elif any(x not in full for x in out) or len(out) != len({repr(x) for x in out}):
            raise Bad("map-items", f"{what} of {label} gave {out} before {v['err']}")


def check_C03(cv):
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    maps = {}
    for label, s in cv.live_subs():
        op = s["spec"]
        if op["op"] == "map":
            ch = map_kids(cv, label, s)
            if ch is None:
                continue
            maps[label] = (op, ch)
            f = cv.fin(label)
            rex = op.get("return_exceptions")
            anyerr = any(isinstance(k, dict) for _, k in ch)
            if "exc" in f:
                if rex or not anyerr:
                    raise Bad("map-raised", f"{label}.get() raised {f['exc']} {f.get('excmsg')}, chunks {ch}")
            else:
                if anyerr and not rex:
                    raise Bad("map-error-hidden", f"{label}.get() gave {f['v']}, chunks {ch}")
                if [strip(x) for x in f["v"]] != [strip(x) for x in flat(ch, True)]:
                    raise Bad("map-order", f"{label}.get() gave {f['v']}, chunks {ch}")
            once(cv, op, [x for p, k in ch for x in p])
        elif is_work(op):
            values(cv, label, s)
    for o in cv.ops:
        if o["c"] in cv.dead_clients:
            continue
        op = cv.plan["clients"][o["c"]]["ops"][o["n"]]
        if o["op"] == "map" and op["kind"] == "sync" and o["status"] == "ok" and o.get("v") and op["tag"] in maps:
            check_iter(cv, op["tag"], op, o["v"], maps[op["tag"]][1], "iteration")
        elif o["op"] == "iterate" and o.get("v") and op["label"] in maps:
            check_iter(cv, op["label"], maps[op["label"]][0], o["v"], maps[op["label"]][1], "iteration")
        elif o["op"] in ("map", "iterate") and o["status"] == "raise":
            if o["op"] == "map" and cv.gone and ("No such engine" in o["err"] or o["ename"] == "NoEnginesRegistered"):
                continue
            raise Bad("raised:" + o["op"], f"{op} raised {o['err']}")
        elif o["op"] == "map" and op["kind"] == "imap" and o.get("v"):
            check_imap(cv, op, o)


def once(cv, op, xs):
    fail = op.get("fail", ())
    stop = False
    for x in xs:
        n = len(cv.execs[f"{op['tag']}:{x}"])
        if n > 1:
            raise Bad("map-twice", f"{op['tag']} item {x} ran {n} times")


def check_imap(cv, op, o):
    v = o["v"]
    tag, n = op["tag"], op["n"]
    fail = set(op.get("fail", ()))
    rex = op.get("return_exceptions")
    gf = op.get("gen_fail")
    out = [strip(x) for x in v["out"]]
    errs = {"error": "TaskFailed"}
    want = []
    lim = n if gf is None else gf
    for x in range(lim):
        want.append({"error": "TaskFailed", "evalue": f"{tag}:{x}"} if x in fail else ["i", x])

    def match(a, b):
        return a == b or (isinstance(a, dict) and a.get("error") == "EngineError" and rex and bool(cv.gone))

    for x in range(n):
        if len(cv.execs[f"{tag}:{x}"]) > 1:
            raise Bad("map-twice", f"imap {tag} item {x} ran {len(cv.execs[f'{tag}:{x}'])} times")
    stop = op.get("stop_after")
    if op.get("ordered", True):
        if len(out) > len(want) or not all(match(a, b) for a, b in zip(out, want)):
            raise Bad("imap-order", f"imap {tag} gave {out}, expected a prefix of {want}")
    else:
        rest = list(want)
        for a in out:
            if a in rest:
                rest.remove(a)
            elif not match(a, None):
                raise Bad("imap-items", f"imap {tag} gave {out}: {a} is not one of {want} or appears twice")
    if v["err"] is None:
        if gf is not None and (stop is None or v["consumed"] > gf):
            raise Bad("imap-error-hidden", f"imap {tag}: the input raised, but iteration ended quietly after {out}")
        if fail and not rex and stop is None:
            raise Bad("imap-error-hidden", f"imap {tag}: items {sorted(fail)} failed, but iteration ended quietly: {out}")
        if stop is None and len(out) != n:
            raise Bad("imap-incomplete", f"imap {tag} ended after {len(out)} of {n}: {out}")
        if stop is not None and len(out) < min(v["consumed"], n):
            raise Bad("imap-incomplete", f"imap {tag} cancelled: {v['consumed']} consumed but {len(out)} results")
    elif v["err"] == "TaskFailed" or v["err"] == "CompositeError":
        if not fail or rex:
            raise Bad("imap-raised", f"imap {tag} raised {v['err']}")
        if op.get("ordered", True) and len(out) != min(fail):
            raise Bad("imap-order", f"imap {tag} raised for item {min(fail)} after {out}")
    elif v["err"] == "ValueError":
        if gf is None:
            raise Bad("imap-raised", f"imap {tag} raised {v['err']}")
        if op.get("ordered", True) and len(out) != gf:
            raise Bad("imap-order", f"imap {tag} raised for input {gf} after {out}")
    elif v["err"] == "EngineError":
        if not cv.gone or rex:
            raise Bad("false-engine-error", f"imap {tag} raised {v['err']}")
    else:
        raise Bad("imap-raised", f"imap {tag} raised {v['err']}")
    # consumption
    cons = [h for h in cv.w.hist if h["k"] == "consume" and h["tag"] == tag]
    k = op.get("max_outstanding")
    if k and not cv.gone:
        ends = sorted(h["t"] for x in range(n) for h in cv.ends[f"{tag}:{x}"])
        for h in cons:
            fin = sum(1 for t in ends if t <= h["t"] + EPS)
            if h["n"] > k + fin:
                raise Bad("imap-eager", f"imap {tag} max_outstanding={k}: input {h['n']} consumed at {h['t']:.3f} with "
                          f"{fin} finished")
    if stop is not None:
        items = [h for h in cv.w.hist if h["k"] == "imap_item" and h["tag"] == tag]
        if len(items) >= stop:
            t = items[stop - 1]["t"]
            late = [h for h in cons if h["t"] > t + op.get("consume_delay", 0) + _tol(cv, 0, t, t + 1)]
            if len(late) > 1:
                raise Bad("imap-after-cancel", f"imap {tag} cancelled at {t:.3f}, consumed at {[h['t'] for h in late]}")


# ---------------------------------------------------------------------------
def apply_model(st, sp, j, nt, val, label, idx):
    """one message of a namespace operation against the model of its engine"""
    op = sp["op"]
    err = val.get("error") if isinstance(val, dict) and "error" in val else None
    if op == "dexec":
        ns = dict(st)
        try:
            exec(sp["code"], {}, ns)
            want = None
        except Exception as e:
            want = type(e).__name__
        if err != want:
            raise Bad("exec-outcome", f"{label} on engine {idx}: {sp['code']} gave {err}, expected {want} (state {st})")
        if want is None:
            st.clear()
            st.update(ns)
    elif op == "push":
        if err:
            raise Bad("push-failed", f"{label} on engine {idx}: {val}")
        st.update(sp["ns"])
    elif op == "scatter":
        if err:
            raise Bad("push-failed", f"{label} on engine {idx}: {val}")
        p = [sp["seq"][i] for i in parts(len(sp["seq"]), nt)[j]]
        st[sp["key"]] = p[0] if sp.get("flatten") and len(p) == 1 else p
    elif op in ("pull", "gather"):
        names = sp["names"] if op == "pull" else sp["key"]
        lst = [names] if isinstance(names, str) else names
        missing = [x for x in lst if x not in st]
        if missing:
            if err != "NameError":
                raise Bad("stale-read", f"{label} on engine {idx}: {missing[0]} undefined but got {val}")
            return
        want = st[names] if isinstance(names, str) else [st[x] for x in names]
        if err or val != want:
            raise Bad("stale-read", f"{label} on engine {idx}: {names} is {want} but got {val}")


def ns_model(cv, bcast):
    """every namespace read sees exactly the writes that precede it on that engine"""
    state = defaultdict(dict)
    dead = set()
    # a scatter that found an engine gone has pushed to the engines before it
    partial = {}
    for o in cv.ops:
        if o["op"] == "scatter" and o["status"] == "raise":
            partial.setdefault(o["c"], o["i"])
    for label, s in cv.live_subs():
        sp = s["spec"]
        if sp["op"] not in ("dexec", "push", "pull", "scatter", "gather") or bool(sp.get("bcast")) != bcast:
            continue
        if sp["op"] in ("scatter", "gather") and s["i"] > partial.get(s["c"], s["i"]):
            continue
        f = cv.fin(label)
        uu = s.get("uuids")
        if f is None or not f["ready"] or uu is None:
            continue
        kids = f["kids"]
        if len(kids) != len(uu):
            raise Bad("wrong-length", f"{label}: {len(uu)} targets but {len(kids)} results")
        anyerr = False
        for j, (u, v) in enumerate(zip(uu, kids)):
            err = v.get("error") if isinstance(v, dict) and "error" in v else None
            anyerr |= err is not None
            if err == "EngineError":
                if u not in cv.gone:
                    raise Bad("false-engine-error", f"{label}: EngineError but engine {cv.idx_of.get(u)} was never lost")
                dead.add((s["c"], u))
                continue
            if (s["c"], u) in dead:
                raise Bad("after-death", f"{label} on engine {cv.idx_of.get(u)} gave {v}, an earlier message was lost "
                          f"with the engine")
            apply_model(state[s["c"], u], sp, j, len(uu), v, label, cv.idx_of.get(u))
        if sp["op"] == "gather" and not anyerr:
            if kids and isinstance(kids[0], list):
                want = []
                bad = False
                for k in kids:
                    if isinstance(k, int):
                        bad = True
                    else:
                        want.extend(k)
                if bad:
                    continue
            else:
                want = kids
            if f.get("v") != want:
                raise Bad("gather", f"{label}: parts {kids} but gathered {f.get('v', f.get('exc'))}")
        elif not anyerr and sp["op"] == "pull" and not bcast:
            want = kids[0] if isinstance(sp.get("targets"), int) else kids
            if f.get("v") != want:
                raise Bad("pull", f"{label}: parts {kids} but get() gave {f.get('v', f.get('exc'))}")


def direct_order(cv, bcast):
    """per engine: at most one execution of each message, in submission order"""
    last = {}
    for label, s in cv.live_subs():
        sp = s["spec"]
        if sp["op"] != "dapply" or bool(sp.get("bcast")) != bcast or not s.get("uuids"):
            continue
        tag = sp["tag"]
        engs = {cv.idx_of.get(u) for u in s["uuids"]}
        seen = set()
        for h in cv.execs[tag]:
            if h["eng"] not in engs:
                raise Bad("wrong-engine", f"{label} for engines {sorted(engs)} ran on {h['eng']}")
            if h["eng"] in seen:
                raise Bad("ran-twice", f"{label} ran twice on engine {h['eng']}")
            seen.add(h["eng"])
            k = (s["c"], h["eng"])
            if last.get(k, (0,))[0] > h["i"]:
                raise Bad("reordered", f"{label} ran on engine {h['eng']} before {last[k][1]}, submitted earlier")
            last[k] = (h["i"], label)


def check_C04(cv):
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    direct_order(cv, False)
    ns_model(cv, False)
    for label, s in cv.live_subs():
        if is_work(s["spec"]) and not s["spec"].get("bcast"):
            values(cv, label, s)


def check_C05(cv):
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    direct_order(cv, True)
    ns_model(cv, True)
    for label, s in cv.live_subs():
        sp = s["spec"]
        if sp["op"] == "dapply" and sp.get("bcast"):
            values(cv, label, s)
            for u in s["uuids"]:
                if u not in cv.gone and len([h for h in cv.execs[sp["tag"]] if h["eng"] == cv.idx_of.get(u)]) != 1:
                    raise Bad("not-run", f"{label} did not run on engine {cv.idx_of.get(u)}")
        elif sp["op"] == "map" and sp.get("bcast"):
            map_kids(cv, label, s)


# ---------------------------------------------------------------------------
def check_C06(cv):
    """output of a task reaches the result that produced it, complete"""
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)

    def expect(sp):
        if sp.get("mode") not in ("print", "printflush", "errprint"):
            return "", ""
        a = "".join(x + "\n" for x in sp["arg"])
        return a, "".join("E" + x + "\n" for x in sp["arg"]) if sp["mode"] == "errprint" else ""

    up = {h["c"]: h["t"] for h in cv.w.hist if h["k"] == "client_up"}
    reg = {h["uuid"]: h["t"] for h in cv.w.hist if h["k"] == "reg"}

    def settled(s, f):
        """publishers and subscribers have had time to find each other (PUB/SUB
        drops what is sent before)"""
        t = [up[s["c"]]]
        for md in f["md"]:
            uu = md["engine_uuid"]
            t += [reg.get(u, s["t"]) for u in (uu if isinstance(uu, list) else [uu]) if u]
        return all(s["t"] >= x + 4 + cv.slack(x - 4, x + 4) for x in t)

    full = {}
    for label, s in cv.live_subs():
        sp = s["spec"]
        f = cv.fin(label)
        if f is None or not f["ready"] or not is_work(sp):
            continue
        if sp.get("coalescing"):
            # its output can't be told apart; it must not be waited for in vain
            if not f["outputs_ready"]:
                raise Bad("output-never", f"{label} done, but its output never is: {brief(sp)}")
            continue
        if not settled(s, f):
            continue
        so, se = expect(sp)
        full[label] = so
        if not f["outputs_ready"]:
            raise Bad("output-never", f"{label} done, but its output never is: {brief(sp)}")
        for j, md in enumerate(f["md"]):
            v = f["kids"][j]
            lost = isinstance(v, dict) and "error" in v
            gone = md["engine_uuid"] in cv.gone
            for name, want in (("stdout", so), ("stderr", se)):
                got = md[name] or ""
                if lost or gone:
                    if not want.startswith(got):
                        raise Bad("output-wrong", f"{label}[{j}] {name} is {got!r}, engine lost, should be a prefix of {want!r}")
                elif got != want:
                    raise Bad("output-lost" if len(got) < len(want) else "output-wrong",
                              f"{label}[{j}] {name} is {got!r}, expected {want!r}")
    for o in cv.ops:
        if o["op"] != "owait" or o["c"] in cv.dead_clients or not o.get("v"):
            continue
        op = cv.plan["clients"][o["c"]]["ops"][o["n"]]
        v = o["v"]
        lb = op["label"]
        to = op["timeout"]
        tol = _tol(cv, o["c"], o["t0"], o["t"])
        if to >= 0 and v["dt"] > to + tol + 0.2:
            raise Bad("overslept", f"wait_for_output({lb}, {to}) took {v['dt']:.3f}")
        if not v["r"] and to < 0:
            raise Bad("output-wait", f"wait_for_output({lb}) gave {v['r']}")
        if v["r"] and lb in full:
            f = cv.fin(lb)
            for j, got in enumerate(v["std"]):
                md = f["md"][j]
                k = f["kids"][j]
                if md["engine_uuid"] in cv.gone or (isinstance(k, dict) and "error" in k):
                    continue
                if (got or "") != full[lb]:
                    raise Bad("output-early", f"wait_for_output({lb}) is True at {o['t']:.3f} but stdout is {got!r}, "
                              f"expected {full[lb]!r}")


# ---------------------------------------------------------------------------
def check_C07(cv):
    """abort: what was not started never starts; nothing else is touched"""
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    listed = defaultdict(list)  # msg id -> [(t0, t1)] of the aborts naming it
    label_of = {}
    for label, s in cv.subs.items():
        for m in s.get("msg_ids", ()):
            label_of[m] = label
    begun = {}
    for h in cv.w.hist:
        if h["k"] == "op" and h["op"] == "abort":
            begun[h["c"], h["n"]] = h
    ended = {(o["c"], o["n"]): o for o in cv.ops if o["op"] == "abort"}
    for (c, n), h in begun.items():
        op = cv.plan["clients"][c]["ops"][n]
        o = ended.get((c, n))
        if o is not None and o["status"] == "raise" and not cv.gone:
            raise Bad("raised:abort", f"{op} raised {o['err']}")
        if op.get("labels") is None:
            ids = [m for m, lb in label_of.items() if cv.subs[lb]["c"] == c and cv.subs[lb]["i"] < h["i"]]
        else:
            ids = [m for lb in op["labels"] if lb in cv.subs and cv.subs[lb]["c"] == c and cv.subs[lb]["i"] < h["i"]
                   for m in cv.subs[lb]["msg_ids"]]
        t1 = o["t"] if o is not None and o["status"] == "ok" and o.get("v") else None
        for m in ids:
            listed[m].append((h["t"], t1, op.get("labels") is None))
    for label, s in cv.live_subs():
        sp = s["spec"]
        f = cv.fin(label)
        if f is None or not f["ready"] or not is_work(sp) or sp.get("coalescing"):
            continue
        values(cv, label, s)
        uu = s.get("uuids")
        for j, m in enumerate(s["msg_ids"]):
            v = f["kids"][j]
            err = v.get("error") if isinstance(v, dict) else None
            idx = cv.idx_of.get(uu[j]) if uu else None
            runs = [h for h in cv.execs[sp["tag"]] if idx is None or h["eng"] == idx]
            if err == "TaskAborted":
                if m not in listed:
                    raise Bad("abort-bystander", f"{label} {m} was aborted but no abort named it")
                if runs:
                    raise Bad("aborted-but-ran", f"{label} {m} is TaskAborted but ran on engine {runs[0]['eng']}")
            for t0, t1, everything in listed[m]:
                if t1 is None or everything:
                    continue
                for r in runs:
                    e = cv.by_index[r["eng"]]
                    if r["t"] > t1 + EPS and e.uuid not in cv.gone and e.index < len(cv.plan["engines"]):
                        raise Bad("ran-after-abort", f"{label} {m} started at {r['t']:.3f}, its abort was confirmed at {t1:.3f}")


def check_C08(cv):
    """view.executor is a concurrent.futures.Executor"""
    resolved(cv, "unresolved")
    stuck_ops(cv)
    check_common(cv)
    for label, s in cv.live_subs():
        if is_work(s["spec"]):
            values(cv, label, s)
    adone = defaultdict(list)
    for h in cv.w.hist:
        if h["k"] == "ardone":
            adone[h["label"]].append(h)
    for o in cv.ops:
        if o["op"] != "executor" or o["c"] in cv.dead_clients:
            continue
        op = cv.plan["clients"][o["c"]]["ops"][o["n"]]
        if o["status"] == "raise":
            if o["ename"] == "EngineError" and cv.gone:
                continue
            raise Bad("raised:executor", f"{op} raised {o['err']}")
        v = o["v"]
        if op.get("map") and v["map"] != [["i", x] for x in range(op["map"])]:
            raise Bad("executor-map", f"{op}: map gave {v['map']}")
        # (the thread that resolves the last future may be preempted just before)
        pr = cv.plan["profile"]
        tol = 0.6 if pr.get("line_p") or pr.get("lock_p") or pr.get("sched_p") else 0.001
        late = [i for i, d in enumerate(v.get("done_after", ())) if not d
                and not any(h["t"] <= o["t"] + tol for h in adone[f"{op['tag']}.{i}"])]
        if late:
            raise Bad("shutdown-early", f"{op}: shutdown(wait=True) returned with {v['done_after']}")
        if "seen" in v and sorted(v["seen"]) != list(range(op["n"])):
            raise Bad("as-completed", f"{op}: as_completed gave {v['seen']}")
        if "waited" in v and v["waited"] != [op["n"], 0]:
            raise Bad("futures-wait", f"{op}: wait gave {v['waited']}")


CHECKS = {"E04": check_E04, "C01": check_C01, "C02": check_C02, "C03": check_C03, "C04": check_C04,
          "C05": check_C05, "C06": check_C06, "C07": check_C07, "C08": check_C08}


def start(sim, plan, prop):
    from .actors import Run

    run = Run(sim, plan)
    sim.ctx["run"] = run
    sim.run(run.main)
    return run


def judge(run, prop):
    cv = CV(run)
    run.sim.ctx["nontrivial"] = sum(len(v) for v in cv.execs.values()) >= 2
    CHECKS[prop](cv)
