"""Load-balanced task scenarios and the oracles judging them (T properties)."""

from collections import defaultdict

from . import common
from .common import Bad, pick

EPS = 1e-4


def gen(rng, focus=None):
    """One random plan."""
    plan = common.base_plan(rng)
    n_eng = rng.choice([1, 2, 2, 3, 3, 4])
    hwm = rng.choice([1, 1, 1, 0, 0, 2, 2, 3])
    scheme = rng.choice(["leastload"] * 5 + ["lru", "plainrandom", "twobin", "weighted"])
    deaths = rng.random() < 0.45
    if focus == "T06":
        deaths = rng.random() < 0.2
        hwm = rng.choice([1, 1, 2, 3])
    if focus == "T05":
        hwm = rng.choice([1, 1, 2, 3, 0])
        scheme = rng.choice(["leastload"] * 3 + ["lru", "weighted", "twobin", "plainrandom"])
        n_eng = rng.choice([2, 3, 3, 4])
    if focus in ("E04",):
        deaths = True
    rewait = focus == "T07" and rng.random() < 0.5  # tasks that go back to waiting
    if rewait:
        n_eng = rng.choice([1, 1, 2, 2])
    plan["cfg"]["controller"]["TaskScheduler"] = {"hwm": hwm, "scheme_name": scheme}
    plan["hwm"], plan["scheme"] = hwm, scheme
    plan["engines"] = [{"delay": rng.choice([0, 0, 0.3])} for _ in range(n_eng)]
    n_cl = rng.choice([1, 1, 1, 2])
    dep_p = pick(rng, focus in ("T03", "T04"), [0.5, 0.7, 0.85], [0.0, 0.2, 0.4])
    fail_p = rng.choice([0.0, 0.1, 0.3])
    retry_p = pick(rng, focus == "T02", [0.5, 0.8], [0.0, 0.2])
    tgt_p = pick(rng, focus == "T05", [0.2, 0.5], [0.0, 0.15])
    fdep_p = pick(rng, focus in ("T05", "T04"), [0.0, 0.3], [0.0, 0.0, 0.15])
    tmo_p = pick(rng, focus == "T07", [0.5, 0.8], [0.0, 0.0, 0.1])
    die_p = rng.choice([0.0, 0.05, 0.1]) if deaths else 0.0
    durs = rng.choice([[0.0, 0.01], [0.05, 0.2], [0.0, 0.3, 1.0], [0.0, 0.02, 0.5, 2.0], [0.2]])
    if rewait:
        retry_p, fdep_p, tmo_p = rng.choice([0.4, 0.7]), rng.choice([0.0, 0.4]), rng.choice([0.6, 0.9])
    bogus_p = 0.06 if focus == "T04" else 0.01
    plan["clients"] = []
    work = 0.0
    for c in range(n_cl):
        n = rng.randint(2, 14)
        if rng.random() < 0.15:
            n = rng.randint(15, 30)
        ops = []
        tags = []
        for i in range(n):
            tag = f"c{c}t{i}"
            op = {"op": "task", "tag": tag, "dur": rng.choice(durs)}
            r = rng.random()
            if r < fail_p:
                op["mode"] = "fail"
            if rng.random() < retry_p:
                op["retries"] = rng.choice([1, 1, 2, 3])
                m = rng.choice(["fail", "failn", "failn", "failon", "ok"])
                op["mode"] = m
                if m == "failn":
                    op["arg"] = rng.randint(1, 3)
                elif m == "failon":
                    op["arg"] = sorted(rng.sample(range(n_eng), rng.randint(1, n_eng)))
            if rng.random() < die_p:
                op["mode"] = "dien"
                op["arg"] = rng.choice([1, 1, 2])
                op["retries"] = rng.choice([0, 1, 2])
            if tags and rng.random() < dep_p:
                for which in rng.choice([["after"], ["after"], ["follow"], ["after", "follow"]]):
                    k = min(len(tags), rng.choice([1, 1, 2, 2, 3, 4]))
                    pool = tags[-6:] if rng.random() < 0.6 else tags
                    d = {"tags": rng.sample(pool, min(k, len(pool)))}
                    if rng.random() < 0.6:
                        d["all"] = rng.random() < 0.6
                        d["success"], d["failure"] = rng.choice(
                            [(True, False), (True, True), (False, True), (True, False)])
                    else:
                        d["plain"] = True
                    op[which] = d
            if rng.random() < bogus_p:
                op["after"] = {"tags": [], "raw": [f"bogus_{c}_{i}"], "all": rng.random() < 0.7}
            if rng.random() < tgt_p:
                op["targets"] = sorted(rng.sample(range(n_eng), rng.randint(1, n_eng)))
            if rng.random() < fdep_p:
                op["dep"] = sorted(rng.sample(range(n_eng), rng.randint(0, n_eng)))
                # engines arriving later always satisfy the condition
                op["limit"] = n_eng
            if rng.random() < tmo_p:
                op["timeout"] = rng.choice([0.05, 0.5, 1.0, 2.0, 5.0] if not rewait else [1.0, 2.0, 4.0, 8.0])
            work += op["dur"] * (1 + op.get("retries", 0))
            ops.append(op)
            tags.append(tag)
            if rng.random() < 0.15:
                ops.append({"op": "sleep", "d": rng.choice([0.01, 0.1, 0.5, 2.0])})
        plan["clients"].append({"ops": ops, "wait_engines": n_eng, "delay": rng.choice([0, 0, 0.2])})
    faults = common.gen_faults(rng, n_eng, n_cl, deaths=deaths, focus=focus)
    if focus == "T07" and rng.random() < 0.5:
        # capacity outages: whole cluster stalls while timeouts run
        for i in range(n_eng):
            faults.append({"kind": "pause", "proc": f"engine{i}", "at": rng.choice([0.0, 0.1]),
                           "dur": rng.choice([1.0, 2.0, 4.0])})
    plan["faults"] = faults
    # retries never revisit an engine: enough live engines for all of them
    ops = [o for c in plan["clients"] for o in c["ops"] if o["op"] == "task"]
    plan["recover_engines"] = 1 + max([o.get("retries", 0) for o in ops] + [0])
    dies = sum(o["arg"] for o in ops if o.get("mode") == "dien")
    plan["work"] = work
    plan["quiesce"] = 90 + 2 * work + 15 * dies
    return plan


# --------------------------------------------------------------------------
class LB:
    """Everything the oracles need, derived once from a run."""

    def __init__(self, run):
        self.run = run
        self.soft = []  # violations that do not end the judgement
        self.plan = run.plan
        w = run.world
        self.w = w
        self.tasks = {}  # msg_id -> record
        self.by_tag = {}
        self.engines = {e.uuid: e for e in w.engines if e.app is not None}
        self.by_index = {e.index: e for e in w.engines}
        for tag, sub in w.submits.items():
            sp = sub["spec"]
            if sp["op"] != "task":
                continue
            t = {
                "tag": tag, "mid": sub["msg_ids"][0], "spec": sp, "c": sub["c"],
                "t": sub["t"], "starts": [], "ends": [], "dies": [], "lost": [], "done": [],
                "assign": [], "replies": [], "arrive": None, "relayed": [],
                "uuids": sub.get("uuids"), "order": sub["i"],
            }
            self.tasks[t["mid"]] = t
            self.by_tag[tag] = t
        self.deaths = {}
        for h in w.hist:
            k = h["k"]
            if k in ("start", "end", "die", "lost"):
                t = self.by_tag.get(h["tag"])
                if t is not None:
                    t[{"start": "starts", "end": "ends", "die": "dies", "lost": "lost"}[k]].append(h)
            elif k == "done":
                t = self.tasks.get(h["msg_id"])
                if t is not None:
                    t["done"].append(h)
            elif k == "death":
                self.deaths[h["uuid"]] = h["t"]
        self.finals = {h["c"]: h for h in w.hist if h["k"] == "final"}
        for e in w.wire:
            t, role, d, ph, mt, mid, pid, ident, md = e
            if role == "c.task" and d == "in" and ph == "rcv":
                x = self.tasks.get(mid)
                if x is not None and x["arrive"] is None:
                    x["arrive"] = t
            elif role == "e.task" and d == "out" and ph in ("snd", "lost"):
                x = self.tasks.get(mid)
                if x is not None:
                    x["assign"].append((t, ident.decode()))
            elif role == "e.task" and d == "in" and ph == "rcv":
                x = self.tasks.get(pid)
                if x is not None:
                    x["replies"].append((t, ident.decode(), md))
            elif role == "c.task" and d == "out" and ph == "snd":
                x = self.tasks.get(pid)
                if x is not None:
                    x["relayed"].append((t, md))
        # when the scheduler knew each task's outcome: on receipt of the engine's
        # reply, or (outcomes it makes up itself) at the latest when relaying it
        for x in self.tasks.values():
            x["known"] = None
            if x["relayed"]:
                tr, md = x["relayed"][0]
                x["known"] = tr - 0.05
                if md.get("engine"):
                    c = [r[0] for r in x["replies"] if r[1] == md["engine"] and r[0] <= tr + EPS]
                    if c:
                        x["known"] = max(c)
        # unregistration as announced to the schedulers/clients
        self.unreg = {h["uuid"]: h["t"] for h in w.hist if h["k"] == "unreg"}
        self.reg = {h["uuid"]: h["t"] for h in w.hist if h["k"] == "reg"}
        self.client_dead = {h["c"] for h in w.hist if h["k"] == "client_death"}
        for t in self.tasks.values():
            self.outcome(t)

    def outcome(self, t):
        f = self.finals.get(t["c"])
        t["final"] = f["ars"].get(t["tag"]) if f else None
        t["res"] = None
        d = t["done"]
        if d:
            t["res"] = "ok" if d[0]["out"] == "ok" else d[0]["ename"]

    def succeeded(self, tag):
        return self.by_tag[tag]["res"] == "ok"

    def eng_of(self, idx):
        e = self.by_index.get(idx)
        return e.uuid if e is not None else None


SCHED_ERR = ("ImpossibleDependency", "InvalidDependency", "TaskTimeout")


def check_T01(lb):
    """exactly one truthful outcome, in bounded time"""
    plan = lb.plan
    hung = []
    for t in lb.tasks.values():
        if t["c"] in lb.client_dead:
            continue
        if len(t["done"]) > 1:
            raise Bad("dup-outcome", f"{t['tag']} resolved {len(t['done'])} times")
        if not t["done"]:
            hung.append(t)
            continue
        res = t["res"]
        fin = t["final"]
        if fin is None or not fin["ready"]:
            raise Bad("unresolved-result", f"{t['tag']} future done but AsyncResult not ready")
        v = fin["kids"][0]
        md = fin["md"][0]
        if res == "ok":
            if not (isinstance(v, list) and len(v) == 4 and v[0] == "r" and v[1] == t["tag"]):
                raise Bad("wrong-value", f"{t['tag']} got {v!r}")
            ok = [e for e in t["ends"] if e["ok"] and e["eng"] == v[2] and e["n"] == v[3]]
            if not ok:
                raise Bad("fabricated", f"{t['tag']} result {v!r} matches no execution {t['ends']}")
            if md["engine_uuid"] != lb.eng_of(v[2]):
                raise Bad("wrong-engine", f"{t['tag']} ran on {v[2]} but metadata says {md['engine_uuid']}")
            if md["status"] != "ok" or not fin["successful"]:
                raise Bad("wrong-status", f"{t['tag']} ok but md {md['status']}")
        elif res == "TaskFailed":
            if not [e for e in t["ends"] if not e["ok"]]:
                raise Bad("fabricated", f"{t['tag']} failure matches no execution")
            if md["status"] != "error" or fin["successful"]:
                raise Bad("wrong-status", f"{t['tag']} failed but md {md['status']}")
            if v.get("evalue") != t["tag"]:
                raise Bad("wrong-value", f"{t['tag']} error is {v}")
        elif res == "EngineError":
            if not t["assign"]:
                raise Bad("false-engine-error", f"{t['tag']} never assigned but EngineError")
            if not any(u in lb.deaths or u in lb.unreg for _, u in t["assign"]):
                raise Bad("false-engine-error", f"{t['tag']} EngineError but no engine it ran on died")
        elif res == "UnmetDependency":
            raise Bad("unmet-leaked", f"{t['tag']} got UnmetDependency")
        elif res not in SCHED_ERR:
            raise Bad("unexpected-error", f"{t['tag']} resolved with {res}")
    if hung:
        t = hung[0]
        raise Bad("no-outcome:" + hung_kind(lb, t),
                  f"{len(hung)} task(s) never resolved: {[describe(x) for x in hung[:3]]}")


def describe(t):
    s = {k: v for k, v in t["spec"].items() if k not in ("op",)}
    return {"spec": s, "arrive": t["arrive"], "assign": t["assign"],
            "starts": [(x["t"], x["eng"]) for x in t["starts"]], "ends": [(x["t"], x["ok"]) for x in t["ends"]],
            "relayed": [x[0] for x in t["relayed"]]}


def hung_kind(lb, t):
    s = t["spec"]
    if t["arrive"] is None:
        return "not-received"
    if t["relayed"]:
        return "lost-on-client"
    if t["assign"]:
        last = t["assign"][-1]
        if any(r[1] == last[1] and r[0] >= last[0] for r in t["replies"]):
            return "stuck-after-reply" + ("-retries" if s.get("retries") else "") + ("-dep" if s.get("dep") is not None else "")
        if last[1] in lb.deaths:
            return "engine-died"
        return "assigned-no-reply"
    if s.get("follow"):
        return "waiting-follow"
    if s.get("after"):
        return "waiting-after"
    if s.get("targets") is not None:
        return "waiting-targets"
    return "waiting"


def check_T02(lb):
    """bounded executions"""
    for t in lb.tasks.values():
        s = t["spec"]
        retries = s.get("retries", 0)
        n = len(t["starts"])
        if n > 1 + retries:
            raise Bad("too-many-executions", f"{t['tag']} executed {n} times with retries={retries}: {describe(t)}")
        # every assignment but the last must have ended in failure, unmet dependency or engine loss
        if t["res"] == "ok" and s.get("mode", "ok") == "ok" and s.get("dep") is None:
            lost = [u for _, u in t["assign"] if u in lb.deaths or u in lb.unreg]
            if n > 1 + len(lost):
                raise Bad("double-execution", f"{t['tag']} executed {n} times without failing: {describe(t)}")
        if t["res"] == "TaskFailed" and t["c"] not in lb.client_dead:
            if len(t["starts"]) < 1 + retries and not any(
                    u in lb.deaths or u in lb.unreg for _, u in t["assign"]) and t["final"] is not None:
                raise Bad("retries-not-used", f"{t['tag']} failed after {n} executions with retries={retries}")
        # a retry goes to an engine the task has not failed on yet
        seen = set()
        for st in t["starts"]:
            u = lb.eng_of(st["eng"])
            if u in seen:
                raise Bad("retry-same-engine", f"{t['tag']} ran twice on engine {st['eng']}")
            seen.add(u)
        # overlapping executions
        spans = []
        for st in t["starts"]:
            en = [e["t"] for e in t["ends"] + t["dies"] + t["lost"] if e["n"] == st["n"]]
            spans.append((st["t"], min(en) if en else float("inf"), st["eng"]))
        spans.sort()
        for a, b in zip(spans, spans[1:]):
            gone = [lb.eng_of(x[2]) in lb.deaths or lb.eng_of(x[2]) in lb.unreg for x in (a, b)]
            if b[0] < a[1] - EPS and not any(gone):
                raise Bad("concurrent-duplicate", f"{t['tag']} ran concurrently on engines {a[2]} and {b[2]}")


def dep_state(lb, d, now):
    """(met, unreachable) of a dependency given the outcomes relayed up to now."""
    done_ok, done_bad = set(), set()
    for tag in d["tags"]:
        x = lb.by_tag.get(tag)
        if x is None:
            continue
        if x["relayed"] and x["known"] <= now + EPS:
            md = x["relayed"][0][1]
            # scheduler-generated failures carry no status metadata
            if md.get("status") == "ok":
                done_ok.add(tag)
            else:
                done_bad.add(tag)
    success, failure = d.get("success", True), d.get("failure", False)
    al = d.get("all", True)
    tags = {x for x in d["tags"] if x in lb.by_tag} | set(d.get("raw", ()))
    good = set()
    if success:
        good |= done_ok
    if failure:
        good |= done_bad
    bad = set()
    if not success:
        bad |= done_ok
    if not failure:
        bad |= done_bad
    if al:
        return tags <= good, bool(tags & bad)
    return bool(tags & good), tags <= bad


def check_T03(lb):
    """order and location dependencies hold whenever a task is started"""
    for t in lb.tasks.values():
        s = t["spec"]
        for ta, uuid in t["assign"]:
            if s.get("after"):
                met, _ = dep_state(lb, s["after"], ta)
                if not met:
                    raise Bad("after-violated", f"{t['tag']} assigned at {ta} before {s['after']} met")
            if s.get("follow"):
                met, why = follow_met(lb, s["follow"], uuid, ta)
                if not met:
                    raise Bad("follow-violated", f"{t['tag']} assigned to {uuid} but follow {s['follow']}: {why}")


def follow_met(lb, d, uuid, now):
    ok, bad = set(), set()
    for tag in d["tags"]:
        x = lb.by_tag.get(tag)
        if x is None or not x["relayed"] or x["known"] > now + EPS:
            continue
        md = x["relayed"][0][1]
        if md.get("engine") == uuid:
            (ok if md.get("status") == "ok" else bad).add(tag)
    good = set()
    if d.get("success", True):
        good |= ok
    if d.get("failure", False):
        good |= bad
    tags = {x for x in d["tags"] if x in lb.by_tag}
    met = tags <= good if d.get("all", True) else bool(tags & good)
    return met, f"done here: {sorted(good)}"


def can_follow(lb, d, now):
    """may the follow dependency still be satisfied on some live engine?"""
    success, failure = d.get("success", True), d.get("failure", False)
    places = {}
    pending = set()
    dead = set()
    tags = {x for x in d["tags"] if x in lb.by_tag}
    for tag in tags:
        x = lb.by_tag[tag]
        if not x["relayed"] or x["known"] > now + EPS:
            pending.add(tag)
            continue
        md = x["relayed"][0][1]
        st = md.get("status") == "ok"
        if (st and success) or (not st and failure):
            places[tag] = md.get("engine")
        else:
            dead.add(tag)
    return places, pending, dead


def check_T04(lb):
    """impossible / invalid dependencies: reported iff impossible, promptly"""
    for t in lb.tasks.values():
        s = t["spec"]
        if t["c"] in lb.client_dead or not t["relayed"]:
            continue
        res = t["res"]
        tr = t["relayed"][0][0]
        raw = (s.get("after") or {}).get("raw", ()) or (s.get("follow") or {}).get("raw", ())
        if res == "InvalidDependency" and not raw:
            raise Bad("false-invalid", f"{t['tag']} InvalidDependency although every id was submitted before")
        if raw and res != "InvalidDependency":
            raise Bad("invalid-accepted", f"{t['tag']} depends on unknown {raw} but resolved {res}")
        if res == "InvalidDependency" and t["starts"]:
            raise Bad("invalid-ran", f"{t['tag']} ran although invalid")
        if res == "ImpossibleDependency":
            if not impossible(lb, t, tr):
                reg = lb.w.sched_notes["reg"]
                if t["uuids"] and all(reg.get(u, 1e9) > (t["arrive"] or 0) - 0.05 for u in t["uuids"]):
                    # the client heard of its target before the scheduler did
                    lb.soft.append(Bad(
                        "false-impossible:target-not-announced-yet",
                        f"{t['tag']} targets engines the scheduler had not heard of: {describe(t)}"))
                    continue
                raise Bad("false-impossible", f"{t['tag']} reported impossible but was runnable: {describe(t)}")
        # a task whose after-dependency became unreachable must fail, promptly
        for which in ("after", "follow"):
            d = s.get(which)
            if not d or d.get("raw"):
                continue
            _, unreach = dep_state(lb, d, 1e9)
            if unreach and res == "ok" and which == "after":
                # allowed only if it was met before becoming unreachable
                first = t["assign"][0][0]
                met, _ = dep_state(lb, d, first)
                if not met:
                    raise Bad("ran-unreachable", f"{t['tag']} ran although {which} unreachable")


def paused_after(lb, when):
    tot = 0.0
    for h in lb.w.hist:
        if h["k"] in ("pause", "stall") and h["t"] + h["dur"] >= when - 1:
            tot += h["dur"]
    return tot


def impossible(lb, t, now):
    s = t["spec"]
    for which in ("after", "follow"):
        d = s.get(which)
        if d and dep_state(lb, d, now)[1]:
            return True
    gone = set(lb.unreg) | set(lb.deaths)
    uu = t["uuids"]
    # engines excluded for this task: those that reported an unmet dependency or failed it
    black = {u for _, u, md in t["replies"]} | {u for _, u in t["assign"] if u in gone}
    live_targets = None
    if uu is not None:
        live_targets = [u for u in uu if u not in gone and u not in black]
        if not live_targets:
            return True
    d = s.get("follow")
    if d:
        places, pending, dead = can_follow(lb, d, now)
        if d.get("all", True):
            if len(set(places.values())) > 1:
                return True
            if any(p is None or p in gone or p in black for p in places.values()):
                return True
            if uu is not None and any(p not in uu for p in places.values()):
                return True
        elif not pending:
            ok = [p for p in places.values() if p is not None and p not in gone and p not in black
                  and (uu is None or p in uu)]
            if not ok:
                return True
    return False


def sched_intervals(lb):
    """time intervals in which the scheduler process was stopped or stalled"""
    iv = []
    for h in lb.w.hist:
        if h["k"] == "pause" and (h["proc"].startswith("task") or "sched" in h["proc"].lower()):
            iv.append((h["t"], h["t"] + h["dur"]))
    return iv


def check_T05(lb):
    """placement: targets, exclusions, high-water mark, no idle engine while work waits"""
    hwm = lb.plan["hwm"]
    scheme = lb.plan["scheme"]
    for t in lb.tasks.values():
        s = t["spec"]
        uu = t["uuids"]
        if uu is not None:
            for ta, u in t["assign"]:
                if u not in uu:
                    raise Bad("wrong-target", f"{t['tag']} assigned to {u} outside targets {uu}")
        for st in t["starts"]:
            if uu is not None and lb.eng_of(st["eng"]) not in uu:
                raise Bad("wrong-target", f"{t['tag']} ran on {st['eng']} outside its targets")
            if s.get("dep") is not None and st["eng"] not in s["dep"] and st["eng"] < s["limit"]:
                raise Bad("dep-violated", f"{t['tag']} ran on engine {st['eng']} where its condition is false")
        # never offered twice to an engine that said its condition is unmet
        unmet = {}
        for tr, u, md in t["replies"]:
            if md.get("dependencies_met") is False or md.get("dependencies_met", True) is False:
                unmet[u] = tr
        for ta, u in t["assign"]:
            if u in unmet and ta > unmet[u] + EPS:
                raise Bad("reoffered", f"{t['tag']} offered again to {u} after an unmet dependency")
    # engine load as the scheduler knows it
    evs = []
    for t in lb.tasks.values():
        for ta, u in t["assign"]:
            evs.append((ta, 1, u, t["mid"]))
        for tr, u, md in t["replies"]:
            evs.append((tr, 0, u, t["mid"]))
    for u, tm in lb.unreg.items():
        evs.append((tm, -1, u, None))
    evs.sort(key=lambda x: (x[0], x[1]))
    load = defaultdict(int)
    if hwm:
        for tm, d, u, mid in evs:
            if d == 1:
                load[u] += 1
                if load[u] > hwm:
                    raise Bad("hwm-exceeded", f"engine {u} has {load[u]} outstanding tasks at {tm} (hwm {hwm})")
            elif d == 0:
                load[u] -= 1
    # an assignment to an engine after the scheduler was told it is gone
    note = lb.w.sched_notes
    for t in lb.tasks.values():
        for ta, u in t["assign"]:
            n = note["unreg"].get(u)
            if n is not None and ta > n + 0.5 + paused_after(lb, n):
                raise Bad("assigned-dead", f"{t['tag']} assigned at {ta} to {u} unregistered (known at {n})")
    idle_check(lb, hwm)
    if scheme == "leastload":
        leastload_check(lb, hwm)


def idle_check(lb, hwm):
    """no unconstrained task waits while a known live engine has a free slot"""
    if not hwm:
        lim = 10**9
    else:
        lim = hwm
    if any(h["k"] in ("pause", "stall") and h.get("proc", "task") not in
           [f"engine{i}" for i in range(20)] for h in lb.w.hist):
        slack = 1.0
        stops = [(h["t"], h["t"] + h["dur"]) for h in lb.w.hist if h["k"] in ("pause", "stall")]
    else:
        slack, stops = 0.3, []
    note = lb.w.sched_notes
    # piecewise-constant state
    times = []
    for t in lb.tasks.values():
        if t["arrive"] is not None:
            times.append((t["arrive"], 0, "arr", t, None))
        for ta, u in t["assign"]:
            times.append((ta, 2, "asg", t, u))
        for tr, u, md in t["replies"]:
            times.append((tr, 1, "rep", t, u))
    for u, tm in note["reg"].items():
        times.append((tm, 0, "reg", None, u))
    for u, tm in note["unreg"].items():
        times.append((tm, 0, "unreg", None, u))
    times.sort(key=lambda x: (x[0], x[1]))
    waiting = {}
    load = defaultdict(int)
    live = set()
    seq = times + [(times[-1][0] + 1000, 9, "end", None, None)] if times else []
    idle_since = None
    for i, (tm, _, k, t, u) in enumerate(seq):
        # was there idle capacity + waiting plain task since the previous event?
        if idle_since is not None:
            dt = tm - idle_since
            if dt > slack and not any(a - 2 <= idle_since <= b + 2 or a - 2 <= tm <= b + 2 or (idle_since <= a <= tm) for a, b in stops):
                x = next(iter(waiting.values()))
                raise Bad("idle-engine", f"{x['tag']} waited {dt:.2f}s from {idle_since:.3f} while an engine had a free slot")
        if k == "arr":
            s = t["spec"]
            if not (s.get("after") or s.get("follow") or s.get("targets") is not None
                    or s.get("retries") or s.get("dep") is not None):
                waiting[t["mid"]] = t
        elif k == "asg":
            waiting.pop(t["mid"], None)
            load[u] += 1
        elif k == "rep":
            load[u] -= 1
        elif k == "reg":
            live.add(u)
        elif k == "unreg":
            live.discard(u)
        elif k == "end":
            break
        for w_ in list(waiting.values()):
            if w_["relayed"] and w_["relayed"][0][0] <= tm:
                waiting.pop(w_["mid"], None)
        cap = any(load[u] < lim for u in live)
        if waiting and cap:
            if idle_since is None:
                idle_since = tm
        else:
            idle_since = None


def leastload_check(lb, hwm):
    """under leastload an unconstrained task never goes to an engine with more
    outstanding tasks than another eligible one (as seen by the scheduler)"""
    note = lb.w.sched_notes
    evs = []
    for t in lb.tasks.values():
        for n, (ta, u) in enumerate(t["assign"]):
            evs.append((ta, 2, "asg", t, u, n))
        for tr, u, md in t["replies"]:
            evs.append((tr, 1, "rep", t, u, 0))
    for u, tm in note["reg"].items():
        evs.append((tm, 0, "reg", None, u, 0))
    for u, tm in note["unreg"].items():
        evs.append((tm, 0, "unreg", None, u, 0))
    evs.sort(key=lambda x: (x[0], x[1]))
    load = defaultdict(int)
    live = {}
    recent = defaultdict(list)  # changes not necessarily processed yet
    for tm, _, k, t, u, n in evs:
        if k == "reg":
            live[u] = tm
        elif k == "unreg":
            live.pop(u, None)
        elif k == "rep":
            load[u] -= 1
            recent[u].append(tm)
        else:
            s = t["spec"]
            if n == 0 and not (s.get("follow") or s.get("targets") is not None):
                # a reply received in the last moments may not have been processed
                slack = 0.25
                mine = load[u]
                for v, since in live.items():
                    if v == u or tm - since < slack:
                        continue
                    pend = sum(1 for x in recent[v] if tm - x < slack)
                    if load[v] + pend < mine and not any(
                            h["k"] in ("pause", "stall") for h in lb.w.hist):
                        raise Bad("not-least-loaded",
                                  f"{t['tag']} sent to {u} (load {mine}) while {v} had {load[v]} at {tm}")
            load[u] += 1


def check_T06(lb):
    """tasks without dependencies or placement constraints start in submission order"""
    plain = [t for t in lb.tasks.values() if t["arrive"] is not None and not (
        t["spec"].get("after") or t["spec"].get("follow") or t["spec"].get("targets") is not None
        or t["spec"].get("retries") or t["spec"].get("dep") is not None or t["spec"].get("timeout"))]
    for c in {t["c"] for t in plain}:
        mine = sorted([t for t in plain if t["c"] == c], key=lambda t: t["order"])
        last = None
        for t in mine:
            if not t["assign"]:
                if last is not None:
                    pass
                continue
            a = t["assign"][0][0]
            if last is not None and a < last[0] - EPS / 100:
                raise Bad("out-of-order", f"{t['tag']} assigned at {a} before earlier {last[1]} at {last[0]}")
            if last is None or a > last[0]:
                last = (a, t["tag"])
        # an earlier task still waiting while a later one started
        for i, t in enumerate(mine):
            if not t["assign"] and not t["relayed"]:
                later = [x for x in mine[i + 1:] if x["assign"]]
                if later:
                    raise Bad("overtaken", f"{t['tag']} never started, {later[0]['tag']} did")


def requeued(lb, t):
    """(earliest, latest) instants at which each attempt of a task was over"""
    out = []
    for a, u in t["assign"]:
        r = [x[0] for x in t["replies"] if x[1] == u and x[0] >= a - EPS]
        if u in lb.unreg and not (r and min(r) <= lb.unreg[u]):
            lo = max(a, lb.unreg[u])
            out.append((lo, min(r + [lo + 6.0 + paused_after(lb, lo)])))
        elif r:
            out.append((min(r), min(r)))
    return sorted(out)


def check_T07(lb):
    """dependency timeouts: never early, never ignored, never on a started task"""
    for t in lb.tasks.values():
        s = t["spec"]
        tmo = s.get("timeout")
        res = t["res"]
        if res == "TaskTimeout":
            if not tmo:
                raise Bad("spurious-timeout", f"{t['tag']} has no timeout but got TaskTimeout")
            tr = t["relayed"][0][0]
            early = common.clock_forward(lb.w)
            if t["arrive"] is not None and tr - t["arrive"] < tmo - 0.01 - early:
                raise Bad("early-timeout", f"{t['tag']} timed out {tr - t['arrive']:.3f}s after arrival (timeout {tmo})")
            # executions are fine only if every one of them was a failed/unmet/lost attempt
            for st in t["starts"]:
                if any(e["n"] == st["n"] and e["ok"] for e in t["ends"]):
                    if lb.eng_of(st["eng"]) not in lb.unreg:
                        raise Bad("timeout-after-run", f"{t['tag']} succeeded but was reported as timed out")
            if t["assign"] and not s.get("retries") and s.get("dep") is None:
                raise Bad("timeout-after-start", f"{t['tag']} was assigned and then reported as timed out")
            # back in the queue after an attempt: the timeout counts from then
            back = [b for b in requeued(lb, t) if b[0] <= tr]
            if len(back) < len([a for a in t["assign"] if a[0] <= tr]):
                raise Bad("timeout-while-running", f"{t['tag']} timed out at {tr:.3f} while assigned: {describe(t)}")
            if back and tr - back[-1][0] < tmo - 0.01 - early:
                raise Bad("early-timeout", f"{t['tag']} timed out at {tr:.3f}, {tr - back[-1][0]:.3f}s after it went back "
                          f"to waiting (timeout {tmo}): {describe(t)}")
        if tmo and t["arrive"] is not None and t["c"] not in lb.client_dead:
            for lo, hi in requeued(lb, t):
                by = hi + tmo + 1.5 + paused_after(lb, lo) + common.clock_back(lb.w)
                nxt = [x for x in [a for a, _ in t["assign"]] + [x[0] for x in t["relayed"]] if x >= lo - EPS]
                if not nxt and lb.run.sim.now < by:
                    continue
                if not nxt or min(nxt) > by:
                    raise Bad("timeout-ignored", f"{t['tag']} timeout {tmo} back in the queue at {lo:.2f} and still "
                              f"waiting at {by:.2f}: {describe(t)}")
        if tmo and t["arrive"] is not None and not s.get("retries") and s.get("dep") is None:
            # must be assigned or failed by the deadline (+ slack)
            by = t["arrive"] + tmo + 1.5 + paused_after(lb, t["arrive"]) + common.clock_back(lb.w)
            first = min([a for a, _ in t["assign"]] + [x[0] for x in t["relayed"]], default=None)
            if t["c"] in lb.client_dead:
                continue
            if first is None or first > by:
                raise Bad("timeout-ignored", f"{t['tag']} timeout {tmo} still waiting at {by:.2f} (first event {first})")


CHECKS = {"T01": check_T01, "T02": check_T02, "T03": check_T03, "T04": check_T04,
          "T05": check_T05, "T06": check_T06, "T07": check_T07}


def start(sim, plan, prop):
    from .actors import Run

    run = Run(sim, plan)
    sim.ctx["run"] = run
    sim.run(run.main)
    return run


def judge(run, prop):
    lb = LB(run)
    sim = run.sim
    sim.ctx["nontrivial"] = sum(1 for t in lb.tasks.values() if t["starts"]) >= 2
    CHECKS[prop](lb)
    if lb.soft:
        raise lb.soft[0]
