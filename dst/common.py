"""Shared pieces of the scenario generators and oracles."""


class Bad(Exception):
    """A property violation: sig identifies the kind of failure."""

    def __init__(self, sig, text):
        super().__init__(f"{sig}: {text}")
        self.sig = sig
        self.text = text


def pick(rng, cond, a, b):
    return rng.choice(a if cond else b)


def profile(rng):
    return {
        "sched_p": rng.choice([0.0, 0.1, 0.3, 0.6]),
        "lock_p": rng.choice([0.0, 0.0, 0.0, 0.05]),
        "lat": rng.choice(["fast", "lan", "lan", "jitter", "wild"]),
    }


def base_plan(rng, hb=True):
    plan = {"profile": profile(rng), "cfg": {"controller": {}, "engine": {}}}
    if hb:
        period = rng.choice([500, 1000])
        miss = rng.choice([2, 3])
        plan["cfg"]["controller"]["HeartMonitor"] = {
            "period": period, "max_heartmonitor_misses": miss}
        plan["hb"] = [period / 1000, miss]
    if plan["profile"]["lat"] == "wild":
        # keep heartbeats comfortably above the latency profile
        plan["cfg"]["controller"]["HeartMonitor"] = {"period": 1500, "max_heartmonitor_misses": 3}
        plan["hb"] = [1.5, 3]
    return plan


def gen_faults(rng, n_eng, n_cl, deaths=True, focus=None):
    out = []
    T = rng.choice([0.5, 2.0, 5.0, 10.0])
    if deaths:
        for i in range(rng.choice([0, 1, 1, 1, 2])):
            out.append({"kind": "kill_engine", "eng": rng.randrange(n_eng), "at": round(rng.uniform(0, T), 3)})
        if rng.random() < 0.25:
            # a live engine is stopped long enough to be declared dead
            out.append({"kind": "pause", "proc": f"engine{rng.randrange(n_eng)}",
                        "at": round(rng.uniform(0, T), 3), "dur": rng.choice([4.0, 8.0, 12.0, 20.0])})
        if rng.random() < 0.15:
            out.append({"kind": "hb_drop", "eng": rng.randrange(n_eng),
                        "at": round(rng.uniform(0, T), 3), "dur": rng.choice([3.0, 8.0])})
    if rng.random() < 0.35:
        out.append({"kind": "start_engine", "at": round(rng.uniform(0, T), 3)})
    if rng.random() < 0.3:
        out.append({"kind": "pause", "proc": rng.choice(
            ["task", "hub", "hub", f"engine{rng.randrange(n_eng)}", f"client{rng.randrange(n_cl)}"]),
            "at": round(rng.uniform(0, T), 3), "dur": rng.choice([0.05, 0.3, 1.0])})
    if rng.random() < 0.25:
        a, b = rng.choice([("task", "hub"), ("task", f"engine{rng.randrange(n_eng)}"),
                           ("task", f"client{rng.randrange(n_cl)}"),
                           ("hub", f"client{rng.randrange(n_cl)}")])
        out.append({"kind": "stall", "a": a, "b": b, "at": round(rng.uniform(0, T), 3),
                    "dur": rng.choice([0.1, 0.5, 1.0])})
    if rng.random() < 0.12:
        proc = rng.choice([None, "task", "hub", f"engine{rng.randrange(n_eng)}", f"client{rng.randrange(n_cl)}"])
        by = rng.choice([-3600, -5, 5, 3600])
        if proc in (None, "hub") and by < 0:
            # tornado's PeriodicCallback stops for as long as the wall clock is set
            # back: a large step of the hub's clock stops heartbeats altogether
            by = -5
        out.append({"kind": "clock", "at": round(rng.uniform(0, T), 3), "by": by, "proc": proc})
    return out


def clock_forward(w):
    return sum(h["by"] for h in w.hist if h["k"] == "clock" and h["by"] > 0)


def clock_back(w):
    return sum(-h["by"] for h in w.hist if h["k"] == "clock" and h["by"] < 0)
