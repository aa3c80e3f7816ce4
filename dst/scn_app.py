"""The ipcluster command (K05): start, engines, stop, list and clean as processes
of their own, with signals, deaths and failures, on the simulated process table of
scn_cluster.  cluster/app.py, apps/baseapp.py, cluster.py, launcher.py and
_async.py are real."""

import asyncio
import contextlib
import io
import json
import logging
import os
import signal
import sys

from . import common, core, scn_cluster, simfs, world
from .common import Bad
from .scn_cluster import OP, _pids

UP = 30.0  # a command is up, or has ended, after this long
_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    import ipyparallel.apps.baseapp as base
    import ipyparallel.cluster.app as capp

    base.BaseParallelApplication._log_default = lambda self: world.sim_logger("ipcluster")
    base.BaseParallelApplication.reinit_logging = lambda self: None

    class Sys:
        """sys, with the output of a simulated process kept apart"""

        def __getattr__(self, k):
            s = core._in_sim()
            if s is not None and k in ("stdout", "stderr"):
                return s.current.proc.cwd_data.setdefault(k, io.StringIO())
            return getattr(sys, k)

    capp.sys = Sys()
    core.trace_lines([base])


# ---------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------
def gen(rng, prop):
    plan = {"profile": common.profile(rng), "mode": "app"}
    plan["profile"]["line_p"] = rng.choice([0.0, 0.0, 0.01, 0.05])
    plan["grace"] = rng.choice([1, 5])
    plan["cluster_id"] = rng.choice(["", "", "c1"])
    plan["early"] = rng.choice([3, 30])
    plan["delay"] = rng.choice([0.0, 0.1, 1.0])
    plan["cfg"] = {
        "LocalProcessLauncher": {"poll_seconds": rng.choice([1, 30]), "stop_seconds_until_kill": plan["grace"]},
        "LocalEngineSetLauncher": {"delay": rng.choice([0.0, 0.1])},
        "Cluster": {"delay": plan["delay"], "send_engines_connection_env": rng.random() < 0.2},
    }

    def spec(kind):
        sp = {"term": rng.choice([0.0, 0.02, 0.02, 0.02, 0.3, 1.5, None]), "term_code": rng.choice([-15, 0, 0, 1])}
        if kind == "controller":
            sp["up"] = rng.choice([0.0, 0.1, 0.5])
        return sp

    plan["procs"] = {"controller": [spec("controller") for _ in range(6)], "engine": [spec("engine") for _ in range(16)]}
    steps = []
    fails = rng.random() < 0.15
    if fails:
        k = rng.choice(["controller", "engine", "engine"])
        plan["procs"][k][rng.randrange(2)]["fail"] = True

    def sleep(hi=4):
        if rng.random() < 0.6:
            steps.append({"s": "sleep", "d": round(rng.uniform(0, hi), 3)})

    def probe():
        r = rng.random()
        if r < 0.25:
            steps.append({"s": "list"})
        elif r < 0.4:
            steps.append({"s": "start", "n": 1, "daemonize": rng.random() < 0.5})
        elif r < 0.5:
            steps.append({"s": "clean"})
        elif r < 0.6:
            steps.append({"s": "app_sig", "sig": int(signal.SIGUSR1)})
        elif r < 0.7:
            steps.append({"s": "die", "what": rng.choice(["one", "engines", "controller"]), "code": rng.choice([0, 1, -9])})
        elif r < 0.75:
            steps.append({"s": "engines", "n": rng.choice([1, 2]), "other": rng.random() < 0.8})

    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.15:
            probe()
        daemon = rng.random() < 0.4
        st = {"s": rng.choice(["start"] * 5 + ["engines"]), "n": rng.choice([1, 2, 3]), "daemonize": daemon}
        if st["s"] == "engines":
            st["daemonize"] = daemon = False
        if not daemon and rng.random() < 0.4:
            # while it starts
            st["nowait"] = round(rng.choice([rng.uniform(0, 0.3), rng.uniform(0, 2)]), 3)
        steps.append(st)
        if "nowait" not in st:
            for _ in range(rng.choice([0, 1, 1, 2])):
                sleep()
                probe()
            sleep(10)
        if daemon:
            end = rng.choice(["stop", "stop", "stop", "kill_all", "die"])
        else:
            end = rng.choice(["sig", "sig", "sig", "stop", "kill_app", "die"])
        if end == "sig":
            steps.append({"s": "app_sig", "sig": int(rng.choice([signal.SIGINT, signal.SIGTERM, signal.SIGTERM]))})
            if rng.random() < 0.2:
                steps[-1]["again"] = round(rng.uniform(0, 1.5), 3)
        elif end == "die":
            steps.append({"s": "die", "what": rng.choice(["engines", "controller", "controller"]), "code": rng.choice([0, 1, -9])})
        else:
            steps.append({"s": end})
        sleep(6)
        if end == "kill_app" and rng.random() < 0.7:
            steps.append({"s": rng.choice(["stop", "kill_all"])})
        if rng.random() < 0.25:
            steps.append({"s": rng.choice(["stop", "list", "clean"])})
    plan["clients"] = [{"ops": steps}]
    plan["faults"] = []
    return plan


# ---------------------------------------------------------------------------
# runs
# ---------------------------------------------------------------------------
class App:
    """One invocation of ipcluster."""

    def __init__(self, run, step, cluster_id):
        self.run = run
        self.step = step
        self.cmd = step["s"]
        self.cluster_id = cluster_id
        s = run.sim
        self.index = len(run.apps)
        run.apps.append(self)
        self.t0 = s.now
        self.t1 = None
        self.code = None
        self.err = None
        self.app = None
        self.sigs = []
        self.default_kill = False
        self.alive0 = run.alive()
        self.all0 = {x for c in (run.plan["cluster_id"], "other") for x in _listed(run.read(c) or {})} & set(self.alive0)
        self.file0 = run.read(cluster_id)
        self.proc = s.new_proc(f"ipcluster{self.index}")
        self.proc.fs_on = True
        th = s.spawn(self.main, name="main", proc=self.proc)
        th.is_app = True

    @property
    def running(self):
        return self.t1 is None and self.proc.alive

    def mine(self):
        return [p for p in self.run.os.order if p.op == self.index]

    def argv(self):
        st, run = self.step, self.run
        a = [f"--profile-dir={run.profile_dir}", f"--ipython-dir={run.world.run_dir}"]
        if self.cluster_id and self.cmd != "clean":
            a.append(f"--cluster-id={self.cluster_id}")
        if self.cmd in ("start", "engines"):
            a.append(f"--n={st['n']}")
            if st.get("daemonize"):
                a.append("--daemonize")
            a.append(f"--IPClusterEngines.early_shutdown={run.plan['early']}")
        if self.cmd == "list":
            a.append("-o")
            a.append("json")
        for sec, vals in run.plan["cfg"].items():
            for k, v in vals.items():
                a.append(f"--{sec}.{k}={v}")
        return a

    def main(self):
        import ipyparallel.cluster.app as capp

        run, s = self.run, self.run.sim
        OP.set(self.index)
        asyncio.set_event_loop(asyncio.new_event_loop())
        cls = {"start": capp.IPClusterStart, "engines": capp.IPClusterEngines, "stop": capp.IPClusterStop,
               "list": capp.IPClusterList, "clean": capp.IPClusterClean}[self.cmd]
        run.world.h("cmd", cmd=self.cmd, index=self.index)
        code = 0
        try:
            self.app = cls()
            self.app.initialize(self.argv())
            self.app.start()
        except SystemExit as e:
            code = e.code
        except KeyboardInterrupt:
            code = -2
        except Exception as e:
            self.err = (type(e).__name__, str(e)[:200])
            code = 1
        if not self.proc.alive:
            raise core.SimKilled()  # however the program took it
        for f, a, kw in reversed(self.proc.cwd_data.get("atexit", [])):
            try:
                f(*a, **kw)
            except Exception as e:
                self.err = (type(e).__name__, "atexit: " + str(e)[:200])
        self.code = 0 if code is None else code
        self.out = self.proc.cwd_data.get("stdout", io.StringIO()).getvalue()
        self.t1 = s.now
        self.left = [p.pid for p in self.mine() if p.died is None]
        self.alive1 = run.alive()
        self.file1 = run.read(self.cluster_id)
        run.world.h("cmd_end", cmd=self.cmd, index=self.index, code=self.code, err=self.err)
        self.proc.exited(0)

    def signal(self, sig):
        """a signal from outside"""
        run, s = self.run, self.run.sim
        if not self.running:
            return False
        h = self.proc.cwd_data.get("signals", {}).get(sig)
        run.world.h("app_signal", sig=sig, index=self.index, handled=h is not None)
        s.count(f"fault:signal_{sig}")
        if h is None:
            if sig in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1):
                self.default_kill = True
                self.proc.kill(-sig)
            return True
        # what it sends on is asked for by now
        self.sigs.append({"t": s.now, "sig": sig, "engines": [p.pid for p in self.mine() if p.kind == "engine" and p.died is None],
                          "up": self.up(), "quiet": self.quiet()})
        s.spawn(lambda: h(sig, None), name="signal", proc=self.proc)
        return True

    def up(self):
        """has started all it was asked to"""
        m = self.mine()
        ctls = 1 if self.cmd == "start" else 0
        return len(m) >= ctls + self.step["n"]

    def quiet(self):
        m = self.mine()
        return bool(m) and self.run.sim.now > max(p.born for p in m) + 2.0


class Run(scn_cluster.Run):
    def __init__(self, sim, plan, prop):
        super().__init__(sim, plan, prop)
        self.apps = []
        self.marks = []

    def path(self, cluster_id):
        return os.path.join(self.profile_dir, "security", f"cluster-{cluster_id}.json")

    def read(self, cluster_id):
        try:
            with simfs.real_open(self.path(cluster_id)) as f:
                return json.load(f)
        except FileNotFoundError:
            return None
        except ValueError:
            return False

    def alive(self):
        return [p.pid for p in self.os.order if p.died is None]

    def fg(self):
        for a in reversed(self.apps):
            if a.cmd in ("start", "engines") and a.running:
                return a
        return None


def start(sim, plan, prop):
    scn_cluster.install()
    install()
    run = Run(sim, plan, prop)
    sim.ctx["run"] = run
    path = list(sys.path)
    try:
        sim.run(lambda s: _main(run))
    finally:
        for c in scn_cluster._clusters:
            c.shutdown_atexit = False
        scn_cluster._clusters.clear()
        sys.path[:] = path
    return run


def _main(run):
    s, plan = run.sim, run.plan
    fl = simfs.faults(s)
    fl.watch = os.path.basename(run.file)
    cid = plan["cluster_id"]
    for st in plan["clients"][0]["ops"]:
        k = st["s"]
        run.world.h("step", s=k)
        if k == "sleep":
            s.sleep(st["d"])
            continue
        if k in ("start", "engines", "stop", "list", "clean"):
            a = App(run, st, "other" if st.get("other") else cid)
            if "nowait" in st:
                s.sleep(st["nowait"])
            else:
                _settle(run, a)
            continue
        fg = run.fg()
        if k == "app_sig":
            if fg is not None:
                fg.signal(st["sig"])
                if "again" in st:
                    s.sleep(st["again"])
                    fg.signal(st["sig"])
        elif k == "kill_app":
            if fg is not None:
                s.count("fault:crash")
                run.world.h("kill_app", index=fg.index)
                fg.proc.kill(-9)
        elif k in ("kill_all", "die"):
            for p in list(run.os.order):
                if p.died is not None:
                    continue
                if k == "kill_all" or st["what"] == p.kind or (st["what"] == "engines" and p.kind == "engine") or (
                        st["what"] == "one" and p.kind == "engine"):
                    s.count("fault:child_death")
                    run.os.end(p, -9 if k == "kill_all" else st["code"], "itself")
                    if k == "die" and st["what"] == "one":
                        break
        if k in ("app_sig", "kill_app", "die", "kill_all"):
            # leave time for the consequences most of the time
            s.sleep(0.2)
            if fg is not None and fg.running:
                _settle(run, fg)
    for a in run.apps:
        if a.running:
            _settle(run, a)
    run.t_end = s.now
    run.world.h("end")
    run.still = [a.index for a in run.apps if a.running]
    run.alive_end = run.alive()


def _bound(run):
    """ample time to stop everything: one after the other"""
    g = run.plan["grace"]
    return 4.0 + sum(0.5 + min(g, 9e9 if p.spec.get("term", 0.05) is None else p.spec.get("term", 0.05)) for p in run.os.order[-20:])


def _settle(run, a):
    """until a has ended, or is up and no more is due"""
    s = run.sim
    t0 = s.now
    while a.running and s.now < t0 + UP:
        s.sleep(0.1)
        if a.cmd in ("start", "engines") and not a.step.get("daemonize"):
            if s.now > t0 + 1.0 + 1.5 * run.plan["delay"] + 0.2 * a.step["n"] and not _due(run, a):
                break


def _due(run, a):
    """the moment (foreground) a had reason to end, or None"""
    ts = []
    for g in a.sigs:
        if g["sig"] == signal.SIGTERM or g["sig"] == signal.SIGINT and a.cmd == "start":
            ts.append(g["t"])
    m = a.mine()
    for p in m:
        if p.kind == "controller" and p.died is not None:
            ts.append(p.died)
    es = [p for p in m if p.kind == "engine"]
    if len(es) == a.step["n"] and all(p.died is not None for p in es):
        t = max(p.died for p in es)
        # told by the time the engines were started: leave some room
        if a.cmd == "engines" or t < max(p.born for p in es) + run.plan["early"] - 0.5:
            ts.append(t)
    if any(h["k"] == "spawn_error" and h["op"] == a.index for h in run.world.hist):
        ts.append(max(h["t"] for h in run.world.hist if h["k"] == "spawn_error" and h["op"] == a.index))
    return min(ts) if ts else None


# ---------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------
def _listed(d):
    f = _pids(d)
    out = {f["ctl"]} | {x for v in f["sets"].values() for x in v}
    out.discard(None)
    return out


def judge(run, prop):
    tab = run.os.table
    plan = run.plan
    n = 0
    clash = False
    for a in run.apps:
        st = a.step
        text = f"ipcluster {a.cmd} [{a.index}]"
        m = a.mine()
        failed = any(h["k"] == "spawn_error" and h["op"] == a.index for h in run.world.hist)
        listed0 = _listed(a.file0) if a.file0 else set()
        # (those that ended while the command was starting did not run)
        t_up = min([h["t"] for h in run.world.hist if h["k"] == "spawn" and h["op"] == a.index], default=a.t0)
        ran0 = {x for x in listed0 & set(a.alive0) if tab[x].died is None or tab[x].died >= t_up}
        if a.default_kill:
            continue
        killed = a.t1 is None and not a.proc.alive
        if a.cmd == "start":
            if ran0:
                n += 1
                if m:
                    raise Bad("started-twice", f"{text} started {[p.pid for p in m]} while {sorted(ran0)} of this cluster ran")
                if a.running or (a.code != 10 and not killed):
                    raise Bad("not-already-started", f"{text} with {sorted(ran0)} of this cluster running: exit code {a.code}")
                continue
            died_early = any(p.died is not None and p.died < p.born + 1.0 + 2 * plan["delay"] + 0.2 * st["n"] for p in m)
            if not killed and not a.sigs and not failed and not died_early and "nowait" not in st:
                n += 1
                cs = [p for p in m if p.kind == "controller"]
                es = [p for p in m if p.kind == "engine"]
                if not m and a.code == 10 and a.alive0 and run_busy(run, a):
                    continue  # what another command was stopping still ran
                if len(cs) != 1 or len(es) != st["n"]:
                    raise Bad("not-started", f"{text} -n {st['n']}: {len(cs)} controllers, {len(es)} engines started; exit code {a.code} {a.err}")
            if st.get("daemonize") and not failed and not killed and not died_early and not a.sigs:
                n += 1
                if a.t1 is None:
                    raise Bad("stuck", f"{text} --daemonize did not end")
                if a.code != 0:
                    raise Bad("daemonize", f"{text} --daemonize: exit code {a.code} {a.err}")
                dead = [p.pid for p in m if p.died is not None and p.died <= a.t1]
                if dead:
                    raise Bad("daemonize", f"{text} --daemonize left {dead} dead")
                if not {p.pid for p in m} <= _listed(a.file1):
                    raise Bad("missing-in-file", f"{text} --daemonize: the cluster file lists {_pids(a.file1)}")
        if a.cmd == "engines" and not killed and not a.sigs and not failed and "nowait" not in st:
            n += 1
            if len(m) != st["n"] or any(p.kind != "engine" for p in m):
                raise Bad("not-started", f"{text} -n {st['n']} started {[p.kind for p in m]}")
        if a.cmd in ("start", "engines") and not killed and (not st.get("daemonize") or failed):
            due = _due(run, a)
            what = "start" if a.cmd == "start" else "engines"
            if due is not None and a.t1 is None and run.t_end > due + _bound(run):
                n += 1
                raise Bad(f"did-not-end:{what}" + (":spawn" if failed else ""), f"{text} had reason to end at {due:.3f} and still runs at {run.t_end:.3f}; "
                          f"signals {[(round(g['t'], 3), g['sig']) for g in a.sigs]}")
            if a.t1 is not None:
                n += 1
                if due is None and a.code == 0:
                    raise Bad("ended-early", f"{text} ended at {a.t1:.3f} without a reason")
                if due is not None and a.t1 > due + _bound(run):
                    raise Bad("ended-late", f"{text} had reason to end at {due:.3f}, ended at {a.t1:.3f}")
                if a.left:
                    raise Bad("left-running", f"{text} ended at {a.t1:.3f} and left {[(tab[x].kind, x) for x in a.left]} running")
                # (a stop that is still under way writes the file, too)
                stopping = any(b.cmd == "stop" and b.t0 <= a.t1 and (b.t1 is None or b.t1 > a.t1) for b in run.apps)
                if a.file1 and _listed(a.file1) & {p.pid for p in m} and not stopping:
                    raise Bad("file-left", f"{text} ended; the cluster file lists {_pids(a.file1)}")
                if failed and a.code == 0 and not a.sigs:
                    raise Bad("failure-hidden", f"{text} could not start a process and ended with code 0")
        # relayed signals
        for g in a.sigs:
            relay = g["sig"] == signal.SIGUSR1 or (g["sig"] == signal.SIGINT and a.cmd == "engines")
            if not relay or not g["up"] or not g["quiet"]:
                continue
            n += 1
            for pid in g["engines"]:
                p = tab[pid]
                want = sum(1 for x in a.sigs if x["sig"] == g["sig"])
                got = sum(1 for t, sg in p.signals if sg == g["sig"])
                if got != want and (p.died is None or p.died > g["t"] + 1.5) and run.t_end > g["t"] + 1.5 and want == 1:
                    raise Bad("not-relayed", f"{text} got signal {g['sig']} at {g['t']:.3f}; engine {pid} got it {got} times")
        if a.cmd == "stop" and not killed:
            if a.t1 is None:
                raise Bad("stuck", f"{text} did not end")
            n += 1
            if a.file0 is None and run_busy(run, a):
                continue
            if a.file0 is None:
                if a.code != 11:
                    raise Bad("not-already-stopped", f"{text} without a cluster file: exit code {a.code} {a.err}")
            else:
                if a.code != 0:
                    raise Bad("stop-failed", f"{text} of a cluster with {_pids(a.file0)}: exit code {a.code} {a.err}")
                left = [x for x in listed0 if x in a.alive1]
                if left:
                    raise Bad("left-running", f"{text} ended and left {left} running")
                # (the command that started them writes the file, too)
                other = any(b.cmd in ("start", "engines") and b.cluster_id == a.cluster_id and b.t0 <= a.t1
                            and (b.t1 is None and b.proc.alive or b.t1 is not None and b.t1 > a.t1) for b in run.apps)
                if a.file1 is not None and _listed(a.file1) & listed0 and not other:
                    raise Bad("file-left", f"{text} left the cluster file: {_pids(a.file1)}")
        if a.cmd == "list":
            if a.t1 is None or a.code != 0:
                raise Bad("list-failed", f"{text}: exit code {a.code} {a.err}")
            steady = ran0 & set(a.alive1)
            out = json.loads(a.out)
            mine = [c for c in out if c["cluster"]["cluster_id"] == a.cluster_id]
            if steady and not run_busy(run, a):
                n += 1
                if len(mine) != 1 or not steady <= _listed(mine[0]):
                    raise Bad("not-listed", f"{text}: {sorted(steady)} run, listed: {[_pids(c) for c in out]}")
        if a.cmd == "clean" and a.t1 is not None:
            steady = a.all0 & set(a.alive1)
            if steady:
                n += 1
                if a.code == 0:
                    raise Bad("cleaned-running", f"{text} succeeded while {sorted(steady)} run")
            elif not a.all0 and not run_busy(run, a):
                if a.code != 0 or a.file1 is not None:
                    raise Bad("not-cleaned", f"{text} of a stopped cluster: exit code {a.code} {a.err}")
    run.sim.ctx["nontrivial"] = n > 0
    run.sim.ctx["probes"] = {"commands": len(run.apps), "checks": n, "spawned": len(run.os.order)}


def run_busy(run, a):
    """some other command was changing the cluster meanwhile"""
    for b in run.apps:
        if b is a or b.cmd not in ("start", "engines", "stop"):
            continue
        t1 = b.t1 if b.t1 is not None else (1e18 if b.proc.alive else b.t0)
        if b.t0 <= a.t1 and t1 >= a.t0:
            if b.cmd == "stop" or b.cluster_id == a.cluster_id and (not b.quiet_at(a.t0, a.t1)):
                return True
    return False


def _quiet_at(b, t0, t1):
    m = b.mine()
    if len(m) < b.step["n"]:
        return False
    if max(p.born for p in m) + 1.0 > t0:
        return False
    return not any(p.died is not None and p.died > t0 - 2 and p.died <= t1 for p in m)


App.quiet_at = _quiet_at
