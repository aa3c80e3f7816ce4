"""Connection files (K04): the real Cluster API launches the real controller and
real engines in simulated processes; they, and a client, find each other by the
connection files.  Controllers are stopped, killed and crash while they write the
files, disks are full; later clusters start in the same directory."""

import asyncio
import errno
import json
import os
import signal
import stat

from . import common, core, scn_cluster, simfs, world
from .common import Bad
from .scn_cluster import OP

CTL = {"hb", "TaskScheduler", "DirectScheduler", "ControlScheduler", "IOPubScheduler"}
_done = False


def install():
    global _done
    scn_cluster.install()
    if _done:
        return
    _done = True
    import ipyparallel.controller.app as capp

    def sim_signal(num, handler):
        s = core._in_sim()
        if s is not None:
            s.current.proc.cwd_data.setdefault("signals", {})[int(num)] = handler

    capp.signal = sim_signal
    os.umask(0o022)


def gen(rng, prop):
    plan = {"profile": common.profile(rng), "mode": "async"}
    plan["profile"]["line_p"] = rng.choice([0.0, 0.0, 0.01, 0.03])
    plan["grace"] = 5
    plan["cluster_id"] = rng.choice(["", "", "c1"])
    plan["reuse"] = rng.random() < 0.4
    plan["cfg"] = {
        "Cluster": {"delay": rng.choice([0.0, 0.1, 1.0]), "load_profile": False, "engine_timeout": 60,
                    "send_engines_connection_env": rng.random() < 0.6},
        "LocalProcessLauncher": {"stop_seconds_until_kill": 5},
        "LocalEngineSetLauncher": {"delay": rng.choice([0.0, 0.1])},
        "ControllerLauncher": {"connection_info_timeout": 20},
    }
    plan["boot"] = rng.choice([0.0, 0.3, 1.5])  # a controller's start takes this long
    rounds = []
    for i in range(rng.choice([1, 2, 2, 3])):
        r = {"n": rng.choice([1, 2]), "api": rng.choice(["connect", "connect", "steps"]), "readers": []}
        k = rng.random()
        if k < 0.35:
            r["crash"] = {"fs": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])}
        elif k < 0.45:
            r["crash"] = {"at": round(rng.uniform(0, 3), 3)}
        elif k < 0.55:
            r["disk"] = {"errno": rng.choice([errno.ENOSPC, errno.EIO]), "skip": rng.choice([0, 1, 2])}
        r["end"] = rng.choice(["stop", "stop", "kill", "kill", "kill_ctl"])
        for _ in range(rng.choice([0, 0, 1, 2])):
            # processes started by hand that wait for the connection file
            r["readers"].append({"kind": rng.choice(["client", "engine"]), "at": round(rng.uniform(0, 2.5), 3)})
        rounds.append(r)
    last = rounds[-1]
    last.pop("crash", None)
    last.pop("disk", None)
    plan["rounds"] = rounds
    plan["clients"] = []
    plan["faults"] = []
    plan["shrink"] = [["rounds"]]
    return plan


class FOS(scn_cluster.OS):
    """children of the cluster are real controllers and engines"""

    def spec(self, kind):
        return {}

    def write_info(self, p, delay):
        pass

    def spawn(self, argv, env, stdout):
        p = super().spawn(argv, env, stdout)
        run = self.run
        p.round = run.round
        p.proc = run.boot_controller(p) if p.kind == "controller" else run.boot_engine(p)
        p.proc.on_exit.append(lambda pr: self.end(p, pr.exit_code, "itself"))
        return p

    def end(self, p, code, why):
        if p.died is not None:
            return
        p.kind, kind = "x", p.kind  # the real controller cleans up by itself
        try:
            super().end(p, code, why)
        finally:
            p.kind = kind

    def kill(self, pid, sig):
        s = self.sim
        p = self.table.get(pid)
        if p is None or p.gone:
            raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
        if sig == 0:
            return
        p.signals.append((s.now, int(sig)))
        if p.died is not None:
            return
        h = p.proc.cwd_data.get("signals", {}).get(int(sig))
        if sig == signal.SIGKILL or h is None:
            self.run.die(p, -int(sig))
        else:
            t = s.spawn(lambda: h(sig, None), name="signal", proc=p.proc)
            t.is_app = False


class Run(scn_cluster.Run):
    def __init__(self, sim, plan, prop):
        super().__init__(sim, plan, prop)
        self.os = FOS(self)
        self.round = -1
        self.rounds = []
        self.partial = []
        self.exposed = []
        self.readers = []
        self.wrote = []
        self.used = set()

    def make(self):
        from ipyparallel.cluster.cluster import Cluster

        return Cluster(profile_dir=self.profile_dir, cluster_id=self.plan["cluster_id"], config=self.config(),
                       shutdown_atexit=False)

    def path(self, kind):
        cid = self.plan["cluster_id"]
        return os.path.join(self.profile_dir, "security", "ipcontroller-" + (cid + "-" if cid else "") + kind + ".json")

    # ---- processes --------------------------------------------------------
    def boot_controller(self, p):
        w, s = self.world, self.sim
        r = self.rounds[-1]
        spec = r["spec"]
        proc = s.new_proc(f"hub{len(self.os.order)}")
        w.controller_proc = proc
        proc.fs_on = True
        w.controller = None
        w.ctl_ready = False
        r["ctl"] = p
        fl = simfs.faults(s)
        c = spec.get("crash")
        if c and "fs" in c:
            fl.crash_after[proc.name] = c["fs"]
        d = spec.get("disk")
        if d:
            fl.error_skip = d["skip"]
            fl.error_until[proc.name] = (1e9, d["errno"])
            s.count("fault:disk_error")
        if c and "at" in c:
            s.after(c["at"], lambda: self.die(p, -9) if p.died is None else None)
        kw = {"IPController": {"reuse_files": self.plan["reuse"], "cluster_id": p.env.get("IPP_CLUSTER_ID", "")}}

        def main():
            s.sleep(self.plan["boot"])
            try:
                w._controller_main(kw)
            except OSError as e:
                w.h("ctl_failed", pid=p.pid, err=str(e)[:80])
                self.die(p, 1)
                raise core.SimKilled()

        t = s.spawn(main, name="main", proc=proc)
        t.is_app = True
        return proc

    def die(self, p, code):
        """kill -9 of the process group"""
        w, s = self.world, self.sim
        if p.kind == "controller":
            w.h("ctl_dies", pid=p.pid, code=code)
            for pr in list(s.procs):
                if pr.alive and (pr.name in CTL or pr.name.startswith("Broadcast")):
                    pr.kill(-9)
        p.proc.kill(code)

    def boot_engine(self, p=None, env=None):
        w, s = self.world, self.sim
        env = p.env if p is not None else env
        e = world.EngineHandle(w, len(w.engines))
        w.engines.append(e)
        e.round = self.round
        e.proc = s.new_proc(f"engine{e.index}")
        e.proc.cwd_data["engine"] = e
        run = self

        def main():
            from traitlets.config import Config

            c = Config()
            c.IPEngine.enable_nanny = False
            c.HistoryManager.enabled = False
            c.IPEngine.wait_for_url_file = 30
            app = world.M["SimEngine"](config=c)
            app.connection_info_env = env.get("IPP_CONNECTION_INFO", "")
            app.url_file = run.path("engine")
            e.app = app
            e.started = s.now
            app.init_engine()
            app.start()

        t = s.spawn(main, name="main", proc=e.proc)
        t.is_app = True
        return e.proc

    # ---- the files --------------------------------------------------------
    def look(self, where):
        """at every file operation"""
        sec = os.path.join(self.profile_dir, "security")
        for name in sorted(os.listdir(sec)):
            if not name.startswith("ipcontroller-"):
                continue
            f = os.path.join(sec, name)
            try:
                st = os.stat(f)
                with simfs.real_open(f) as fh:
                    txt = fh.read()
            except OSError:
                continue
            if st.st_size and stat.S_IMODE(st.st_mode) & 0o077 and "key" in txt and not self.exposed:
                self.exposed.append((self.sim.now, where, name, oct(stat.S_IMODE(st.st_mode))))
            if name.endswith(".json") and not self.partial:
                try:
                    d = json.loads(txt)
                    d["key"], d["registration"], d["signature_scheme"], d["pack"]
                except (ValueError, KeyError, TypeError):
                    self.partial.append((self.sim.now, where, name, txt[-40:]))

    def info(self, kind):
        try:
            with simfs.real_open(self.path(kind)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None


def start(sim, plan, prop):
    install()
    run = Run(sim, plan, prop)
    sim.ctx["run"] = run
    import sys

    path = list(sys.path)
    try:
        sim.run(lambda s: _main(run))
    finally:
        for c in scn_cluster._clusters:
            c.shutdown_atexit = False
        scn_cluster._clusters.clear()
        sys.path[:] = path
    return run


def _main(run):
    s, plan, w = run.sim, run.plan, run.world
    w.security_dir = os.path.join(run.profile_dir, "security")
    fl = simfs.faults(s)
    fl.watch = "ipcontroller"
    fl.error_skip = 0
    point = fl.point

    def looked(kind, path):
        if "ipcontroller" in str(path):
            run.look((s.current.proc.name, kind))
        if fl.error_until.get(s.current.proc.name) and "ipcontroller" in str(path) and fl.error_skip > 0 and kind in ("open", "write", "replace"):
            fl.error_skip -= 1
            return
        point(kind, path)
        s.maybe_yield("sched", 0.3)

    fl.point = looked
    for i, spec in enumerate(plan["rounds"]):
        run.round = i
        r = {"i": i, "spec": spec, "t0": s.now, "ctl": None, "err": None, "ids": None, "done": None, "tasks": None, "faulty": False}
        run.rounds.append(r)
        r["old"] = [run.info("client"), run.info("engine")]
        r["engines0"] = len(w.engines)
        proc = s.new_proc(f"owner{i}")
        proc.fs_on = True
        done = []
        s.spawn(lambda: _owner(run, r, proc, done), name="main", proc=proc)
        for k, rd in enumerate(spec["readers"]):
            s.at(s.now + rd["at"], _reader, run, r, rd)
        end = s.now + 200
        while not done and s.now < end:
            s.sleep(0.05)
        r["hung"] = not done
        t = s.now
        if done:
            # what was started by hand has its time
            while s.now < t + 45 and any(x["t1"] is None for x in run.readers if x["round"] == i):
                s.sleep(0.2)
        r["state"] = [run.info("client"), run.info("engine")]
        r["reg"] = _registered(run)
        # the end of the round
        w.h("round_end", i=i, how=spec["end"])
        if spec["end"] == "stop" and r["done"] is not None and not r["hung"]:
            done.clear()
            r["stop"].set()
            end = s.now + 60
            while not done and s.now < end:
                s.sleep(0.05)
            r["stopped"] = bool(done)
            r["after"] = [run.info("client"), run.info("engine")]
        for p in list(run.os.order):
            if p.died is None and (spec["end"] != "kill_ctl" or p.kind == "controller"):
                run.die(p, -9)
        s.sleep(0.05 if plan["boot"] else 0.2)
        for p in list(run.os.order):
            if p.died is None:
                run.die(p, -9)
        for x in run.readers:
            if x["proc"].alive:
                x["proc"].kill(-9)
        proc.kill(-9)
        for pr in list(s.procs):
            if pr.alive and (pr.name in CTL or pr.name.startswith("Broadcast")):
                pr.kill(-9)
        fl.crash_after.clear()
        fl.error_until.clear()
        s.sleep(0.2)
    run.look(("driver", "end"))
    w.h("end")


def _registered(run):
    w = run.world
    if w.controller is None or not w.controller_proc.alive or not w.ctl_ready:
        return None
    return sorted(str(v.uuid) for v in w.hub.engines.values())


class Flag:
    def __init__(self):
        self.v = False

    def set(self):
        self.v = True


def _owner(run, r, proc, done):
    s = run.sim
    spec = r["spec"]
    r["stop"] = Flag()

    async def main():
        c = run.make()
        r["cluster"] = c
        try:
            if spec["api"] == "connect":
                rc = await c.start_and_connect(n=spec["n"])
            else:
                await c.start_controller()
                await c.start_engines(spec["n"])
                rc = await c.connect_client()
                await asyncio.wrap_future(rc.wait_for_engines(spec["n"], block=False, timeout=60))
            r["reg_url"] = rc._config["registration"] if hasattr(rc, "_config") else None
            r["ids"] = list(rc.ids)
            ar = rc[:].map_async(_double, list(range(5)))
            r["tasks"] = await asyncio.wrap_future(ar)
            rc.close()
        except Exception as e:
            r["err"] = (type(e).__name__, str(e)[:200])
        r["done"] = s.now
        run.world.h("round_up", i=r["i"], err=r["err"])
        done.append(1)
        while not r["stop"].v:
            await asyncio.sleep(0.1)
        try:
            await c.stop_cluster()
        except Exception as e:
            r["stop_err"] = (type(e).__name__, str(e)[:200])
        done.append(1)

    asyncio.set_event_loop(asyncio.new_event_loop())
    asyncio.get_event_loop().run_until_complete(main())


def _double(x):
    return x * 2


def _reader(run, r, rd):
    """a client or engine started by hand, waiting for the controller's file"""
    s, w = run.sim, run.world
    x = {"kind": rd["kind"], "round": r["i"], "t0": s.now, "t1": None, "err": None, "ids": None,
         "have": [run.info("client"), run.info("engine")]}
    ctl = r["ctl"]
    x["ctl_alive"] = ctl is not None and ctl.died is None
    run.readers.append(x)
    if rd["kind"] == "engine":
        x["proc"] = run.boot_engine(None, {})
        e = w.engines[-1]
        x["eng"] = e

        def look():
            while s.now < x["t0"] + 40 and x["proc"].alive and not (e.app is not None and e.app.id is not None and e.app.kernel is not None):
                s.sleep(0.1)
            x["t1"] = s.now
            x["alive"] = x["proc"].alive
            x["id"] = e.app.id if e.app is not None else None
            x["uuid"] = e.uuid
        s.spawn(look, name=f"look{len(run.readers)}")
        return
    proc = x["proc"] = s.new_proc(f"byhand{len(run.readers)}")

    def main():
        from ipyparallel import Client

        try:
            rc = Client(profile_dir=run.profile_dir, cluster_id=run.plan["cluster_id"] or None, timeout=30)
            x["ids"] = list(rc.ids)
        except Exception as e:
            x["err"] = (type(e).__name__, str(e)[:200])
        x["t1"] = s.now
        w.h("reader", kind_="client", err=x["err"])

    s.spawn(main, name="main", proc=proc)


# ---------------------------------------------------------------------------
def judge(run, prop):
    plan = run.plan
    if run.exposed:
        t, where, name, mode = run.exposed[0]
        raise Bad("key-exposed", f"at {t:.3f} ({where}) {name} holds the key with mode {mode}")
    if run.partial:
        t, where, name, txt = run.partial[0]
        raise Bad("incomplete-file", f"at {t:.3f} ({where}) {name} ends with {txt!r}")
    n = 0
    for r in run.rounds:
        spec = r["spec"]
        text = f"round {r['i']}"
        faulty = bool(spec.get("crash") or spec.get("disk"))
        if r["hung"]:
            raise Bad("hung", f"{text}: {spec['api']} neither connected nor failed in 200s")
        ctl = r["ctl"]
        if not faulty:
            n += 1
            if r["err"] is not None and r["err"][0] in ("EngineError", "TimeoutError") and r["old"][1] and (
                    r["old"][1] != r["state"][1] and not plan["cfg"]["Cluster"]["send_engines_connection_env"]):
                raise Bad("engines-used-stale-file", f"{text}: engines that read the file of a killed controller: {r['err']}")
            if r["err"] is not None:
                raise Bad("not-connected:" + r["err"][0], f"{text} without faults: {r['err']}")
            if len(r["ids"]) < spec["n"]:
                raise Bad("engines-missing", f"{text}: {spec['n']} engines started, ids {r['ids']}")
            if list(r["tasks"]) != [2 * i for i in range(5)]:
                raise Bad("wrong-result", f"{text}: map gave {r['tasks']}")
            c, e = r["state"]
            if not c or not e or c["key"] != e["key"] or c["registration"] != e["registration"]:
                raise Bad("files-disagree", f"{text}: connection files {c and c['registration']} {e and e['registration']}")
            if plan["reuse"] and r["old"][0] and r["old"][1] and r["old"][0]["key"] == r["old"][1]["key"]:
                if (c["key"], c["registration"], c["mux"]) != tuple(r["old"][0][k] for k in ("key", "registration", "mux")):
                    raise Bad("not-reused", f"{text}: reuse_files, but the connection files changed")
            for x in run.readers:
                if x["round"] != r["i"]:
                    continue
                k = 0 if x["kind"] == "client" else 1
                if x["have"][k] and x["have"][k] != r["state"][k]:
                    continue  # of a killed controller: nothing tells such files from good ones
                n += 1
                if x["kind"] == "client":
                    if x["t1"] is None or x["err"] is not None:
                        raise Bad("client-failed", f"{text}: Client() that waited for the file from {x['t0']:.3f}: {x['err']}")
                elif x["t1"] is None or not x.get("alive") or x.get("id") is None or r["reg"] is None or str(x["uuid"]) not in r["reg"]:
                    raise Bad("engine-failed", f"{text}: an engine that waited for the file from {x['t0']:.3f} did not register: alive {x.get('alive')}, id {x.get('id')}")
        if r.get("stopped") and r["err"] is None and not faulty:
            if r.get("stop_err"):
                raise Bad("stop-failed", f"{text}: stop_cluster raised {r['stop_err']}")
            if not plan["reuse"] and (r["after"][0] or r["after"][1]) and ctl.code == 0:
                raise Bad("files-left", f"{text}: connection files left after a clean stop")
            if plan["reuse"] and (not r["after"][0] or not r["after"][1]):
                raise Bad("files-not-kept", f"{text}: reuse_files, but they are gone after a clean stop")
        elif "stopped" in r and not r["stopped"]:
            raise Bad("stop-hung", f"{text}: stop_cluster did not return in 60s")
    run.sim.ctx["nontrivial"] = n > 0
    run.sim.ctx["probes"] = {"rounds": len(run.rounds), "checks": n}
