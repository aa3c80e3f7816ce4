"""The cluster API and its local launchers: processes that are started, watched,
signalled and stopped (K01, K02), the cluster file other processes find them by
(K03), and the ipcluster command (K05).  The operating system's processes are
simulated; cluster.py, launcher.py, _async.py and cluster/app.py are real."""

import asyncio
import contextvars
import errno
import json
import os
import shutil
import signal
import subprocess
import types

from . import common, core, simfs, world
from .common import Bad

OP = contextvars.ContextVar("op", default=None)
GRACE_LAG = 1.0
NOISE = 0.7  # preempted threads


# ---------------------------------------------------------------------------
# the simulated operating system's process table
# ---------------------------------------------------------------------------
class P:
    """A process of the cluster (a controller or an engine)."""

    def __init__(self, os_, pid, spec, argv, env, parent):
        self.os = os_
        self.pid = pid
        self.spec = spec
        self.argv = argv
        self.env = env
        self.parent = parent
        self.kind = "controller" if any("controller" in str(a) for a in argv) else "engine"
        self.born = os_.sim.now
        self.died = None
        self.code = None
        self.reaped = False
        self.fd = None
        self.waiters = []
        self.signals = []
        self.op = OP.get()
        self.dying = None

    @property
    def gone(self):
        """no entry in the process table"""
        return self.died is not None and (self.reaped or self.parent is None or not self.parent.alive)


class OS:
    def __init__(self, run):
        self.run = run
        self.sim = run.sim
        self.table = {}
        self.order = []
        self.next = 50_000_000
        self.used = {"controller": 0, "engine": 0}

    def spec(self, kind):
        specs = self.run.plan["procs"][kind]
        i = self.used[kind]
        self.used[kind] = i + 1
        return specs[i % len(specs)] if specs else {}

    def spawn(self, argv, env, stdout):
        kind = "controller" if any("controller" in str(a) for a in argv) else "engine"
        sp = self.spec(kind)
        s = self.sim
        if sp.get("fail"):
            s.count("fault:spawn_error")
            self.run.world.h("spawn_error", proc=kind, op=OP.get())
            raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        self.next += 1
        p = P(self, self.next, sp, list(argv), dict(env or {}), s.current.proc)
        p.parent.on_exit.append(lambda pr, p=p: self._orphan(p))
        self.table[p.pid] = p
        self.order.append(p)
        if isinstance(stdout, int) and stdout >= 0:
            p.fd = os.dup(stdout)
        if p.kind == "controller":
            self.write_info(p, sp.get("up", 0.2))
        if sp.get("life") is not None:
            s.after(sp["life"], self.end, p, sp.get("code", 0), "itself")
        self.run.world.h("spawn", pid=p.pid, proc=p.kind, op=p.op, by=p.parent.name)
        return p

    def write_info(self, p, delay):
        """a controller writes its connection files when it is up"""
        def do():
            if p.died is not None:
                return
            d = os.path.join(self.run.profile_dir, "security")
            cid = p.env.get("IPP_CLUSTER_ID", "")
            pre = "ipcontroller-" + (cid + "-" if cid else "")
            for k in ("client", "engine"):
                with simfs.real_open(os.path.join(d, f"{pre}{k}.json"), "w") as f:
                    json.dump({"from": p.pid, "kind": k}, f)
            p.info_at = self.sim.now
        self.sim.after(delay, do)

    def _orphan(self, p):
        p.parent = None
        if p.died is not None:
            p.reaped = True

    def end(self, p, code, why):
        if p.died is not None:
            return
        s = self.sim
        p.died = s.now
        p.code = code
        if p.fd is not None:
            try:
                os.write(p.fd, f"last words of {p.pid}\n".encode())
                os.close(p.fd)
            except OSError:
                pass
            p.fd = None
        if p.kind == "controller":
            # a controller removes its files when it ends by itself
            if code == 0 and why != "KILL":
                d = os.path.join(self.run.profile_dir, "security")
                cid = p.env.get("IPP_CLUSTER_ID", "")
                pre = "ipcontroller-" + (cid + "-" if cid else "")
                for k in ("client", "engine"):
                    try:
                        simfs._real["remove"](os.path.join(d, f"{pre}{k}.json"))
                    except OSError:
                        pass
        s.count("proc_end:" + why)
        self.run.world.h("exit", pid=p.pid, code=code, why=why)
        ws, p.waiters = p.waiters, []
        for t in ws:
            s.wake(t, "exit")

    def kill(self, pid, sig):
        s = self.sim
        p = self.table.get(pid)
        if p is None or p.gone:
            raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
        sig = int(sig)
        if sig == 0:
            return
        p.signals.append((s.now, sig))
        self.run.world.h("signal", pid=pid, sig=sig, op=OP.get(), by=s.current.proc.name)
        if p.died is not None:
            return
        if sig == signal.SIGKILL:
            self.end(p, -9, "KILL")
        elif sig in (signal.SIGTERM, signal.SIGINT):
            d = p.spec.get("term", 0.05)
            if d is not None and p.dying is None:
                p.dying = s.now + d
                code = p.spec.get("term_code", -15)
                if d <= 0:
                    self.end(p, code, "TERM")
                else:
                    s.after(d, self.end, p, code, "TERM")

    def wait(self, p, timeout):
        """blocks until p has ended; False: it has not within timeout"""
        s = self.sim
        end = None if timeout is None else s.now + timeout
        while p.died is None:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                return False
            p.waiters.append(s.current)
            try:
                s.block(left, on="waitpid")
            finally:
                if s.current in p.waiters:
                    p.waiters.remove(s.current)
        return True

    def reap(self, p):
        """exit status for the parent, once"""
        if p.parent is self.sim.current.proc and not p.reaped:
            p.reaped = True
            return True, p.code
        return False, None


def _os():
    s = core._in_sim()
    if s is None:
        return None
    r = s.ctx.get("run")
    return getattr(r, "os", None)


class SimPopen:
    def __init__(self, args, stdout=None, stderr=None, stdin=None, env=None, cwd=None, **kw):
        o = _os()
        if hasattr(stdout, "fileno"):
            stdout = stdout.fileno()
        core.active().maybe_yield("sched", 0.2)
        self.p = o.spawn(args, env, stdout)
        self.args = args
        self.pid = self.p.pid
        self.returncode = None
        self.kw = kw

    def poll(self):
        if self.returncode is None and self.p.died is not None:
            ok, code = self.p.os.reap(self.p)
            self.returncode = code if ok else 0
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            if not self.p.os.wait(self.p, timeout):
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.poll()
        return self.returncode

    def send_signal(self, sig):
        if self.poll() is None:
            self.p.os.kill(self.pid, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


_no = object()


def _make_ps(psutil):
    class SimPs:
        """psutil.Process as psutil 7 does it on Linux"""

        def __init__(self, pid=None):
            o = _os()
            p = o.table.get(pid)
            if p is None or p.gone:
                raise psutil.NoSuchProcess(pid)
            self._p = p
            self.pid = pid
            self._code = _no

        def wait(self, timeout=None):
            if self._code is not _no:
                return self._code
            p = self._p
            if p.gone:
                self._code = None
                return None
            if not p.os.wait(p, timeout):
                raise psutil.TimeoutExpired(timeout, pid=self.pid)
            ok, code = p.os.reap(p)
            self._code = code if ok else None
            return self._code

        def is_running(self):
            return not self._p.gone

        def status(self):
            if self._p.gone:
                raise psutil.NoSuchProcess(self.pid)
            return psutil.STATUS_ZOMBIE if self._p.died is not None else psutil.STATUS_RUNNING

        def send_signal(self, sig):
            try:
                self._p.os.kill(self.pid, sig)
            except ProcessLookupError:
                raise psutil.NoSuchProcess(self.pid) from None

        def terminate(self):
            self.send_signal(signal.SIGTERM)

        def kill(self):
            self.send_signal(signal.SIGKILL)

        def create_time(self):
            return core.EPOCH + self._p.born

        def children(self, recursive=False):
            return []

        def name(self):
            return self._p.kind

        def cmdline(self):
            return list(self._p.argv)

    return SimPs


_done = False
_clusters = []


def install():
    global _done
    if _done:
        return
    _done = True
    import psutil

    import ipyparallel._async as ia
    import ipyparallel.cluster.app as capp
    import ipyparallel.cluster.cluster as cc
    import ipyparallel.cluster.launcher as cl

    real = psutil.Process
    ps = _make_ps(psutil)

    def process(pid=None):
        return ps(pid) if _os() is not None and pid is not None else real(pid)

    psutil.Process = process
    real_pid_exists = psutil.pid_exists

    def pid_exists(pid):
        o = _os()
        if o is None:
            return real_pid_exists(pid)
        p = o.table.get(pid)
        return p is not None and not p.gone

    psutil.pid_exists = pid_exists
    real_popen = subprocess.Popen

    def popen(*a, **kw):
        return SimPopen(*a, **kw) if _os() is not None else real_popen(*a, **kw)

    cl.Popen = popen
    # whatever way a signal is sent, it stays inside the simulation
    real_kill, real_killpg = os.kill, os.killpg

    def kill(pid, sig):
        o = _os()
        return real_kill(pid, sig) if o is None else o.kill(abs(pid), sig)

    def killpg(pid, sig):
        o = _os()
        return real_killpg(pid, sig) if o is None else o.kill(pid, sig)

    os.kill, os.killpg = kill, killpg
    import atexit as real_atexit

    def register(f, *a, **kw):
        s = core._in_sim()
        if s is None:
            return real_atexit.register(f, *a, **kw)
        s.current.proc.cwd_data.setdefault("atexit", []).append((f, a, kw))
        return f

    def unregister(f):
        s = core._in_sim()
        if s is None:
            return real_atexit.unregister(f)
        lst = s.current.proc.cwd_data.get("atexit", [])
        lst[:] = [x for x in lst if x[0] != f]

    cc.atexit = types.SimpleNamespace(register=register, unregister=unregister)

    class PerProcess:
        """the module's set of clusters to stop at exit: one for each process"""

        def _mine(self):
            return core.active().current.proc.cwd_data.setdefault("atexit_clusters", [])

        def add(self, c):
            m = self._mine()
            if not any(x is c for x in m):
                m.append(c)

        def discard(self, c):
            m = self._mine()
            m[:] = [x for x in m if x is not c]

        remove = discard

        def __iter__(self):
            return iter(list(self._mine()))

        def __len__(self):
            return len(self._mine())

        def __contains__(self, c):
            return any(x is c for x in self._mine())

    if hasattr(cc, "_atexit_clusters"):
        cc._atexit_clusters = PerProcess()
    init = cc.Cluster.__init__

    def __init__(self, *a, **kw):
        if core._in_sim() is not None:
            _clusters.append(self)
        init(self, *a, **kw)

    cc.Cluster.__init__ = __init__
    sig = types.SimpleNamespace(**{k: getattr(signal, k) for k in dir(signal) if not k.startswith("_")})

    def sim_signal(num, handler):
        s = core._in_sim()
        if s is not None:
            s.current.proc.cwd_data.setdefault("signals", {})[int(num)] = handler

    sig.signal = sim_signal
    capp.signal = sig
    core.trace_lines([cc, cl, ia, capp])


# ---------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------
def _spec(rng, prop, kind):
    sp = {}
    r = rng.random()
    if r < 0.30:
        sp["life"] = round(rng.choice([rng.uniform(0, 0.4), rng.uniform(0, 4), rng.uniform(2, 15)]), 3)
        sp["code"] = rng.choice([0, 0, 1, 1, -11, 255])
    sp["term"] = rng.choice([0.0, 0.02, 0.02, 0.1, 0.3, 1.5, 4.0, None])
    if rng.random() < 0.5:
        sp["term"] = 0.02
    sp["term_code"] = rng.choice([-15, 0, 0, 1])
    if kind == "controller":
        sp["up"] = rng.choice([0.0, 0.1, 0.5, 2.0])
    if prop == "K02" and rng.random() < 0.05:
        sp["fail"] = True
    return sp


def gen(rng, prop):
    plan = {"profile": common.profile(rng)}
    plan["profile"]["line_p"] = rng.choice([0.0, 0.0, 0.01, 0.03, 0.1])
    plan["mode"] = rng.choice(["async", "async", "async", "thread", "sync"])
    if prop == "K01":
        plan["mode"] = rng.choice(["async", "async", "async", "thread"])
    plan["grace"] = rng.choice([1, 5])
    plan["cfg"] = {
        "LocalProcessLauncher": {
            "poll_seconds": rng.choice([1, 2, 30]), "stop_seconds_until_kill": plan["grace"], "stop_timeout": 10},
        "LocalEngineSetLauncher": {"delay": rng.choice([0.0, 0.1, 0.3])},
        "Cluster": {"delay": rng.choice([0.0, 0.1, 1.0]), "load_profile": False,
                    "send_engines_connection_env": rng.random() < 0.3},
    }
    plan["procs"] = {
        "controller": [_spec(rng, prop, "controller") for _ in range(4)],
        "engine": [_spec(rng, prop, "engine") for _ in range(12)],
    }
    for sp in plan["procs"]["controller"]:
        if rng.random() < 0.6:
            sp.pop("life", None)
    if rng.random() < 0.3:
        for sp in plan["procs"]["engine"]:
            sp.pop("life", None)
    plan["cluster_id"] = rng.choice(["", "", "c1"])
    ops = []

    def n():
        return rng.choice([1, 1, 2, 3])

    def sleep():
        ops.append({"op": "sleep", "d": round(rng.choice([rng.uniform(0, 0.3), rng.uniform(0, 3), rng.uniform(2, 12)]), 3)})

    r = rng.random()
    if r < 0.7:
        ops.append({"op": "start_cluster", "n": n()})
    elif r < 0.78:
        # engines of a controller that runs elsewhere
        ops.append({"op": "start_engines", "n": n()})
    else:
        ops.append({"op": "start_controller"})
        if rng.random() < 0.5:
            sleep()
        ops.append({"op": "start_engines", "n": n()})
    for _ in range(rng.randint(0, 5)):
        if rng.random() < 0.6:
            sleep()
        k = rng.choice(["start_engines", "start_engines", "stop_engines", "stop_engines", "restart_engines",
                        "signal_engines", "stop_controller", "start_controller", "stop_cluster", "start_cluster",
                        "par", "late"])
        if k in ("start_engines", "start_cluster"):
            ops.append({"op": k, "n": n()})
        elif k in ("stop_engines", "restart_engines"):
            ops.append({"op": k, "set": rng.choice([None, 0, 0, 1])})
        elif k == "signal_engines":
            ops.append({"op": k, "set": rng.choice([None, 0, 1]), "sig": rng.choice([signal.SIGUSR1, signal.SIGINT]) + 0})
        elif k == "par":
            a = rng.choice([{"op": "stop_engines", "set": None}, {"op": "stop_engines", "set": 0}, {"op": "stop_cluster"}])
            b = rng.choice([{"op": "stop_engines", "set": 0}, {"op": "stop_controller"}, {"op": "stop_cluster"},
                            {"op": "signal_engines", "set": None, "sig": int(signal.SIGUSR1)}])
            ops.append({"op": "par", "ops": [a, b], "gap": rng.choice([0, 0, 0.05, 0.5])})
        else:
            ops.append({"op": k})
    sleep()
    plan["end"] = rng.choice(["stop", "stop", "exit"])
    if prop == "K03":
        plan["end"] = rng.choice(["stop", "exit", "leave", "leave", "crash", "crash"])
    if plan["end"] == "stop":
        ops.append({"op": "stop_cluster"})
        if rng.random() < 0.3:
            ops.append({"op": "sleep", "d": 1.0})
            ops.append({"op": "start_cluster", "n": n()})
            ops.append({"op": "sleep", "d": 1.0})
            ops.append({"op": "stop_cluster"})
    plan["clients"] = [{"ops": ops}]
    plan["faults"] = []
    plan["other"] = []
    if prop == "K03":
        plan["other"] = [
            {"op": rng.choice(["list", "list", "clean"]), "at": round(rng.uniform(0, 12), 3)}
            for _ in range(rng.choice([0, 1, 2, 4]))]
        plan["after"] = rng.choice(["attach", "attach", "list", "clean"])
        plan["gap"] = rng.choice([0.0, 0.0, 0.5, 5.0])
        if plan["end"] == "crash":
            plan["faults"].append({"kind": "crash", "at": round(rng.choice([rng.uniform(0, 1), rng.uniform(0, 12)]), 3),
                                   "fs": rng.choice([None, 0, 1, 2, 3, 4, 5])})
        if rng.random() < 0.2:
            plan["faults"].append({"kind": "disk", "at": round(rng.uniform(0, 8), 3), "dur": rng.choice([0.2, 2.0])})
    return plan


# ---------------------------------------------------------------------------
# runs
# ---------------------------------------------------------------------------
class Run:
    def __init__(self, sim, plan, prop):
        self.sim = sim
        self.plan = plan
        self.prop = prop
        self.world = world.World(sim, {})
        self.profile_dir = os.path.join(self.world.run_dir, "profile_x")
        shutil.rmtree(self.profile_dir, ignore_errors=True)
        for d in ("security", "log"):
            os.makedirs(os.path.join(self.profile_dir, d))
        self.os = OS(self)
        self.ops = []
        self.regs = []
        self.snaps = []
        self.file_bad = []
        self.writers = []
        self.others = []
        self.sets = {}
        self.ctl = None
        self.disk = []
        self.owner_end = None
        self.final = None
        self.stuck = False

    @property
    def file(self):
        cid = self.plan["cluster_id"]
        return os.path.join(self.profile_dir, "security", f"cluster-{cid}.json")

    def config(self):
        from traitlets.config import Config

        return Config(self.plan["cfg"])

    def make_cluster(self, **kw):
        from ipyparallel.cluster.cluster import Cluster

        return Cluster(profile_dir=self.profile_dir, cluster_id=self.plan["cluster_id"],
                       config=self.config(), shutdown_atexit=self.plan["end"] not in ("leave",), **kw)

    # ---- registering callbacks ------------------------------------------
    def watch(self, what, launcher, rec, late=False):
        s = self.sim
        r = {"what": what, "t": s.now, "calls": [], "obj": launcher, "op": rec["id"], "late": late,
             "pid": getattr(launcher, "pid", None)}
        if what == "set":
            mine = [el.pid for el in launcher.launchers.values()]
            if len(mine) != launcher.n:
                # some ended before the operation that started them returned
                ids = [k for k, es in self.owner.c.engines.items() if es is launcher]
                new = set(self.owner.c.engines) - set(rec["had"])
                mine = None
                if len(new) == 1 and ids and ids[0] in new:
                    mine = [p.pid for p in self.os.order if p.op == rec["id"] and p.kind == "engine"]
            r["pids"] = mine
        if late:
            r["state"] = launcher.state
        self.regs.append(r)

        def cb(data=None):
            r["calls"].append((s.now, json.loads(json.dumps(data, default=str))))
            self.world.h("cb", what=what, pid=r["pid"], reg=len(self.regs))
        # (on_stop is called between steps of the launcher's event loop, also
        # where that runs in another thread)
        task = s.current
        task.noyield += 1
        try:
            launcher.on_stop(cb)
        finally:
            task.noyield -= 1
        r["t_in"] = s.now
        return r

    def read_file(self):
        try:
            with simfs.real_open(self.file) as f:
                txt = f.read()
        except FileNotFoundError:
            return None, None
        try:
            d = json.loads(txt)
            d["cluster"], d["engines"]["sets"]
            return txt, d
        except Exception:
            return txt, False

    def check_file(self, where):
        txt, d = self.read_file()
        if d is False and not self.file_bad:
            self.file_bad.append((self.sim.now, where, txt))

    def snap(self, c, why):
        """what the cluster object says and what is there"""
        _, d = self.read_file()
        sn = {"t": self.sim.now, "why": why, "i": len(self.world.hist), "file": d,
              "ctl": None, "sets": {}, "procs": {p.pid: p.died is None for p in self.os.order}}
        if c.controller is not None:
            sn["ctl"] = (c.controller.pid, c.controller.state)
        for k, es in list(c.engines.items()):
            sn["sets"][k] = (es.state, {el.pid: el.state for el in list(es.launchers.values())}, es.n)
        sn["running"] = bool(c._is_running())
        sn["busy"] = any(o["t1"] is None for o in self.ops)
        self.snaps.append(sn)
        return sn


class Owner:
    """The process that starts the cluster."""

    def __init__(self, run):
        self.run = run
        self.c = None
        self.done = False
        self.sets = []

    def thread(self):
        run, s = self.run, self.run.sim
        plan = run.plan
        mode = plan["mode"]
        if mode == "sync":
            asyncio.set_event_loop(None)
            self.c = run.make_cluster()
            for op in plan["clients"][0]["ops"]:
                self.sync_op(op)
        else:
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            loop.run_until_complete(self.amain())
        run.owner_end = s.now
        if plan["end"] == "exit":
            for f, a, kw in reversed(s.current.proc.cwd_data.get("atexit", [])):
                f(*a, **kw)
            run.exit_done = s.now
        self.done = True

    async def amain(self):
        run = self.run
        self.c = run.make_cluster()
        for op in run.plan["clients"][0]["ops"]:
            if op["op"] == "sleep":
                end = run.sim.now + op["d"]
                while run.sim.now < end:
                    await asyncio.sleep(min(0.5, end - run.sim.now))
                    run.snap(self.c, "sleep")
            elif op["op"] == "late":
                self.late()
            elif op["op"] == "par":
                ts = []
                for i, o in enumerate(op["ops"]):
                    if i and op["gap"]:
                        await asyncio.sleep(op["gap"])
                    ts.append(asyncio.ensure_future(self.aop(o)))
                await asyncio.gather(*ts)
            else:
                await self.aop(op)

    def late(self):
        """register callbacks with launchers found by chance, ended or not"""
        c = self.c
        rec = {"id": -1}
        if c.controller is not None:
            self.run.watch("proc", c.controller, rec, late=True)
        for es in list(c.engines.values()):
            for el in list(es.launchers.values()):
                self.run.watch("proc", el, rec, late=True)

    def begin(self, op):
        run, c = self.run, self.c
        rec = {"id": len(run.ops), "op": op["op"], "a": op, "t0": run.sim.now, "t1": None, "err": None, "i0": len(run.world.hist)}
        rec["ctl"] = None if c.controller is None else c.controller.pid
        rec["ctl_state"] = None if c.controller is None else c.controller.state
        rec["had"] = {k: [el.pid for el in es.launchers.values() if el.pid > 0] for k, es in c.engines.items()}
        rec["states"] = {k: es.state for k, es in c.engines.items()}
        k = op.get("set")
        ids = list(c.engines)
        rec["set"] = None
        if k is not None:
            rec["set"] = ids[k % len(ids)] if ids else "nope"
        rec["n_of"] = {k: es.n for k, es in c.engines.items()}
        rec["alone"] = not any(o["t1"] is None for o in run.ops)
        if not rec["alone"]:
            for o in run.ops:
                if o["t1"] is None:
                    o["alone"] = False
        run.ops.append(rec)
        run.world.h("op", id=rec["id"], op=op["op"], set=rec["set"])
        return rec

    def call(self, op, rec):
        c = self.c
        k = op["op"]
        if k in ("start_engines", "start_cluster"):
            return c, k, (op["n"],)
        if k in ("stop_engines", "restart_engines"):
            return c, k, (rec["set"],)
        if k == "signal_engines":
            return c, k, (op["sig"], rec["set"])
        return c, k, ()

    def finish(self, rec, err):
        run, c = self.run, self.c
        rec["t1"] = run.sim.now
        rec["err"] = None if err is None else (type(err).__name__, str(err)[:200])
        rec["ctl1"] = None if c.controller is None else c.controller.pid
        rec["has"] = {k: [el.pid for el in es.launchers.values() if el.pid > 0] for k, es in c.engines.items()}
        rec["states1"] = {k: es.state for k, es in c.engines.items()}
        rec["n_of1"] = {k: es.n for k, es in c.engines.items()}
        rec["alive1"] = [p.pid for p in run.os.order if p.died is None]
        rec["file1"] = run.read_file()[1]
        run.world.h("op_end", id=rec["id"], err=rec["err"])
        # callbacks on what has just been started
        for p in run.os.order:
            p.set = getattr(p, "set", None)
        seen = {id(r["obj"]) for r in run.regs if not r["late"]}
        if c.controller is not None and c.controller.state != "before" and id(c.controller) not in seen:
            run.watch("proc", c.controller, rec)
        for k, es in list(c.engines.items()):
            if es.state == "before":
                continue
            for el in list(es.launchers.values()):
                if id(el) not in seen and el.state != "before":
                    run.watch("proc", el, rec)
            if id(es) not in seen:
                run.watch("set", es, rec)

    async def aop(self, op):
        rec = self.begin(op)
        tok = OP.set(rec["id"])
        err = None
        try:
            c, k, a = self.call(op, rec)
            if self.run.plan["mode"] == "thread":
                rec["ret"] = getattr(c, k + "_sync")(*a)
            else:
                rec["ret"] = await getattr(c, k)(*a)
        except Exception as e:
            err = e
        finally:
            OP.reset(tok)
        self.finish(rec, err)
        rec.pop("ret", None) if not isinstance(rec.get("ret"), str) else None

    def sync_op(self, op):
        run = self.run
        if op["op"] == "sleep":
            run.sim.sleep(op["d"])
            return
        if op["op"] == "late":
            return
        if op["op"] == "par":
            for o in op["ops"]:
                self.sync_op(o)
            return
        rec = self.begin(op)
        tok = OP.set(rec["id"])
        err = None
        try:
            c, k, a = self.call(op, rec)
            rec["ret"] = getattr(c, k + "_sync")(*a)
        except Exception as e:
            err = e
        finally:
            OP.reset(tok)
        self.finish(rec, err)
        rec.pop("ret", None) if not isinstance(rec.get("ret"), str) else None


def start(sim, plan, prop):
    install()
    run = Run(sim, plan, prop)
    sim.ctx["run"] = run
    # launchers whose process is killed never clean up
    try:
        sim.run(lambda s: _main(run))
    finally:
        for c in _clusters:
            c.shutdown_atexit = False
        _clusters.clear()
    return run


def _main(run):
    s, plan, w = run.sim, run.plan, run.world
    fl = simfs.faults(s)
    fl.watch = os.path.basename(run.file)
    point = fl.point

    def checked(kind, path):
        if fl.watch in str(path):
            run.check_file((s.current.proc.name, kind))
            run.writers.append((s.now, s.current.proc.name))
        point(kind, path)
        s.maybe_yield("sched", 0.5 * plan["profile"]["sched_p"])

    fl.point = checked
    proc = s.new_proc("owner")
    proc.fs_on = True
    run.owner_proc = proc
    own = run.owner = Owner(run)
    t = s.spawn(own.thread, name="main", proc=proc)
    t0 = s.now
    for f in plan["faults"]:
        s.at(t0 + f["at"], _fault, run, f)
    for i, o in enumerate(plan["other"]):
        s.spawn(lambda o=o, i=i: _other(run, o, i), name=f"other{i}", proc=_oproc(run, i), delay=o["at"])
    while not own.done and proc.alive and s.now < t0 + 400:
        s.sleep(0.05)
    run.stuck = not own.done and proc.alive
    run.t_end = s.now
    s.sleep(0.2)
    if plan["end"] == "exit":
        proc.kill(0)
    run.check_file(("driver", "end"))
    run.end_file = run.read_file()
    if own.c is not None and proc.alive:
        run.final = run.snap(own.c, "final")
    if plan["end"] == "leave" and not run.stuck:
        run.left = [p.pid for p in run.os.order if p.died is None]
        proc.kill(0)
    for i in range(200):
        if all(o["t1"] is not None or not o["proc"].alive for o in run.others):
            break
        s.sleep(0.1)
    if run.prop == "K03" and plan.get("after") and not run.stuck:
        s.sleep(plan["gap"])
        run.check_file(("driver", "after"))
        p = s.new_proc("heir")
        p.fs_on = True
        rec = {"op": plan["after"], "at": s.now, "heir": True}
        t = s.spawn(lambda: _other(run, rec, 99), name="main", proc=p)
        end = s.now + 100
        while not t.dead and s.now < end:
            s.sleep(0.05)
        run.heir_hung = not t.dead
    run.check_file(("driver", "final"))
    run.t_final = s.now
    w.h("end")


def _oproc(run, i):
    p = run.sim.new_proc(f"other{i}")
    p.fs_on = True
    return p


def _fault(run, f):
    s = run.sim
    fl = simfs.faults(s)
    if f["kind"] == "crash":
        if not run.owner_proc.alive or run.owner.done:
            return
        if f["fs"] is None:
            s.count("fault:crash")
            run.world.h("crash")
            run.owner_proc.kill(-9)
        else:
            fl.on_crash = lambda p: run.world.h("crash", fs=True)
            fl.crash_after["owner"] = f["fs"]
    elif f["kind"] == "disk":
        s.count("fault:disk_full")
        run.disk.append((s.now, s.now + f["dur"]))
        for n in ("owner", "heir"):
            fl.error_until[n] = (s.now + f["dur"], errno.ENOSPC)


def _other(run, o, i):
    """Another process that uses the cluster file."""
    from ipyparallel.cluster.cluster import Cluster, ClusterManager, clean_cluster_files

    s = run.sim
    rec = {"op": o["op"], "t0": s.now, "t1": None, "err": None, "proc": s.current.proc, "heir": o.get("heir", False),
           "i0": len(run.world.hist)}
    run.others.append(rec)
    run.world.h("other", op=o["op"], by=s.current.proc.name)
    OP.set(f"other{i}")
    rec["file0"] = run.read_file()[1]
    rec["alive0"] = [p.pid for p in run.os.order if p.died is None]
    rec["busy"] = any(x["t1"] is None for x in run.ops) and not o.get("heir")

    async def main():
        if o["op"] == "list":
            m = ClusterManager(config=run.config())
            cs = m.load_clusters(profile_dirs=[run.profile_dir])
            rec["clusters"] = {}
            for k, c in cs.items():
                rec["clusters"][k] = _view(c)
        elif o["op"] == "clean":
            clean_cluster_files([run.profile_dir])
        elif o["op"] == "attach":
            c = Cluster.from_file(run.file, config=run.config())
            rec["view"] = _view(c)
            rec["alive_seen"] = [p.pid for p in run.os.order if p.died is None]
            await asyncio.sleep(0.5)
            rec["view2"] = _view(c)
            rec["alive2"] = [p.pid for p in run.os.order if p.died is None]
            rec["file2"] = run.read_file()[1]
            await c.stop_cluster()
            rec["alive3"] = [p.pid for p in run.os.order if p.died is None]
            rec["file3"] = run.read_file()[1]

    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        loop.run_until_complete(main())
    except Exception as e:
        rec["err"] = (type(e).__name__, str(e)[:200])
    rec["t1"] = s.now
    rec["file1"] = run.read_file()[1]
    rec["alive1"] = [p.pid for p in run.os.order if p.died is None]
    run.world.h("other_end", op=o["op"], err=rec["err"])
    if not rec["heir"]:
        s.sleep(0.01)
        s.current.proc.exited(0)


def _view(c):
    return {
        "ctl": None if c.controller is None else (c.controller.pid, c.controller.state),
        "sets": {k: [es.state, sorted(el.pid for el in es.launchers.values())] for k, es in c.engines.items()},
        "running": bool(c._is_running()),
    }


# ---------------------------------------------------------------------------
# oracles
# ---------------------------------------------------------------------------
def _slack(run):
    return NOISE if run.plan["profile"].get("line_p") else 0.3


def _free(run, t):
    """the first time from t on at which no operation kept the loop for a while"""
    sl = GRACE_LAG + _slack(run)
    again = True
    while again:
        again = False
        for o in run.ops:
            a, b = o["t0"], (o["t1"] if o["t1"] is not None else 1e18)
            if a < t + sl and b > t:
                t = b
                again = True
                break
    return t + sl


def judge(run, prop):
    run.probe = {}
    return {"K01": judge_k01, "K02": judge_k02, "K03": judge_k03}[prop](run)


def judge_k01(run):
    tab = run.os.table
    end = run.owner_end if run.owner_end is not None else run.t_end
    n = 0
    for r in run.regs:
        calls = r["calls"]
        if r["what"] == "proc":
            p = tab[r["pid"]]
            name = f"{p.kind} {p.pid}"
            died, code = p.died, p.code
        else:
            if r["pids"] is None:
                continue
            ps = [tab[x] for x in r["pids"]]
            name = f"engine set of {r['pids']}"
            died = None
            if ps and all(p.died is not None for p in ps):
                died = max(p.died for p in ps)
            codes = [p.code for p in ps]
        if len(calls) > 1:
            raise Bad("stop-reported-twice", f"on_stop callback of {name} called {len(calls)} times: {calls}")
        for t, data in calls:
            if died is None or t < died - 1e-9:
                raise Bad("stop-reported-before-exit", f"{name}: callback at {t:.3f}, exited {died}")
            if r["what"] == "proc":
                if not isinstance(data, dict) or data.get("exit_code") != code or data.get("pid") != p.pid:
                    raise Bad("wrong-stop-data", f"{name} ended with code {code}; callback got {data}")
            else:
                n_listed = len((data or {}).get("engines", {}))
                ec = (data or {}).get("exit_code")
                if n_listed != len(ps):
                    raise Bad("wrong-stop-data", f"{name}: stop data of {n_listed} engines: {data}")
                got = sorted((e.get("pid"), e.get("exit_code")) for e in data["engines"].values())
                if got != sorted((p.pid, p.code) for p in ps):
                    raise Bad("wrong-stop-data", f"{name} ended with {codes}; callback got {data}")
                if any(codes) and ec not in [c for c in codes if c] or not any(codes) and ec:
                    raise Bad("wrong-exit-code", f"{name} ended with {codes}; exit code of the set {ec}")
            n += 1
        if died is not None and not run.stuck:
            due = _free(run, max(died, r["t"]))
            if due < end and (not calls or calls[0][0] > due):
                raise Bad("stop-not-reported", f"{name} ended at {died:.3f} (callback registered {r['t']:.3f}, "
                          f"due by {due:.3f}): calls {calls}, end {end:.3f}")
        if r["late"] and r["state"] == "after" and not (calls and calls[0][0] <= r.get("t_in", r["t"]) + 1e-9):
            raise Bad("late-registration-ignored", f"on_stop of {name}, which had ended, did not call at once: {calls}")
    # what launchers say
    for sn in run.snaps:
        st = {}
        if sn["ctl"]:
            st[sn["ctl"][0]] = sn["ctl"][1]
        for k, (ss, els, _) in sn["sets"].items():
            st.update(els)
        for pid, state in st.items():
            if pid < 0:
                continue
            p = tab[pid]
            if state == "after" and (p.died is None or p.died > sn["t"]):
                raise Bad("stopped-while-running", f"launcher of {p.kind} {pid} says 'after' at {sn['t']:.3f}; exit {p.died}")
            if state == "running" and p.died is not None and sn["t"] > _free(run, p.died):
                raise Bad("running-after-exit", f"launcher of {p.kind} {pid} says 'running' at {sn['t']:.3f}; exited {p.died:.3f}")
    if run.stuck:
        raise Bad("stuck", "the program did not end: " + str([o["op"] for o in run.ops if o["t1"] is None]))
    run.sim.ctx["nontrivial"] = n > 0
    run.sim.ctx["probes"] = {"stops_reported": n, "sets": sum(1 for r in run.regs if r["what"] == "set" and r["calls"])}


def judge_k02(run):
    tab = run.os.table
    plan = run.plan
    stops = 0
    if run.stuck:
        raise Bad("stuck", "the program did not end: " + str([o["op"] for o in run.ops if o["t1"] is None]))
    by_op = {}
    for p in run.os.order:
        by_op.setdefault(p.op, []).append(p)
    spawn_err = {h["op"] for h in run.world.hist if h["k"] == "spawn_error"}
    # pids of each engine set, by the operation that started it
    for o in run.ops:
        k, err = o["op"], o["err"]
        mine = by_op.get(o["id"], [])
        engs = [p for p in mine if p.kind == "engine"]
        ctls = [p for p in mine if p.kind == "controller"]
        covered = set()
        what = o["set"]
        if k in ("stop_engines", "stop_cluster", "restart_engines"):
            for sid, pids in o["had"].items():
                if what is None or what == sid:
                    covered.update(pids)
        if k in ("stop_controller", "stop_cluster") and o["ctl"]:
            covered.add(o["ctl"])
        covered.discard(-1)
        text = f"op {o['id']} {k}({what})"
        # errors
        if err is not None:
            if k in ("start_controller",) and o["ctl_state"] is not None and err[0] == "RuntimeError":
                continue
            if k in ("stop_engines", "restart_engines", "signal_engines") and (
                    what is not None and what not in o["had"]) and err[0] == "KeyError":
                continue
            if o["id"] in spawn_err and err[0] in ("OSError", "BlockingIOError"):
                continue
            if k in ("start_engines", "start_cluster", "restart_engines") and err[0] in ("RuntimeError", "TimeoutError", "AttributeError") and plan["cfg"]["Cluster"]["send_engines_connection_env"]:
                # the controller ended before its connection files were there
                c = [tab[x] for x in {o["ctl"], *[p.pid for p in ctls]} if x and x > 0]
                if c and any(p.died is not None for p in c):
                    continue
            if not o["alone"] and err[0] == "KeyError" and k in ("restart_engines", "signal_engines"):
                continue
            raise Bad(f"error:{k}:{err[0]}", f"{text} raised {err}")
        # stops
        if k in ("stop_engines", "stop_cluster", "stop_controller"):
            stops += 1
            left = [pid for pid in covered if pid in o["alive1"]]
            if left:
                raise Bad("left-running", f"{text} returned at {o['t1']:.3f} with {left} running")
            if o["alone"]:
                if k != "stop_controller" and (set(o["has"]) & set(o["had"]) if what is None else what in o["has"]):
                    raise Bad("not-forgotten", f"{text}: engine sets {o['has']} still listed")
                if k != "stop_engines" and o["ctl1"] is not None:
                    raise Bad("not-forgotten", f"{text}: controller still set")
                lim = sum(min(9e9 if tab[x].spec.get("term", 0.05) is None else tab[x].spec.get("term", 0.05), plan["grace"]) + 0.5 + _slack(run) for x in covered) + 1.0
                if o["t1"] - o["t0"] > lim:
                    raise Bad("stop-took-too-long", f"{text} took {o['t1'] - o['t0']:.2f}s, at most {lim:.2f}s expected")
        if k == "restart_engines":
            want = {sid: n for sid, n in o["n_of"].items() if what is None or what == sid}
            left = [pid for pid in covered if pid in o["alive1"]]
            if left:
                raise Bad("left-running", f"{text} returned with old engines {left} running")
            if len(engs) != sum(want.values()):
                raise Bad("wrong-number", f"{text} started {len(engs)} engines, {want} wanted")
            if what is not None and engs and covered:
                last = max(tab[x].died for x in covered)
                if min(p.born for p in engs) < last:
                    raise Bad("restart-overlap", f"{text}: new engines before the old had ended")
            if o["alone"] and not set(want) <= set(o["states1"]):
                raise Bad("restart-lost-set", f"{text}: sets {sorted(o['states1'])} after, {sorted(want)} before")
        if k in ("start_engines", "start_cluster"):
            n = o["a"]["n"]
            if len(engs) != n:
                raise Bad("wrong-number", f"{text} started {len(engs)} engines, {n} asked for")
        if k in ("start_controller", "start_cluster"):
            n = 0 if k == "start_cluster" and o["ctl_state"] is not None else 1
            if len(ctls) != n:
                raise Bad("wrong-number", f"{text} started {len(ctls)} controllers, expected {n}")
        for p in mine:
            env = p.env
            if env.get("IPP_CLUSTER_ID") != plan["cluster_id"] or env.get("IPP_PROFILE_DIR") != run.profile_dir:
                raise Bad("wrong-env", f"{text}: {p.kind} {p.pid} started with {env.get('IPP_CLUSTER_ID')!r} {env.get('IPP_PROFILE_DIR')!r}")
            if p.kind == "engine":
                info = env.get("IPP_CONNECTION_INFO")
                if plan["cfg"]["Cluster"]["send_engines_connection_env"] and info:
                    src = json.loads(info).get("from")
                    if src not in tab or tab[src].kind != "controller":
                        raise Bad("wrong-env", f"{text}: engine {p.pid} got connection info {info}")
    # signals
    for h in run.world.hist:
        if h["k"] != "signal":
            continue
        p = tab[h["pid"]]
        if isinstance(h["op"], int):
            o = run.ops[h["op"]]
        elif h["by"] == "owner" and plan["end"] == "exit":
            o = {"op": "stop_cluster", "set": None, "had": {}, "id": "exit"}
        else:
            raise Bad("stray-signal", f"signal {h['sig']} to {p.kind} {p.pid} outside any operation")
        what = o["set"]
        in_set = any(p.pid in pids for sid, pids in o["had"].items() if what is None or sid == what)
        if o["id"] != "exit":
            ok = p.kind == "engine" and in_set if o["op"] in ("stop_engines", "restart_engines", "signal_engines") else (
                p.pid == o["ctl"] if o["op"] == "stop_controller" else o["op"] == "stop_cluster")
            if not ok:
                raise Bad("stray-signal", f"op {o['id']} {o['op']}({what}) sent signal {h['sig']} to {p.kind} {p.pid}")
        if o["op"] == "signal_engines":
            if h["sig"] != o["a"]["sig"]:
                raise Bad("wrong-signal", f"{o['op']} sent {h['sig']}")
        elif h["sig"] == signal.SIGKILL:
            first = [t for t, sg in p.signals if sg == signal.SIGTERM and t <= h["t"] - plan["grace"] + 1e-6]
            if not first:
                raise Bad("killed-early", f"{p.kind} {p.pid} got KILL at {h['t']:.3f}; signals {p.signals}")
    for o in run.ops:
        if o["op"] == "signal_engines" and o["err"] is None and o["alone"]:
            for sid, pids in o["had"].items():
                if o["set"] not in (None, sid):
                    continue
                for pid in pids:
                    p = tab[pid]
                    got = [1 for h in run.world.hist if h["k"] == "signal" and h["pid"] == pid and h["op"] == o["id"]]
                    if len(got) > 1 or (not got and (p.died is None or p.died > o["t1"])):
                        raise Bad("signal-lost", f"signal_engines: engine {pid} got {len(got)} signals")
    # the end
    if plan["end"] == "exit" and getattr(run, "exit_done", None) is not None:
        left = [p.pid for p in run.os.order if p.died is None or p.died > run.exit_done]
        if left:
            raise Bad("left-at-exit", f"processes {left} run on after the exit of the process that started them")
    if plan["end"] == "stop":
        left = [p.pid for p in run.os.order if p.died is None]
        if left:
            raise Bad("left-running", f"{left} running after the last stop_cluster")
    run.sim.ctx["nontrivial"] = stops > 0
    run.sim.ctx["probes"] = {"stops": stops, "spawned": len(run.os.order)}


def _pids(d):
    """process ids in a cluster file"""
    out = {"ctl": None, "sets": {}}
    if not d:
        return out
    if d.get("controller") and d["controller"].get("state"):
        out["ctl"] = d["controller"]["state"].get("pid")
    for sid, es in d["engines"]["sets"].items():
        out["sets"][sid] = sorted(e["pid"] for e in es.get("engines", {}).values())
    return out


def judge_k03(run):
    tab = run.os.table
    plan = run.plan
    if run.file_bad:
        t, where, txt = run.file_bad[0]
        raise Bad("incomplete-file", f"at {t:.3f} ({where}) the cluster file holds {txt[:80]!r}")
    if run.stuck or getattr(run, "heir_hung", False):
        raise Bad("stuck", "the program did not end")
    checks = 0

    def during_disk(a, b):
        return any(x < b and a < y + 0.001 for x, y in run.disk)

    bad_disk = bool(run.disk)
    # while nothing is under way, the file says what is running
    if plan["mode"] != "sync" and not bad_disk:
        for sn in run.snaps:
            if sn["busy"]:
                continue
            # ends that the owner may not have noticed yet
            recent = any(p.died is not None and p.died <= sn["t"] < _free(run, p.died) for p in run.os.order)
            if recent or any(o["t0"] <= sn["t"] <= (o["t1"] or 1e18) for o in run.others):
                continue
            known = set()
            if sn["ctl"]:
                known.add(sn["ctl"][0])
            for k, (ss, els, _) in sn["sets"].items():
                known.update(els)
            failed = any(o["err"] for o in run.ops if o["op"].startswith(("start", "restart")) and o["t0"] <= sn["t"])
            if failed:
                continue
            f = _pids(sn["file"])
            alive = {pid for pid, a in sn["procs"].items() if a}
            fp = {f["ctl"]} | {x for v in f["sets"].values() for x in v}
            fp.discard(None)
            checks += 1
            if alive - fp:
                by = [p for t, p in run.writers if t <= sn["t"]]
                sig = "missing-in-file"
                if by and by[-1].startswith("other"):
                    sig += ":rewritten-by-reader"
                raise Bad(sig, f"at {sn['t']:.3f} {sorted(alive)} run; the cluster file lists {f}")
            if not alive and sn["file"] is not None:
                raise Bad("file-left", f"at {sn['t']:.3f} nothing runs; the cluster file lists {f}")
            if f["ctl"] is not None and f["ctl"] not in alive:
                raise Bad("dead-in-file", f"at {sn['t']:.3f} controller {f['ctl']} is listed and dead")
            for sid, v in f["sets"].items():
                if not set(v) & alive:
                    raise Bad("dead-in-file", f"at {sn['t']:.3f} engine set {sid} {v} is listed and dead")
    for o in run.ops:
        if o["op"] == "stop_cluster" and not o["err"] and o["alone"] and not bad_disk and o["t1"] is not None:
            checks += 1
            if not o["has"] and o["ctl1"] is None and o["file1"] is not None:
                raise Bad("file-left", f"after stop_cluster the file lists {_pids(o['file1'])}")
    if plan["end"] == "exit" and getattr(run, "exit_done", None) is not None and not bad_disk:
        _, d = run.end_file
        checks += 1
        if d is not None:
            raise Bad("file-left", f"the process that started the cluster has exited; the file lists {_pids(d)}")
    # other processes
    for o in run.others:
        f0 = _pids(o["file0"])
        listed = {f0["ctl"]} | {x for v in f0["sets"].values() for x in v}
        listed.discard(None)
        calm = not o["busy"] and not any(
            x["t0"] <= o["t1"] and (x["t1"] is None or x["t1"] >= o["t0"]) for x in run.ops) if o["t1"] is not None else False
        if o["heir"]:
            calm = True
        if o["t1"] is None:
            continue
        steady = listed & set(o["alive0"]) & set(o["alive1"])  # ran all the time
        if o["op"] == "clean":
            if steady:
                checks += 1
                if o["err"] is None or o["err"][0] != "ValueError":
                    raise Bad("cleaned-running", f"clean_cluster_files removed a cluster of which {sorted(steady)} run: {o['err']}")
                if calm and o["file1"] is None:
                    raise Bad("cleaned-running", f"the file of a cluster of which {sorted(steady)} run is gone")
            elif calm and not (listed & set(o["alive0"])):
                checks += 1
                if o["err"] is not None or o["file1"] is not None:
                    raise Bad("not-cleaned", f"clean_cluster_files of a stopped cluster: {o['err']}, file {o['file1'] is not None}")
        elif o["op"] == "list":
            if o["err"] is not None:
                raise Bad("list-failed", f"load_clusters raised {o['err']}")
            vs = list(o["clusters"].values())
            if steady and calm:
                checks += 1
                if len(vs) != 1:
                    raise Bad("not-listed", f"{sorted(steady)} run; load_clusters found {o['clusters']}")
                _check_view(o, vs[0], f0, steady, tab)
                if o["file1"] is None:
                    raise Bad("file-lost", f"load_clusters removed the file of a running cluster ({sorted(steady)})")
                f1 = _pids(o["file1"])
                l1 = {f1["ctl"]} | {x for v in f1["sets"].values() for x in v}
                if steady - l1:
                    raise Bad("missing-in-file", f"after load_clusters the file lists {f1}; {sorted(steady)} run")
        elif o["op"] == "attach":
            if o["file0"] is None:
                if not o["err"] or o["err"][0] != "FileNotFoundError":
                    raise Bad("attach", f"from_file without a file: {o['err']}")
                continue
            if o["err"] is not None and o["err"][0] == "OSError" and run.disk:
                continue
            if o["err"] is not None:
                raise Bad(f"attach-failed:{o['err'][0]}", f"from_file, stop_cluster raised {o['err']}")
            checks += 1
            seen = listed & set(o["alive0"]) & set(o["alive_seen"])
            _check_view(o, o["view"], f0, seen, tab)
            left = [x for x in listed if x in o["alive3"]]
            if left:
                raise Bad("left-running", f"stop_cluster of a cluster loaded from its file left {left} running")
            if o["file3"] is not None and not run.disk:
                raise Bad("file-left", f"stop_cluster of a cluster loaded from its file left the file {_pids(o['file3'])}")
    # an owner that died at rest has left everything it runs in the file
    crash = [h for h in run.world.hist if h["k"] == "crash"]
    run.sim.ctx["nontrivial"] = checks > 0
    run.sim.ctx["probes"] = {"checks": checks, "crashes": len(crash)}


def _check_view(o, v, f0, steady, tab):
    have = set()
    if v["ctl"] and v["ctl"][1] == "running":
        have.add(v["ctl"][0])
    for sid, (state, pids) in v["sets"].items():
        have.update(pids)
    if steady - have:
        raise Bad("not-attached", f"{sorted(steady)} run; the cluster loaded from the file has {v}")
    dead = [x for x in have if tab[x].died is not None and tab[x].died < o["t0"]]
    if dead:
        raise Bad("attached-dead", f"{dead} ended before; the cluster loaded from the file has {v}")
    if bool(steady) and not v["running"]:
        raise Bad("not-running", f"{sorted(steady)} run; the loaded cluster says it is not running")
