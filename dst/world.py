"""The simulated deployment: real controller, schedulers, engines and clients
running as simulated processes on the simulation kernel."""

import gc
import json
import logging
import os
import sys
import tempfile
import threading
import time  # noqa
import zlib

from . import core, loop as simloop, simfs, simzmq

# what happens to simulated OS processes (counted as part of the order of a run)
_PROC_EVENTS = {"op", "op_end", "spawn", "spawn_error", "signal", "exit", "cb", "cmd", "cmd_end",
                "kill_app", "app_signal", "other", "other_end"}
SCRATCH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
_scratch = None


def scratch():
    """Per-worker scratch directory (removed when the worker ends)."""
    global _scratch
    if _scratch is None:
        import atexit
        import shutil

        _scratch = tempfile.mkdtemp(
            prefix=f"ipp-dst-{os.environ.get('IPP_DST_PARENT', 'x')}-", dir=SCRATCH_BASE)
        core.SCRATCH = d = _scratch
        pid = os.getpid()

        def cleanup():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(cleanup)
    return _scratch


class SimHandler(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)

    def emit(self, record):
        s = core.active()
        if s is None:
            return
        if record.levelno >= logging.ERROR:
            s.count("log_errors")
        if len(s.logs) < 4000:
            try:
                m = record.getMessage()
            except Exception as e:  # pragma: no cover
                m = f"<bad log record {record.msg!r}: {e}>"
            exc = ""
            if record.exc_info and record.exc_info[0] is not None:
                import traceback

                exc = "".join(traceback.format_exception(*record.exc_info))[-1800:]
            who = s.current.proc.name if s.current else "?"
            s.logs.append((s.now, who, record.levelname, m[:600], exc))

    def handle(self, record):
        # no locking: one sim thread runs at a time
        self.emit(record)
        return True


_handler = None


def sim_logger(name, level=logging.WARNING):
    lg = logging.Logger(name, level)
    lg.addHandler(_handler)
    lg.propagate = False
    return lg


class StdProxy:
    """sys.stdout / sys.stderr: one stream per simulated process."""

    def __init__(self, real, which):
        self.real = real
        self.which = which
        self.encoding = "utf8"
        self.errors = "replace"

    def _target(self):
        s = core._in_sim()
        if s is None:
            return self.real
        t = s.current.proc.cwd_data.get(self.which)
        if t is None:
            return _Sink(s)
        return t

    def write(self, x):
        return self._target().write(x)

    def flush(self):
        self._target().flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()

    def __getattr__(self, name):
        return getattr(self.real, name)


class _Sink:
    def __init__(self, s):
        self.s = s

    def write(self, x):
        if x.strip() and len(self.s.logs) < 4000:
            self.s.logs.append((self.s.now, self.s.current.proc.name, "PRINT", x[:300], ""))
        return len(x)

    def flush(self):
        pass


# ---------------------------------------------------------------------------
# process-level stand-ins
# ---------------------------------------------------------------------------


class SimProcess:
    """multiprocessing.Process"""

    def __init__(self, target=None, args=(), kwargs=None, name=None, daemon=None, **kw):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or getattr(target, "__name__", "proc")
        self.daemon = daemon
        self.proc = None
        self.exitcode = None

    def start(self):
        s = core.active()
        nm = self.name.replace("start_heartmonitor", "hb")
        self.proc = s.new_proc(nm)
        parent = s.current.proc
        if self.daemon:
            parent.on_exit.append(lambda p: self.proc.kill(-15) if p.exit_code != -9 else None)
        t = s.spawn(
            lambda: self._target(*self._args, **self._kwargs), name="main", proc=self.proc
        )
        t.is_app = True
        w = s.ctx.get("world")
        if w is not None:
            w.by_name.setdefault(nm, []).append(self.proc)

    @property
    def pid(self):
        return self.proc.pid if self.proc else None

    def is_alive(self):
        return bool(self.proc and self.proc.alive)

    def terminate(self):
        if self.proc is not None and self.proc.alive:
            self.proc.kill(-15)

    kill = terminate

    def join(self, timeout=None):
        s = core.active()
        end = None if timeout is None else s.now + timeout
        while self.proc is not None and self.proc.alive:
            if end is not None and s.now >= end:
                return
            s.sleep(0.01)


class _Shell:
    """The parts of InteractiveShell the parallel kernel touches."""

    def __init__(self, kernel):
        self.kernel = kernel
        self.user_ns = {"__builtins__": __builtins__, "__name__": "__main__"}
        self.user_global_ns = self.user_ns
        self._last_traceback = None
        self.configurables = []
        self.execution_count = 1

        class _Pub:
            topic = b""

        self.display_pub = _Pub()

    def showtraceback(self, *a, **kw):
        import traceback

        et, ev, tb = sys.exc_info()
        self._last_traceback = [f"{et.__name__}: simulated traceback"]
        k = self.kernel
        k.session.send(
            k.iopub_socket,
            "error",
            {
                "ename": et.__name__,
                "evalue": str(ev),
                "traceback": self._last_traceback,
                "engine_info": k.get_engine_info(),
            },
            parent=k.get_parent("shell"),
            ident=k._topic("error"),
        )

    def reset(self, *a):
        self.user_ns.clear()
        self.user_ns["__builtins__"] = __builtins__
        self.user_ns["__name__"] = "__main__"


class _EngineOut:
    """Engine stdout/stderr: buffered, published as iopub stream messages."""

    def __init__(self, kernel, name):
        self.kernel = kernel
        self.name = name
        self.buf = []
        self.topic = b""

    def write(self, x):
        self.buf.append(x)
        return len(x)

    def flush(self):
        if not self.buf:
            return
        text = "".join(self.buf)
        self.buf = []
        k = self.kernel
        k.session.send(
            k.iopub_socket,
            "stream",
            {"name": self.name, "text": text},
            parent=k.get_parent("shell"),
            ident=self.topic,
        )


class _IOPubThread:
    def __init__(self, socket, pipe=False, session=None):
        self.socket = socket

    def start(self):
        pass

    def send_multipart(self, *a, **kw):
        return self.socket.send_multipart(*a, **kw)

    def send(self, *a, **kw):
        return self.socket.send(*a, **kw)

    def flush(self, *a, **kw):
        pass

    def stop(self):
        pass

    @property
    def closed(self):
        return self.socket.closed


_installed = False
M = {}  # lazily imported modules/classes


def install():
    """Patch and import everything (once per worker process)."""
    global _installed, _handler
    if _installed:
        return M
    _installed = True
    os.environ["IPP_DISABLE_JS"] = "1"
    os.environ["PYDEVD_DISABLE_FILE_VALIDATION"] = "1"
    for k in list(os.environ):
        if k.startswith("IPP_") and k != "IPP_DISABLE_JS":
            del os.environ[k]
    d = scratch()
    for k in ("IPYTHONDIR", "JUPYTER_CONFIG_DIR", "JUPYTER_DATA_DIR", "JUPYTER_RUNTIME_DIR"):
        p = os.path.join(d, k.lower())
        os.makedirs(p, exist_ok=True)
        os.environ[k] = p
    core.install()
    simzmq.install()
    simloop.install()
    simfs.setup(d)
    import warnings

    warnings.simplefilter("ignore")
    import asyncio  # noqa
    import datetime as _dt

    import ipykernel.kernelbase as kbase
    import jupyter_client.session as jsession
    import tornado.ioloop  # noqa
    import zmq
    import zmq.eventloop.zmqstream as zs
    from ipykernel.ipkernel import IPythonKernel
    from ipykernel.kernelapp import IPKernelApp
    from traitlets import Any

    import ipyparallel
    import ipyparallel.client.client as cclient
    import ipyparallel.controller.app as capp
    import ipyparallel.controller.broadcast_scheduler as cb
    import ipyparallel.controller.dictdb  # noqa
    import ipyparallel.controller.heartmonitor as hm
    import ipyparallel.controller.hub as hub
    import ipyparallel.controller.scheduler as cs
    import ipyparallel.controller.sqlitedb  # noqa
    import ipyparallel.controller.task_scheduler as ts
    import ipyparallel.engine.app as eapp
    import ipyparallel.engine.kernel as ek
    import ipyparallel.engine.nanny as nanny
    import ipyparallel.util as util

    _handler = SimHandler()
    logging.lastResort = None
    # logging's own locks are host-process locks: no preemption inside logging
    class _NoLock:
        def acquire(self, *a, **k):
            return True

        def release(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    logging._lock = _NoLock()
    logging.Handler.createLock = lambda self: setattr(self, "lock", None)
    import traitlets.config.application as tapp

    tapp.Application._configure_logging = lambda self: None
    # process-wide loggers write into the simulation
    root = logging.getLogger()
    root.handlers[:] = [_handler]
    root.setLevel(logging.WARNING)
    for nm in ("traitlets", "tornado.general", "tornado.application", "asyncio"):
        lg = logging.getLogger(nm)
        lg.handlers[:] = [_handler]
        lg.propagate = False
        lg.setLevel(logging.WARNING)
    import traitlets.log

    traitlets.log._logger = logging.getLogger("traitlets")

    # clocks
    utc = _dt.timezone.utc

    def sim_utcnow():
        return _dt.datetime.fromtimestamp(core.sim_time(), utc)

    originals = {id(jsession.utcnow), id(util.utcnow)}
    for mod in list(sys.modules.values()):
        md = getattr(mod, "__dict__", None)
        if not md:
            continue
        for k, v in list(md.items()):
            if k in ("utcnow", "util_utcnow") and id(v) in originals:
                md[k] = sim_utcnow

    # modules that hold direct references to the replaced pyzmq classes
    assert zmq.Context is simzmq.SimContext
    for mod in (hm,):
        mod.ThreadDevice = simzmq.SimThreadDevice
        mod.ThreadMonitoredQueue = simzmq.SimThreadMonitoredQueue
    capp.ProcessMonitoredQueue = simzmq.SimProcessMonitoredQueue

    # processes, ports, signals, logging
    capp.Process = SimProcess
    capp.signal = lambda *a: None
    util.select_random_ports = lambda n: [core.active().net.new_port() for _ in range(n)]
    for mod in (cs, cb, ts):
        if hasattr(mod, "local_logger"):
            mod.local_logger = lambda name, level=0: sim_logger(name)
    capp.IPController._log_default = lambda self: sim_logger("controller")

    kbase.signal = lambda *a: None

    class StubIPK(IPythonKernel):
        """IPythonKernel without the interactive shell, history, debugger."""

        shell = Any()

        def __init__(self, **kwargs):
            kbase.Kernel.__init__(self, **kwargs)
            self.shell = _Shell(self)

        def start(self):
            kbase.Kernel.start(self)

        def set_parent(self, ident, parent, channel="shell"):
            kbase.Kernel.set_parent(self, ident, parent, channel)

        async def do_execute(self, code, silent, store_history=True,
                             user_expressions=None, allow_stdin=False, **kw):
            sh = self.shell
            n = sh.execution_count
            if not silent:
                sh.execution_count += 1
            try:
                import ast

                tree = ast.parse(code)
                last = None
                if tree.body and isinstance(tree.body[-1], ast.Expr):
                    last = ast.Expression(tree.body.pop().value)
                exec(compile(tree, "<sim>", "exec"), sh.user_ns)
                if last is not None:
                    v = eval(compile(last, "<sim>", "eval"), sh.user_ns)
                    if v is not None and not silent:
                        sys.stdout.flush()
                        self.session.send(
                            self.iopub_socket, "execute_result",
                            {"data": {"text/plain": repr(v)}, "metadata": {},
                             "execution_count": n},
                            parent=self.get_parent("shell"),
                            ident=self._topic("execute_result"),
                        )
            except Exception as e:
                sh.showtraceback()
                return {
                    "status": "error", "ename": type(e).__name__, "evalue": str(e),
                    "traceback": sh._last_traceback or [], "execution_count": n,
                    "user_expressions": {}, "payload": [],
                }
            exprs = {}
            for k, ex in (user_expressions or {}).items():
                exprs[k] = {"status": "ok", "data": {"text/plain": repr(eval(ex, sh.user_ns))},
                            "metadata": {}}
            return {"status": "ok", "execution_count": n, "payload": [],
                    "user_expressions": exprs}

        async def do_shutdown(self, restart):
            return {"status": "ok", "restart": restart}

        async def _at_shutdown(self):
            # (there are no child processes to end)
            if self._shutdown_message is not None and self.session:
                self.session.send(self.iopub_socket, self._shutdown_message, ident=self._topic("shutdown"))
            if self.control_stream:
                self.control_stream.flush(zmq.POLLOUT)

    class SimKernel(ek.IPythonParallelKernel, StubIPK):
        shell = Any()

        @classmethod
        def instance(cls, *a, **kw):
            return cls(*a, **kw)

        @classmethod
        def clear_instance(cls):
            pass

    class _DataPub:
        def __init__(self, parent=None, **kw):
            pass

    ek.IPythonParallelKernel.data_pub_class.default_value = _DataPub
    SimKernel.data_pub_class = _DataPub

    class StubKApp(IPKernelApp):
        def __init__(self, **kw):
            self.exec_lines = []

        def init_profile_dir(self):
            pass

        def init_gui_pylab(self):
            pass

        def init_extensions(self):
            pass

        def init_code(self):
            pass

    class SimEngine(eapp.IPEngine):
        def _log_default(self):
            return sim_logger("engine")

        def redirect_output(self, iopub_socket):
            data = core.active().current.proc.cwd_data
            for name in ("stdout", "stderr"):
                o = _EngineOut(self.kernel, name)
                o.topic = f"engine.{self.id}.{name}".encode("ascii")
                data[name] = o

        def restore_output(self):
            data = core.active().current.proc.cwd_data
            data.pop("stdout", None)
            data.pop("stderr", None)

        def init_signal(self):
            pass

    eapp.Kernel = SimKernel
    eapp.IPKernelApp = StubKApp
    eapp.IPOubThread = _IOPubThread
    eapp.IPOPubThread = _IOPubThread
    eapp.IOPubThread = _IOPubThread

    # no user configuration, no interactive shell, no finalizer-driven I/O
    def sim_get_ipython():
        """engines have a shell, clients and the controller do not"""
        c = core._active
        if c is None or c.current is None:
            return None
        e = c.current.proc.cwd_data.get("engine")
        k = getattr(e.app, "kernel", None) if e is not None else None
        return k.shell if k is not None else None

    cclient.get_ipython = util.get_ipython = sim_get_ipython
    cclient.Client.__del__ = lambda self: None
    from ipyparallel.client import asyncresult, view  # noqa

    for mod in (asyncresult, view):
        if hasattr(mod, "get_ipython"):
            mod.get_ipython = sim_get_ipython

    sys.stdout = StdProxy(sys.__stdout__, "stdout")
    sys.stderr = StdProxy(sys.__stderr__, "stderr")

    # things read lazily from the host: read them now, outside simulations
    from jupyter_client import localinterfaces as li

    li.localhost()
    try:
        li.public_ips()
    except Exception:
        pass
    util._disable_session_extract_dates()

    import ipyparallel.client.futures as cfutures
    import ipyparallel.client.map as cmap
    import ipyparallel.client.remotefunction as cremote

    core.trace_lines([cclient, asyncresult, view, cfutures, cmap, cremote])
    M.update(
        ipyparallel=ipyparallel, capp=capp, cclient=cclient, eapp=eapp, ek=ek, hub=hub,
        hm=hm, ts=ts, cs=cs, cb=cb, util=util, SimEngine=SimEngine, SimKernel=SimKernel,
        jsession=jsession, zmq=zmq, zs=zs, nanny=nanny,
    )
    gc.collect()
    gc.freeze()
    gc.disable()
    return M


DELIM = b"<IDS|MSG>"


def parse_msg(frames):
    """(idents, header, parent, metadata) of a wire message, or None."""
    try:
        i = frames.index(DELIM)
        return (
            frames[:i],
            json.loads(frames[i + 2]),
            json.loads(frames[i + 3]),
            json.loads(frames[i + 4]),
        )
    except Exception:
        return None


class EngineHandle:
    def __init__(self, world, index):
        self.world = world
        self.index = index
        self.proc = None
        self.app = None
        self.ident = None
        self.started = None
        self.died_at = None

    @property
    def alive(self):
        return self.proc is not None and self.proc.alive

    @property
    def eid(self):
        return self.app.id if self.app is not None else None

    @property
    def uuid(self):
        return self.app.ident if self.app is not None else None


class World:
    """Builds and holds the simulated deployment for one run."""

    def __init__(self, sim, config=None):
        self.sim = sim
        sim.ctx["world"] = self
        self.net = sim.net or simzmq.Net(sim)
        self.config = config or {}
        self.by_name = {}
        self.controller = None
        self.controller_proc = None
        self.engines = []
        self.clients = []
        self.hist = []
        self.dir = scratch()
        self.run_dir = os.path.join(self.dir, "run")
        os.makedirs(self.run_dir, exist_ok=True)
        for f in os.listdir(self.run_dir):
            p = os.path.join(self.run_dir, f)
            if os.path.isfile(p):
                os.remove(p)
        self.db_dir = None
        self.exec_count = {}
        self.running = {}

    # ---- history -----------------------------------------------------------
    def h(self, kind, **kw):
        kw["k"] = kind
        kw["t"] = self.sim.now
        kw["i"] = len(self.hist)
        self.hist.append(kw)
        if kind in _PROC_EVENTS:
            s = self.sim
            ev = zlib.crc32("|".join(str(kw.get(a)) for a in ("k", "proc", "sig", "cmd", "op", "what", "code", "by")).encode())
            s.order = hash((s.order, ev))
            s.grams = (*s.grams[1:], ev)
            s.cov.add(hash(s.grams))
        self.sim.note(f"H {kind} " + " ".join(f"{a}={kw[a]}" for a in kw if a not in ("k", "t", "i", "obj")))
        return kw

    def note_death(self, e, why="die"):
        if e is not None and getattr(e, "died_at", None) is None:
            e.died_at = self.sim.now
            self.h("death", eng=e.index, eid=e.eid, uuid=e.uuid, why=why)

    def kill_engine(self, e, why="kill"):
        if e.alive:
            self.note_death(e, why)
            e.proc.kill(-9)
            return True
        return False

    # ---- wire taps ------------------------------------------------------------
    def start_taps(self, roles=("c.task", "e.task", "c.mux", "e.mux")):
        """Record who sends/receives which request on the scheduler sockets."""
        self.wire = []
        want = {}
        ci, ei = self.client_info, self.engine_info
        for pre, info in (("c", ci), ("e", ei)):
            for k, v in info.items():
                if isinstance(v, int):
                    want[str(v)] = f"{pre}.{k}"
        keep = set(roles)
        cache = {}

        def role(pipe):
            a = pipe.link.addr
            r = cache.get(a)
            if r is None:
                r = cache[a] = want.get(a.rsplit(":", 1)[-1], "")
            return r

        wire = self.wire
        sim = self.sim

        def mk(phase):
            def tap(pipe, frames):
                r = role(pipe)
                if r not in keep:
                    return
                p = parse_msg(frames)
                if p is None:
                    return
                ids, header, parent, md = p
                wire.append((
                    sim.now, r, "in" if pipe.dst is pipe.link.bound else "out", phase,
                    header.get("msg_type"), header.get("msg_id"), parent.get("msg_id"),
                    pipe.link.conn._identity, md,
                ))
            return tap

        self.net.taps.append(mk("rcv"))
        self.net.send_taps.append(mk("snd"))

        def lost(sock, frames):
            for a in sock._binds:
                r = want.get(a.rsplit(":", 1)[-1])
                if r in keep:
                    break
            else:
                return
            p = parse_msg(frames)
            if p is None:
                return
            ids, header, parent, md = p
            wire.append((sim.now, r, "out", "lost", header.get("msg_type"), header.get("msg_id"),
                         parent.get("msg_id"), bytes(frames[0]), md))

        self.net.unroutable_taps.append(lost)

    # ---- controller ---------------------------------------------------------
    def start_controller(self, wait=True, **kw):
        s = self.sim
        proc = s.new_proc("hub" if self.controller_proc is None else f"hub{len(self.by_name.get('hub', []))}")
        self.by_name.setdefault("hub", []).append(proc)
        self.controller_proc = proc
        proc.fs_on = True
        self.controller = None
        self.ctl_ready = False
        th = s.spawn(lambda: self._controller_main(kw), name="main", proc=proc)
        th.is_app = True
        if wait:
            while not self.ctl_ready and proc.alive:
                s.sleep(0.05)
        return proc

    def _controller_main(self, kw):
        from IPython.core.profiledir import ProfileDir
        from traitlets.config import Config

        cfg = dict(self.config.get("controller", {}))
        cfg.update(kw)
        c = Config()
        for section, vals in cfg.items():
            for k, v in vals.items():
                c[section][k] = v
        c.Session.key = b"sim-key"
        c.IPController.location = "127.0.0.1"
        c.SQLiteDB.location = self.db_dir or self.run_dir
        app = M["capp"].IPController(config=c)
        app.log_level = logging.WARNING
        pd = ProfileDir()
        pd.log_dir = self.run_dir
        pd.security_dir = getattr(self, "security_dir", self.run_dir)
        app.profile_dir = pd
        app.load_secondary_config()
        app.init_hub()
        app.init_schedulers()
        self.controller = app
        self.client_info = json.load(open(os.path.join(pd.security_dir, app.client_json_file)))
        self.engine_info = json.load(open(os.path.join(pd.security_dir, app.engine_json_file)))
        if getattr(self, "on_controller", None):
            self.on_controller(app)
        app.loop.add_callback(self._ctl_up)
        app.start()

    def _ctl_up(self):
        self.ctl_ready = True

    def set_controller(self, app):
        self.controller = app

    @property
    def hub(self):
        return self.controller.hub

    def child(self, name):
        for p in self.by_name.get(name, []):
            if p.alive:
                return p
        for p in self.sim.procs:
            if p.name == name and p.alive:
                return p
        return None

    # ---- engines --------------------------------------------------------------
    def start_engine(self, engine_id=None, uuid=None, delay=0.0, **cfg):
        from traitlets.config import Config

        e = EngineHandle(self, len(self.engines))
        self.engines.append(e)
        s = self.sim
        e.proc = s.new_proc(f"engine{e.index}")
        e.proc.cwd_data["engine"] = e

        def main():
            c = Config()
            c.IPEngine.enable_nanny = False
            c.HistoryManager.enabled = False
            for k, v in self.config.get("engine", {}).items():
                c.IPEngine[k] = v
            for k, v in cfg.items():
                c.IPEngine[k] = v
            app = M["SimEngine"](config=c)
            app.connection_info_env = json.dumps(self.engine_info)
            if engine_id is not None:
                app.id = engine_id
            if uuid is not None:
                app.ident = uuid
            app.load_connection_file()
            e.app = app
            e.started = s.now
            app.start()

        t = s.spawn(main, name="main", proc=e.proc, delay=delay)
        t.is_app = True
        return e

    def wait_engines(self, n=None, timeout=60):
        """Wait (in simulated time) until the hub lists n engines."""
        n = n if n is not None else len([e for e in self.engines if e.alive])
        end = self.sim.now + timeout
        while self.sim.now < end:
            if self.controller is not None and len(self.hub.engines) >= n:
                return True
            self.sim.sleep(0.05)
        return False

    # ---- clients ---------------------------------------------------------------
    def client_proc(self, name=None):
        p = self.sim.new_proc(name or f"client{len(self.clients)}")
        self.clients.append(p)
        return p

    def spawn_user(self, proc, fn, name="user", delay=0.0):
        return self.sim.spawn(fn, name=name, proc=proc, delay=delay)

    def make_client(self, **kw):
        """Create a real Client (must be called in a client user thread)."""
        kw.setdefault("timeout", 30)
        return M["cclient"].Client(dict(self.client_info), **kw)


def engine_here():
    s = core.active()
    return s.current.proc.cwd_data.get("engine")
