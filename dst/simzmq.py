"""Simulated ZeroMQ transport.

Implements the socket semantics ipyparallel relies on (DEALER, ROUTER, PUB,
SUB, XPUB; connect-before-bind, reconnects, identity routing, drops to unknown
peers, subscription propagation, edge-triggered FD) over links whose delivery
times are decided by the simulation.
"""

import zlib
from collections import deque

import zmq as _zmq
from zmq import constants as C

from . import core

RealFrame = _zmq.Frame

# latency levels in seconds; index 0 is the undisturbed default
LATENCIES = (0.0002, 0.001, 0.004, 0.02, 0.1, 0.4, 1.5)
LAT_PROFILES = {
    # weights per level
    "fast": (1, 0, 0, 0, 0, 0, 0),
    "lan": (10, 6, 3, 1, 0, 0, 0),
    "jitter": (8, 4, 4, 4, 2, 0, 0),
    "wild": (6, 3, 3, 3, 3, 2, 0),
    "slow": (3, 2, 2, 2, 2, 2, 1),
}
_CUM = {}
for _k, _w in LAT_PROFILES.items():
    _t = sum(_w)
    _c, _acc = [], 0
    for _x in _w:
        _acc += _x
        _c.append(_acc / _t)
    _CUM[_k] = _c


def _lat_draw(cum):
    def fn(r):
        x = r.random()
        for i, c in enumerate(cum):
            if x < c:
                return i
        return 0

    return fn


_LATFN = {k: _lat_draw(c) for k, c in _CUM.items()}


class Pipe:
    """One direction of a link."""

    __slots__ = ("net", "src", "dst", "last", "stalled_until", "inflight",
                 "link", "unread", "dropped", "hold", "name", "crc", "queue")

    def __init__(self, net, src, dst, link):
        self.net = net
        self.src = src
        self.dst = dst
        self.link = link
        self.last = 0.0
        self.stalled_until = 0.0
        self.inflight = 0
        self.unread = 0
        self.queue = deque()
        self.dropped = 0
        self.name = f"{src.label}>{dst.label}"
        # (hash() of a string differs between worker processes)
        self.crc = zlib.crc32(self.name.encode())


class Link:
    """A connection between a connecting socket and a bound one."""

    def __init__(self, net, conn, bound, addr):
        self.net = net
        self.conn = conn
        self.bound = bound
        self.addr = addr
        self.up = False
        self.closed = False
        self.c2b = Pipe(net, conn, bound, self)
        self.b2c = Pipe(net, bound, conn, self)
        self.pre = []  # messages queued by the connecting side before handshake
        self.subs = None  # subscriptions known to the bound side
        self.id_at_bound = None
        self.id_at_conn = None


class Pending:
    """connect() to an address nobody is bound to (yet)."""

    def __init__(self, sock, addr):
        self.sock = sock
        self.addr = addr
        self.queue = []
        self.link = None
        self.closed = False


class Net:
    def __init__(self, sim):
        self.sim = sim
        sim.net = self
        self.bound = {}
        self.pending = []
        self.links = []
        self.socks = {}
        self.fd_seq = 100_000
        self.auto_id = 0
        self.watchers = {}
        self.port = 40_000
        self.taps = []  # fn(pipe, frames) on delivery
        self.send_taps = []  # fn(pipe, frames) when handed to the link
        self.unroutable_taps = []  # fn(sock, frames): ROUTER sends to nobody
        self.filters = []  # fn(pipe, frames) -> None | "drop" | extra delay
        self.connect_delay = 0.001

    # ---- fds -------------------------------------------------------------
    def watch(self, fd, sel):
        self.watchers[fd] = sel

    def unwatch(self, fd, sel):
        if self.watchers.get(fd) is sel:
            del self.watchers[fd]

    def fd_ready(self, fd):
        s = self.socks.get(fd)
        return s is not None and not s.closed and s._edge

    def signal(self, sock):
        sock._edge = True
        sel = self.watchers.get(sock._fd)
        if sel is not None:
            sel.wakeup()
        if sock._rwaiters:
            for t in list(sock._rwaiters):
                self.sim.wake(t, "io")

    def new_port(self):
        self.port += 1
        return self.port

    # ---- latency ---------------------------------------------------------
    def latency(self, pipe):
        prof = self.sim.profile["lat"]
        if prof == "fast":
            return LATENCIES[0]
        i = self.sim.choices.draw("lat", _LATFN[prof])
        return LATENCIES[i if i < len(LATENCIES) else 0]

    # ---- connection management -----------------------------------------------
    def connect(self, sock, addr):
        pend = Pending(sock, addr)
        sock._conns.append(pend)
        self.pending.append(pend)
        self._try(pend)

    def bind(self, sock, addr):
        if addr in self.bound:
            raise _zmq.ZMQError(C.EADDRINUSE)
        self.bound[addr] = sock
        sock._binds.append(addr)
        for pend in list(self.pending):
            if pend.addr == addr:
                # reconnect interval of the connecting side
                self.sim.after(0.1, self._try, pend)

    def _try(self, pend):
        if pend.closed or pend.link is not None:
            return
        b = self.bound.get(pend.addr)
        if b is None or b.closed:
            return
        link = Link(self, pend.sock, b, pend.addr)
        pend.link = link
        link.pend = pend
        self.links.append(link)
        if pend in self.pending:
            self.pending.remove(pend)
        self.sim.after(self.connect_delay, self._handshake, link)

    def _handshake(self, link):
        if link.closed:
            return
        c, b = link.conn, link.bound
        if c.closed or b.closed:
            return
        if c._proc.paused_until > self.sim.now:
            self.sim.at(c._proc.paused_until, self._handshake, link)
            return
        if b._proc.paused_until > self.sim.now:
            self.sim.at(b._proc.paused_until, self._handshake, link)
            return
        link.up = True
        for me, peer, side in ((b, c, "b"), (c, b, "c")):
            if me._type in (C.ROUTER,):
                ident = peer._identity
                if not ident:
                    self.auto_id += 1
                    ident = b"\x00" + self.auto_id.to_bytes(4, "big")
                if ident in me._peers:
                    # duplicate identity: peer is ignored
                    self.sim.note(f"dup identity {ident!r} at {me.label}")
                    ident = None
                else:
                    me._peers[ident] = link
                if side == "b":
                    link.id_at_bound = ident
                else:
                    link.id_at_conn = ident
            me._links.append(link)
        self.sim.note(f"connected {c.label} -> {b.label}")
        for frames in link.pend.queue:
            self.transmit(link.c2b, frames)
        link.pend.queue = []
        # subscriptions
        if c._type == C.SUB:
            for sub in c._subs:
                self._send_sub(link.c2b, sub)
        if b._type == C.SUB:
            for sub in b._subs:
                self._send_sub(link.b2c, sub)
        self.signal(b)
        self.signal(c)

    def _send_sub(self, pipe, sub):
        when = max(pipe.last, self.sim.now + self.latency(pipe))
        pipe.last = when
        self.sim.at(when, self._sub_arrives, pipe, sub)

    def _sub_arrives(self, pipe, sub):
        if pipe.link.closed or pipe.dst.closed:
            return
        if pipe.link.subs is None:
            pipe.link.subs = []
        pipe.link.subs.append(sub)
        if pipe.dst._type == C.XPUB:
            pipe.dst._inq.append((None, [b"\x01" + sub]))
            self.signal(pipe.dst)

    def drop_link(self, link, reconnect=True, delay=0.1):
        """Break a connection: everything in flight is lost."""
        if link.closed:
            return
        link.closed = True
        if link in self.links:
            self.links.remove(link)
        for me, ident in ((link.bound, link.id_at_bound), (link.conn, link.id_at_conn)):
            if link in me._links:
                me._links.remove(link)
            if ident is not None and me._peers.get(ident) is link:
                del me._peers[ident]
        pend = link.pend
        pend.link = None
        pend.queue = []
        if reconnect and not pend.closed and not link.conn.closed:
            self.pending.append(pend)
            self.sim.after(delay, self._try, pend)

    # ---- data ----------------------------------------------------------
    def transmit(self, pipe, frames):
        link = pipe.link
        if link.closed:
            return
        src, dst = pipe.src, pipe.dst
        hwm = src._sndhwm and dst._rcvhwm and (src._sndhwm + dst._rcvhwm)
        if hwm and pipe.inflight + pipe.unread >= hwm:
            pipe.dropped += 1
            self.sim.count("hwm_drop")
            return
        for tap in self.send_taps:
            tap(pipe, frames)
        delay = self.latency(pipe)
        for f in self.filters:
            r = f(pipe, frames)
            if r is None:
                continue
            if r == "drop":
                pipe.dropped += 1
                self.sim.note(f"DROP {pipe.name}")
                return
            delay += r
        now = self.sim.now
        when = max(pipe.last, now + delay, pipe.stalled_until)
        pipe.last = when
        pipe.inflight += 1
        pipe.queue.append(frames)
        self.sim.at(when, self._deliver, pipe)

    def _deliver(self, pipe):
        # one event per message, but always the oldest one: a connection is FIFO
        pipe.inflight -= 1
        dst = pipe.dst
        if pipe.link.closed or dst.closed:
            return
        if pipe.stalled_until > self.sim.now:
            # the link was stalled after this message was scheduled
            when = max(pipe.stalled_until, self.sim.now)
            pipe.inflight += 1
            pipe.last = max(pipe.last, when)
            self.sim.at(when, self._deliver, pipe)
            return
        frames = pipe.queue.popleft()
        self.sim.delivered += 1
        sim = self.sim
        nm = pipe.name
        sim.hash.update(nm.encode())
        # reach measures: delivery order without times, and its 4-grams
        g = sim.grams = (sim.grams[1], sim.grams[2], sim.grams[3], pipe.crc)
        sim.order = hash((sim.order, pipe.crc))
        sim.cov.add(hash(g))
        if dst._type == C.SUB and not dst._match(frames[0]):
            return
        if dst._type == C.ROUTER:
            ident = (
                pipe.link.id_at_bound if dst is pipe.link.bound else pipe.link.id_at_conn
            )
            if ident is None:
                return
            frames = [ident, *frames]
        for tap in self.taps:
            tap(pipe, frames)
        dev = dst._device
        if dev is not None:
            dev(dst, frames)
            return
        pipe.unread += 1
        dst._inq.append((pipe, frames))
        self.signal(dst)

    def links_of(self, proc):
        return [
            ln for ln in self.links if ln.conn._proc is proc or ln.bound._proc is proc
        ]

    def stall(self, link, duration):
        until = self.sim.now + duration
        for p in (link.c2b, link.b2c):
            p.stalled_until = max(p.stalled_until, until)


class SimContext:
    _instance = None

    def __class_getitem__(cls, item):
        return cls

    def __init__(self, *a, **kw):
        self.closed = False
        self.sockopts = {}
        s = core.active()
        self._proc = s.current.proc if s is not None and s.current else None

    @classmethod
    def instance(cls, *a, **kw):
        s = core.active()
        proc = s.current.proc if s is not None else None
        if proc is None:
            return cls()
        ctx = proc.cwd_data.get("zmq_context")
        if ctx is None:
            ctx = proc.cwd_data["zmq_context"] = cls()
        return ctx

    def socket(self, socket_type, socket_class=None, **kw):
        return SimSocket(self, socket_type)

    def term(self):
        self.closed = True

    def destroy(self, linger=None):
        self.closed = True

    def __del__(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.term()

    def set(self, *a):
        pass

    setsockopt = set


def _tobytes(f):
    if type(f) is bytes:
        return f
    if isinstance(f, RealFrame):
        return f.bytes
    if isinstance(f, str):
        raise TypeError(f"unicode not allowed: {f!r}")
    return bytes(f)


class SimTracker:
    done = True

    def wait(self, timeout=-1):
        return True


class SimSocket:
    """Replacement for zmq.Socket."""

    def __class_getitem__(cls, item):
        return cls

    _shadow = False
    copy_threshold = 0

    def __init__(self, context, socket_type=-1, **kw):
        s = core.active()
        if s is None or s.net is None:
            raise RuntimeError("no simulated network")
        self._sim = s
        self._net = s.net
        self._type = socket_type
        self._proc = s.current.proc
        self._proc.sockets.append(self)
        self.context = context
        self.closed = False
        self._identity = b""
        self._sndhwm = 1000
        self._rcvhwm = 1000
        self._subs = []
        self._inq = []
        self._links = []
        self._conns = []
        self._binds = []
        self._peers = {}
        self._rr = 0
        self._partial = []
        self._rpartial = []
        self._edge = False
        self._rwaiters = []
        self._device = None
        self._opts = {}
        self._last_endpoint = b""
        self._net.fd_seq += 1
        self._fd = self._net.fd_seq
        self._net.socks[self._fd] = self
        self.label = f"{self._proc.name}.{_zmq.SocketType(socket_type).name.lower()}{self._fd - 100_000}"

    # ---- options -----------------------------------------------------------
    @property
    def type(self):
        return self._type

    @property
    def socket_type(self):
        return self._type

    @property
    def FD(self):
        return self._fd

    def fileno(self):
        return self._fd

    @property
    def underlying(self):
        return self._fd

    @property
    def IDENTITY(self):
        return self._identity

    @IDENTITY.setter
    def IDENTITY(self, v):
        self.setsockopt(C.IDENTITY, v)

    identity = IDENTITY
    routing_id = IDENTITY

    @property
    def EVENTS(self):
        return self._events(clear=True)

    events = EVENTS

    def _events(self, clear=False):
        if self.closed:
            raise _zmq.ZMQError(C.ENOTSOCK)
        if clear:
            self._edge = False
        ev = 0
        if self._inq:
            ev |= C.POLLIN
        if self._type in (C.ROUTER, C.PUB, C.XPUB) or self._conns or self._links:
            ev |= C.POLLOUT
        return ev

    def _noop_get(self):
        return 0

    def _mk(name):  # noqa
        def get(self):
            return self._opts.get(name, 0)

        def set_(self, v):
            self._opts[name] = v

        return property(get, set_)

    for _n in ("linger", "LINGER", "curve_serverkey", "curve_secretkey",
               "curve_publickey", "curve_server", "CURVE_SERVER",
               "CURVE_SERVERKEY", "CURVE_SECRETKEY", "CURVE_PUBLICKEY",
               "rcvtimeo", "RCVTIMEO", "sndtimeo", "SNDTIMEO", "tcp_keepalive"):
        locals()[_n] = _mk(_n)
    del _mk, _n

    @property
    def SNDHWM(self):
        return self._sndhwm

    @SNDHWM.setter
    def SNDHWM(self, v):
        self._sndhwm = v

    @property
    def RCVHWM(self):
        return self._rcvhwm

    @RCVHWM.setter
    def RCVHWM(self, v):
        self._rcvhwm = v

    sndhwm = SNDHWM
    rcvhwm = RCVHWM

    def set_hwm(self, v):
        self._sndhwm = self._rcvhwm = v

    def get_hwm(self):
        return self._sndhwm

    hwm = property(get_hwm, set_hwm)

    @property
    def LAST_ENDPOINT(self):
        return self._last_endpoint

    last_endpoint = LAST_ENDPOINT

    @property
    def RCVMORE(self):
        return 1 if self._rpartial else 0

    def setsockopt(self, opt, value):
        if isinstance(value, str):
            raise TypeError("unicode not allowed, use setsockopt_string")
        opt = int(opt)
        if opt == C.IDENTITY:
            self._identity = _tobytes(value)
        elif opt == C.SUBSCRIBE:
            value = _tobytes(value)
            self._subs.append(value)
            for ln in self._links:
                if ln.up:
                    self._net._send_sub(
                        ln.c2b if ln.conn is self else ln.b2c, value
                    )
        elif opt == C.UNSUBSCRIBE:
            if value in self._subs:
                self._subs.remove(value)
        elif opt == C.SNDHWM:
            self._sndhwm = value
        elif opt == C.RCVHWM:
            self._rcvhwm = value
        else:
            self._opts[opt] = value

    set = setsockopt

    def getsockopt(self, opt):
        opt = int(opt)
        if opt == C.IDENTITY:
            return self._identity
        if opt == C.EVENTS:
            return self.EVENTS
        if opt == C.FD:
            return self._fd
        if opt == C.TYPE:
            return self._type
        if opt == C.RCVMORE:
            return self.RCVMORE
        if opt == C.LAST_ENDPOINT:
            return self._last_endpoint
        return self._opts.get(opt, 0)

    get = getsockopt

    def setsockopt_string(self, opt, value, encoding="utf-8"):
        return self.setsockopt(opt, value.encode(encoding))

    set_string = setsockopt_unicode = setsockopt_string

    def getsockopt_string(self, opt, encoding="utf-8"):
        return self.getsockopt(opt).decode(encoding)

    get_string = getsockopt_unicode = getsockopt_string

    def subscribe(self, topic):
        if isinstance(topic, str):
            topic = topic.encode("utf8")
        self.setsockopt(C.SUBSCRIBE, topic)

    def unsubscribe(self, topic):
        self.setsockopt(C.UNSUBSCRIBE, topic)

    # ---- connect/bind ----------------------------------------------------------
    def _check(self):
        if self.closed:
            raise _zmq.ZMQError(C.ENOTSOCK)

    @staticmethod
    def _norm(addr):
        if isinstance(addr, bytes):
            addr = addr.decode()
        proto, _, rest = addr.partition("://")
        if not rest:
            raise _zmq.ZMQError(C.EINVAL)
        if proto == "tcp":
            host, _, port = rest.rpartition(":")
            if host in ("*", "0.0.0.0", "localhost"):
                host = "127.0.0.1"
            if port in ("*", "0"):
                port = None
            return proto, host, port
        return proto, rest, ""

    def bind(self, addr):
        self._check()
        proto, host, port = self._norm(addr)
        if port is None:
            port = str(self._net.new_port())
        a = f"{proto}://{host}:{port}" if port != "" else f"{proto}://{host}"
        self._net.bind(self, a)
        self._last_endpoint = a.encode()
        return _Dummy()

    def connect(self, addr):
        self._check()
        proto, host, port = self._norm(addr)
        a = f"{proto}://{host}:{port}" if port != "" else f"{proto}://{host}"
        self._net.connect(self, a)
        self._last_endpoint = a.encode()
        return _Dummy()

    def bind_to_random_port(self, addr, min_port=49152, max_port=65536, max_tries=100):
        port = self._net.new_port()
        self.bind(f"{addr}:{port}")
        return port

    def unbind(self, addr):
        proto, host, port = self._norm(addr)
        a = f"{proto}://{host}:{port}" if port != "" else f"{proto}://{host}"
        if self._net.bound.get(a) is self:
            del self._net.bound[a]
            self._binds.remove(a)

    def disconnect(self, addr):
        proto, host, port = self._norm(addr)
        a = f"{proto}://{host}:{port}" if port != "" else f"{proto}://{host}"
        for pend in list(self._conns):
            if pend.addr == a:
                pend.closed = True
                self._conns.remove(pend)
                if pend.link is not None:
                    self._net.drop_link(pend.link, reconnect=False)

    # ---- send --------------------------------------------------------------
    def _pipes_out(self):
        out = []
        for ln in self._links:
            if ln.up and not ln.closed:
                out.append((ln, ln.c2b if ln.conn is self else ln.b2c))
        return out

    def send(self, data, flags=0, copy=True, track=False, routing_id=None, group=None):
        self._check()
        self._partial.append(_tobytes(data))
        if flags & C.SNDMORE:
            return SimTracker() if track else None
        frames, self._partial = self._partial, []
        self._send_frames(frames)
        return SimTracker() if track else None

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        self._check()
        parts = [_tobytes(p) for p in msg_parts]
        for p in parts:
            self._partial.append(p)
        if flags & C.SNDMORE:
            return None
        frames, self._partial = self._partial, []
        self._send_frames(frames)
        return SimTracker() if track or not copy else None

    def send_string(self, u, flags=0, copy=True, encoding="utf-8", **kw):
        return self.send(u.encode(encoding), flags)

    def _send_frames(self, frames):
        sim = self._sim
        if not self._proc.alive or sim.ending:
            return
        self._edge_after_io()
        net = self._net
        t = self._type
        if t == C.ROUTER:
            if len(frames) < 1:
                return
            ln = self._peers.get(frames[0])
            if ln is None or not ln.up:
                sim.note(f"unroutable {self.label} {frames[0]!r}")
                sim.count("unroutable")
                for tap in net.unroutable_taps:
                    tap(self, frames)
                return
            net.transmit(ln.c2b if ln.conn is self else ln.b2c, frames[1:])
        elif t in (C.PUB, C.XPUB):
            for ln, pipe in self._pipes_out():
                subs = ln.subs
                if subs and any(frames[0].startswith(x) for x in subs):
                    net.transmit(pipe, list(frames))
        elif t in (C.DEALER, C.PUSH, C.REQ):
            # round robin over connections (queueing before the handshake)
            targets = []
            for pend in self._conns:
                targets.append(pend)
            for ln in self._links:
                if ln.bound is self:
                    targets.append(ln)
            if not targets:
                raise _zmq.Again()
            x = targets[self._rr % len(targets)]
            self._rr += 1
            if isinstance(x, Pending):
                if x.link is not None and x.link.up:
                    net.transmit(x.link.c2b, frames)
                else:
                    x.queue.append(frames)
            else:
                net.transmit(x.b2c, frames)
        else:
            raise _zmq.ZMQError(C.ENOTSUP)

    def _edge_after_io(self):
        self._edge = False

    # ---- recv ----------------------------------------------------------------
    def _match(self, first):
        return any(first.startswith(x) for x in self._subs)

    def recv_multipart(self, flags=0, copy=True, track=False):
        self._check()
        if self._rpartial:
            frames, self._rpartial = self._rpartial, []
            return frames if copy else [RealFrame(f) for f in frames]
        if not self._inq:
            if flags & C.NOBLOCK:
                self._edge = False
                raise _zmq.Again()
            self._wait_readable(None)
        self._edge_after_io()
        pipe, frames = self._inq.pop(0)
        if pipe is not None:
            pipe.unread -= 1
        if copy:
            return list(frames)
        return [RealFrame(f) for f in frames]

    def recv(self, flags=0, copy=True, track=False):
        self._check()
        if not self._rpartial:
            self._rpartial = self.recv_multipart(flags)
        f = self._rpartial.pop(0)
        return f if copy else RealFrame(f)

    def recv_string(self, flags=0, encoding="utf-8"):
        return self.recv(flags).decode(encoding)

    def _wait_readable(self, timeout):
        """Block the sim thread until readable; True if readable."""
        s = core._in_sim()
        if s is None:
            return bool(self._inq)
        deadline = None if timeout is None else s.now + timeout
        while not self._inq:
            if deadline is not None and s.now >= deadline:
                return False
            self._rwaiters.append(s.current)
            try:
                s.block(None if deadline is None else deadline - s.now, on="zmq recv")
            finally:
                try:
                    self._rwaiters.remove(s.current)
                except ValueError:
                    pass
            self._check()
        return True

    def poll(self, timeout=None, flags=C.POLLIN):
        self._check()
        ev = self._events() & flags
        if ev:
            return ev
        if timeout is not None and timeout < 0:
            timeout = None
        if timeout == 0:
            return 0
        self._wait_readable(None if timeout is None else timeout / 1000)
        return self._events() & flags

    # ---- close -------------------------------------------------------------
    def _abandon(self):
        if self.closed:
            return
        self.closed = True
        net = self._net
        for a in self._binds:
            if net.bound.get(a) is self:
                del net.bound[a]
        for pend in self._conns:
            pend.closed = True
            if pend in net.pending:
                net.pending.remove(pend)
        for ln in list(net.links):
            if ln.conn is self:
                net.drop_link(ln, reconnect=False)
            elif ln.bound is self:
                net.drop_link(ln, reconnect=True)
        net.socks.pop(self._fd, None)
        if self in self._proc.sockets:
            self._proc.sockets.remove(self)

    def close(self, linger=None):
        if self.closed:
            return
        # messages already handed to the transport are delivered (linger) unless
        # linger == 0
        if linger == 0 or not self._proc.alive or self._sim.ending:
            self._abandon()
            return
        self.closed = True
        net = self._net
        # let in-flight outgoing messages arrive, then drop the links
        last = self._sim.now
        for ln in net.links:
            if ln.conn is self:
                last = max(last, ln.c2b.last)
            elif ln.bound is self:
                last = max(last, ln.b2c.last)
        self._inq = []
        for a in self._binds:
            if net.bound.get(a) is self:
                del net.bound[a]
        self._binds = []

        def fin():
            self.closed = False
            self._abandon()

        self._sim.at(last + TICK, fin)

    def __del__(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return f"<SimSocket {self.label}>"

    def monitor(self, *a, **kw):
        pass

    def get_monitor_socket(self, *a, **kw):
        raise NotImplementedError

    def disable_monitor(self):
        pass

    @classmethod
    def shadow(cls, addr):
        s = core.active()
        return s.net.socks[addr]


TICK = core.TICK


class _Dummy:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class SimPoller:
    def __init__(self):
        self.sockets = []
        self._map = {}

    def register(self, socket, flags=C.POLLIN | C.POLLOUT):
        if flags:
            self._map[socket] = flags
        else:
            self._map.pop(socket, None)

    def modify(self, socket, flags=C.POLLIN | C.POLLOUT):
        self.register(socket, flags)

    def unregister(self, socket):
        del self._map[socket]

    def __contains__(self, s):
        return s in self._map

    def _poll(self):
        out = []
        for s, f in self._map.items():
            ev = s._events(clear=True) & f
            if ev:
                out.append((s, int(ev)))
        return out

    def poll(self, timeout=None):
        out = self._poll()
        if out or timeout == 0:
            return out
        s = core._in_sim()
        if s is None:
            return out
        if timeout is not None and timeout < 0:
            timeout = None
        deadline = None if timeout is None else s.now + timeout / 1000
        while True:
            for sk in self._map:
                sk._rwaiters.append(s.current)
            try:
                s.block(None if deadline is None else deadline - s.now, on="poll")
            finally:
                for sk in self._map:
                    if s.current in sk._rwaiters:
                        sk._rwaiters.remove(s.current)
            out = self._poll()
            if out:
                return out
            if deadline is not None and s.now >= deadline:
                return out


class SimAsyncPoller(SimPoller):
    """zmq.asyncio.Poller: poll() is awaitable."""

    async def poll(self, timeout=None):
        import asyncio

        out = self._poll()
        if out or timeout == 0:
            return out
        loop = asyncio.get_running_loop()
        deadline = None if timeout is None or timeout < 0 else loop.time() + timeout / 1000
        fut = loop.create_future()
        fds = []

        def woke():
            if not fut.done():
                fut.set_result(None)

        while True:
            fut = loop.create_future()
            for sk in self._map:
                loop.add_reader(sk._fd, woke)
                fds.append(sk._fd)
            h = None
            if deadline is not None:
                h = loop.call_at(deadline, woke)
            try:
                await fut
            finally:
                if h is not None:
                    h.cancel()
                for fd in fds:
                    loop.remove_reader(fd)
                fds.clear()
            out = self._poll()
            if out:
                return out
            if deadline is not None and loop.time() >= deadline:
                return out


# ---------------------------------------------------------------------------
# devices (C code in pyzmq; stand-ins with the same message transformation)
# ---------------------------------------------------------------------------


class SimDevice:
    """ThreadMonitoredQueue / ProcessMonitoredQueue / ThreadDevice."""

    def __init__(self, *args, **kwargs):
        # (in_type, out_type, mon_type, in_prefix, out_prefix) or
        # (device_type, in_type, out_type)
        self.daemon = True
        self.name = "device"
        self.context_factory = None
        self._in = {"opts": [], "connect": [], "bind": []}
        self._out = {"opts": [], "connect": [], "bind": []}
        self._mon = {"opts": [], "connect": [], "bind": []}
        self.proc = None
        self._setup(*args, **kwargs)

    def _setup(self, in_type, out_type, mon_type=C.PUB, in_prefix=b"in", out_prefix=b"out"):
        self.in_type, self.out_type, self.mon_type = in_type, out_type, mon_type
        self.in_prefix, self.out_prefix = in_prefix, out_prefix

    def setsockopt_in(self, opt, value):
        self._in["opts"].append((opt, value))

    def setsockopt_out(self, opt, value):
        self._out["opts"].append((opt, value))

    def setsockopt_mon(self, opt, value):
        self._mon["opts"].append((opt, value))

    def bind_in(self, addr):
        self._in["bind"].append(addr)

    def bind_out(self, addr):
        self._out["bind"].append(addr)

    def bind_mon(self, addr):
        self._mon["bind"].append(addr)

    def connect_in(self, addr):
        self._in["connect"].append(addr)

    def connect_out(self, addr):
        self._out["connect"].append(addr)

    def connect_mon(self, addr):
        self._mon["connect"].append(addr)

    def _mksock(self, typ, cfg):
        sock = SimSocket(None, typ)
        for opt, v in cfg["opts"]:
            sock.setsockopt(opt, v)
        for a in cfg["bind"]:
            sock.bind(a)
        for a in cfg["connect"]:
            sock.connect(a)
        return sock

    @property
    def launcher(self):
        return self

    @property
    def pid(self):
        return self.proc.pid if self.proc else 0

    separate_process = False

    def start(self):
        s = core.active()
        cur = s.current
        self.proc = s.new_proc(self.name) if self.separate_process else cur.proc
        save = cur.proc
        cur.proc = self.proc
        try:
            self._start()
        finally:
            cur.proc = save

    def _start(self):
        self.out_socket = self._mksock(self.out_type, self._out)
        self.in_socket = self._mksock(self.in_type, self._in)
        self.mon_socket = None
        if self.mon_type is not None:
            self.mon_socket = self._mksock(self.mon_type, self._mon)
        both = self.in_type == C.ROUTER and self.out_type == C.ROUTER
        inbox = []
        net = self.in_socket._net

        def flow(dst, frames):
            # a stopped process forwards nothing until it is resumed
            p = self.proc
            if p.paused_until > net.sim.now:
                inbox.append((dst, frames))
                if len(inbox) == 1:
                    net.sim.at(p.paused_until, resume)
                return
            handle(dst, frames)

        def resume():
            p = self.proc
            if not p.alive:
                return
            if p.paused_until > net.sim.now:
                net.sim.at(p.paused_until, resume)
                return
            items, inbox[:] = list(inbox), []
            for dst, frames in items:
                handle(dst, frames)

        def handle(dst, frames):
            if not self.proc.alive:
                return
            if dst is self.in_socket:
                prefix, to = self.in_prefix, self.out_socket
            else:
                prefix, to = self.out_prefix, self.in_socket
            if both:
                if len(frames) < 2:
                    return
                frames = [frames[1], frames[0], *frames[2:]]
            if self.mon_socket is not None:
                self.mon_socket._send_frames(
                    [prefix] + list(frames)
                )
            if to._type == C.SUB:
                return
            try:
                to._send_frames(list(frames))
            except _zmq.Again:
                pass

        self.in_socket._device = flow
        self.out_socket._device = flow

    def join(self, timeout=None):
        pass

    def terminate(self):
        if self.proc is not None and self.separate_process:
            self.proc.kill(-15)

    def is_alive(self):
        return bool(self.proc and self.proc.alive)


class SimProcessMonitoredQueue(SimDevice):
    separate_process = True


class SimThreadMonitoredQueue(SimDevice):
    pass


class SimThreadDevice(SimDevice):
    def _setup(self, device_type, in_type, out_type):
        self.in_type, self.out_type, self.mon_type = in_type, out_type, None
        self.in_prefix = self.out_prefix = b""


def install():
    """Replace pyzmq's sockets (before ipyparallel is imported)."""
    import zmq
    import zmq.asyncio
    import zmq.devices

    zmq.Context = SimContext
    zmq.Socket = SimSocket
    zmq.Poller = SimPoller
    zmq.asyncio.Poller = SimAsyncPoller
    zmq.devices.ThreadMonitoredQueue = SimThreadMonitoredQueue
    zmq.devices.ProcessMonitoredQueue = SimProcessMonitoredQueue
    zmq.devices.ThreadDevice = SimThreadDevice
