"""The simulated computer of the web view: processes, tasks, clock, TCP, HTTP,
socket.io links and browsers, scheduled by the choice tape.

Real code: clubs (GraphicViewer, its server function, Dealer), Flask, flask_socketio
and python-socketio (event dispatch, rooms, packet encoding).
Simulated: fork/kill/wait, the update connection (multiprocessing.connection with its
framing on a byte stream of bounded capacity), listening ports, HTTP transport, the
engine.io transport, gevent (cooperative tasks), clocks, browsers.
"""
import atexit
import collections
import copy
import errno
import functools
import gc
import http.client
import io
import json
import multiprocessing
import multiprocessing.connection
import multiprocessing.reduction
import os
import pickle
import signal as _signal
import socket as _socket
import struct
import sys
import time
import types
import urllib.error
import urllib.request
import weakref

import greenlet

from .core import Stats, Violation

WORLD = None  # the active simulated world

_real = {
    "time": time.time, "sleep": time.sleep, "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
    "Process": multiprocessing.Process, "get_context": multiprocessing.get_context,
    "Client": multiprocessing.connection.Client,
    "Listener": multiprocessing.connection.Listener,
    "urlopen": urllib.request.urlopen,
    "socket": _socket.socket, "create_connection": _socket.create_connection,
    "set_blocking": os.set_blocking, "getpid": os.getpid, "kill": os.kill,
    "atexit": atexit.register, "dup": os.dup, "close": os.close, "fromfd": _socket.fromfd,
}

LOCAL = ("127.0.0.1", "localhost", "0.0.0.0", "192.168.7.5", "")
EPOCH = 1600000000.0
FD_BASE = 1 << 24


class SimKilled(BaseException):
    """unwinds the tasks of a dead process"""


class SimStop(BaseException):
    """ends a run"""


class Blocked(Exception):
    """nothing can ever happen again for the driver"""


def active():
    w = WORLD
    return w is not None and w.current is not None and (
        greenlet.getcurrent() is w.current.g)


# ------------------------------------------------------------------ dispatchers
def _d_time():
    return WORLD.wall() if active() else _real["time"]()


def _d_monotonic():
    return WORLD.op("clock").now if active() else _real["monotonic"]()


def _d_perf():
    return WORLD.op("clock").now if active() else _real["perf_counter"]()


def _d_sleep(s):
    return WORLD.sleep(s) if active() else _real["sleep"](s)


def _d_process(*a, **k):
    return SimProcess(WORLD, *a, **k) if active() else _real["Process"](*a, **k)


class _Context:
    """multiprocessing.get_context(): its processes are simulated ones too"""

    Process = staticmethod(_d_process)

    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, name):
        return getattr(self._ctx, name)


def _d_get_context(method=None):
    ctx = _real["get_context"](method)
    return _Context(ctx) if active() else ctx


def _d_client(address, family=None, authkey=None):
    if active():
        return WORLD.connect(address)
    return _real["Client"](address, family, authkey)


def _d_listener(address=None, family=None, backlog=1, authkey=None):
    if active():
        return SimListener(WORLD, address, backlog)
    return _real["Listener"](address, family, backlog, authkey)


def _d_urlopen(url, data=None, timeout=_socket._GLOBAL_DEFAULT_TIMEOUT, **k):
    if active():
        return WORLD.urlopen(url, timeout)
    return _real["urlopen"](url, data, timeout, **k)


def _d_create_connection(address, timeout=None, source_address=None):
    if active():
        s = FakeSocket(WORLD)
        if timeout is not None:
            s.settimeout(timeout)
        s.connect(address)
        return s
    return _real["create_connection"](address, timeout, source_address)


def _d_set_blocking(fd, flag):
    if isinstance(fd, int) and fd >= FD_BASE and WORLD is not None:
        WORLD.fds[fd].blocking = bool(flag)
        return None
    return _real["set_blocking"](fd, flag)


def _d_dup(fd):
    if isinstance(fd, int) and fd >= FD_BASE and WORLD is not None:
        return WORLD.dup(fd)
    return _real["dup"](fd)


def _d_close(fd):
    if isinstance(fd, int) and fd >= FD_BASE and WORLD is not None:
        return WORLD.close_fd(fd)
    return _real["close"](fd)


def _d_fromfd(fd, family, type, proto=0):
    if isinstance(fd, int) and fd >= FD_BASE and WORLD is not None:
        return FakeSocket(WORLD, WORLD.dup(fd))
    return _real["fromfd"](fd, family, type, proto)


def _d_atexit(f, *a, **k):
    if active():
        # called when the program ends, long after a run
        WORLD.atexit.append((f, a, k))
        return f
    return _real["atexit"](f, *a, **k)


def _d_getpid():
    return WORLD.current.proc.pid if active() else _real["getpid"]()


def _d_kill(pid, sig):
    if active():
        for p in WORLD.procs:
            if p.pid == pid:
                if p.dead or p.handle is None:
                    raise ProcessLookupError(errno.ESRCH, "No such process")
                if sig:
                    WORLD.signal(p, int(sig))
                return None
        raise ProcessLookupError(errno.ESRCH, "No such process")
    return _real["kill"](pid, sig)


class _SockMeta(type(_socket.socket)):
    pass


class SimAwareSocket(_socket.socket):
    def __new__(cls, *a, **k):
        if active():
            return FakeSocket(WORLD, k.get("fileno"))
        return _real["socket"].__new__(cls)


def install():
    """make the operating-system names dispatch to the active world; the stub modules
    for gevent and flask_socketio are used inside simulated processes only"""
    time.time, time.sleep = _d_time, _d_sleep
    time.monotonic, time.perf_counter = _d_monotonic, _d_perf
    multiprocessing.Process = _d_process
    multiprocessing.get_context = _d_get_context
    multiprocessing.connection.Client = _d_client
    multiprocessing.connection.Listener = _d_listener
    urllib.request.urlopen = _d_urlopen
    _socket.socket = SimAwareSocket
    _socket.create_connection = _d_create_connection
    atexit.register = _d_atexit
    os.set_blocking, os.getpid, os.kill = _d_set_blocking, _d_getpid, _d_kill
    os.dup, os.close, _socket.fromfd = _d_dup, _d_close, _d_fromfd
    from . import webthreads
    webthreads.install()
    import flask_socketio as real_fs

    fs = types.ModuleType("flask_socketio")
    fs.__dict__.update({k: v for k, v in real_fs.__dict__.items() if not k.startswith("__")})
    fs.__file__ = real_fs.__file__
    fs.SocketIO = make_socketio(real_fs)
    sys.modules["flask_socketio"] = fs
    gev = types.ModuleType("gevent")
    gev.__path__ = []
    mon = types.ModuleType("gevent.monkey")
    mon.patch_all = _patch_all
    mon.is_module_patched = lambda name: True
    gev.monkey = mon
    gev.sleep = _d_sleep
    gev.spawn = lambda f, *a, **k: WORLD.spawn(lambda: f(*a, **k), WORLD.current.proc, "greenlet")
    sys.modules["gevent"] = gev
    sys.modules["gevent.monkey"] = mon


def _patch_all(*a, **k):
    w = WORLD
    p = w.current.proc
    p.patched = True
    w.busy(p.import_delay)
    return True


# ------------------------------------------------------------------ processes and tasks
class Task:
    def __init__(self, world, func, proc, name):
        self.world, self.func, self.proc, self.name = world, func, proc, name
        self.g = greenlet.greenlet(self._run, parent=world.hub)
        self.pred = None
        self.deadline = None
        self.hold = False
        self.timed_out = False
        self.started = False
        self.done = False
        self.error = None
        self.value = None
        self.thread = False     # a thread of its process other than the main one

    def _run(self, *_):
        try:
            self.value = self.func()
        except SimKilled:
            pass
        except SimStop:
            pass
        except greenlet.GreenletExit:
            pass
        except BaseException as e:  # noqa
            self.error = e
        self.done = True

    def __deepcopy__(self, memo):
        return self


class Proc:
    """an operating-system process"""

    def __init__(self, world, pid, name):
        self.world, self.pid, self.name = world, pid, name
        self.dead = False
        self.exitcode = None
        self.tasks = []
        self.holder = None     # task which blocks the whole process
        self.stalled_until = 0.0
        self.pending_signal = None
        self.patched = False
        self.conns = []
        self.handle = None
        self.import_delay = 0.0
        self.http_ok = None     # time of the first page served
        self.died_at = None
        self.crash_ops = None
        self.injected_death = False
        self.broken_page = False   # it answers page requests with an error for ever
        self.app = None
        self.sio = None
        self.ops = 0


class SimProcess:
    """multiprocessing.Process"""

    def __init__(self, world, group=None, target=None, name=None, args=(), kwargs=None,
                 daemon=None):
        self._world = world
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "Process"
        self.daemon = bool(daemon)
        self._proc = None
        self._closed = False

    def __deepcopy__(self, memo):
        return self

    def start(self):
        w = self._world
        w.op("fork")
        assert self._proc is None, "cannot start a process twice"
        w.maybe_interrupt("fork")
        if w.plan.fork_fails():
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        self._proc = w.fork(self)
        # as in multiprocessing: only the child needs them
        del self._target, self._args, self._kwargs

    def _check(self):
        if self._closed:
            raise ValueError("process object is closed")

    def is_alive(self):
        w = self._world
        w.op("is_alive")
        self._check()
        return self._proc is not None and not self._proc.dead

    def terminate(self):
        w = self._world
        w.op("terminate")
        self._check()
        if self._proc is None:
            raise AttributeError("'NoneType' object has no attribute 'terminate'")
        w.signal(self._proc, _signal.SIGTERM)

    def kill(self):
        w = self._world
        w.op("kill")
        self._check()
        if self._proc is None:
            raise AttributeError("'NoneType' object has no attribute 'kill'")
        w.signal(self._proc, _signal.SIGKILL)

    def join(self, timeout=None):
        w = self._world
        self._check()
        assert self._proc is not None, "can only join a started process"
        p = self._proc
        w.wait(lambda: p.dead, timeout, "join", hold=True)

    def close(self):
        if self._proc is not None and not self._proc.dead:
            raise ValueError("Cannot close a process while it is still running.")
        self._closed = True

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    @property
    def exitcode(self):
        return self._proc.exitcode if self._proc else None

    @property
    def sentinel(self):
        return FD_BASE - 1


# ------------------------------------------------------------------ connections
class Pipe:
    """one direction of a byte stream"""

    def __init__(self, cap):
        self.cap = cap
        self.segs = collections.deque()  # (available at, bytes)
        self.size = 0
        self.total_put = 0
        self.total_taken = 0

    def put(self, when, data):
        if self.segs:
            when = max(when, self.segs[-1][0])
        self.segs.append([when, data])
        self.size += len(data)
        self.total_put += len(data)

    def ready(self, now):
        n = 0
        for when, data in self.segs:
            if when > now:
                break
            n += len(data)
        return n

    def take(self, n):
        out = []
        while n:
            when, data = self.segs[0]
            if len(data) <= n:
                out.append(data)
                n -= len(data)
                self.segs.popleft()
            else:
                out.append(data[:n])
                self.segs[0][1] = data[n:]
                n = 0
        out = b"".join(out)
        self.size -= len(out)
        self.total_taken += len(out)
        return out


class SimConn:
    """multiprocessing.connection.Connection: same framing, on a simulated stream"""

    def __init__(self, world, proc, rx, tx, blocking=True):
        self.world, self.proc = world, proc
        self.rx, self.tx = rx, tx
        self.peer = None
        self.blocking = blocking
        self.closed = False
        self.broken = False      # the stream was reset
        self.late_sends = 0      # sends still accepted after the peer has gone
        self.fd = world.new_fd(self)
        self.refs = 1
        self.own = None          # the port, if this connection leads to itself
        self.born = world.now
        self.abort = False       # closing resets the connection
        self.service = None      # what listened on the port
        self.name = self.peer_name = None
        proc.conns.append(self)

    def __deepcopy__(self, memo):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    readable = writable = True

    def _check(self):
        if self.closed:
            raise OSError("handle is closed")

    def fileno(self):
        self._check()
        return self.fd

    def close(self):
        if not self.closed:
            self.world.close_fd(self.fd)

    def gone(self):
        """the last descriptor was closed, or the process ended"""
        if not self.closed:
            self.closed = True
            if self.own is not None:
                # the port stays in use for a minute unless the connection was reset
                w = self.world
                if self.abort:
                    w.unbind(self)
                else:
                    w.after(60.0, lambda: w.unbind(self))

    def _gone(self):
        return self.broken or self.peer is None or self.peer.closed

    def _write(self, data):
        w = self.world
        while data:
            if self.broken:
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if self.peer is None or self.peer.closed:
                if self.late_sends > 0:
                    self.late_sends -= 1
                    return
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            room = self.tx.cap - self.tx.size
            if room <= 0:
                w.stats.probe("sender blocked on a full buffer")
                w.wait(lambda: self._gone() or self.tx.cap - self.tx.size > 0, None, "write",
                       hold=True)
                continue
            part = data[:room]
            if len(part) < len(data):
                w.stats.fault("short write")
            self.tx.put(w.now + w.plan.latency(), part)
            data = data[len(part):]
            if data:
                w.op("write")

    def send_bytes(self, buf, offset=0, size=None):
        w = self.world
        self._check()
        w.op("send")
        w.maybe_interrupt("send")
        buf = bytes(buf)
        n = len(buf)
        head = struct.pack("!i", n)
        if n > 16384:
            self._write(head)
            w.op("write")
            self._write(buf)
        else:
            self._write(head + buf)

    def send(self, obj):
        self._check()
        self.send_bytes(bytes(multiprocessing.reduction.ForkingPickler.dumps(obj)))

    def _read(self, n):
        w = self.world
        got = b""
        while len(got) < n:
            have = self.rx.ready(w.now)
            if have:
                got += self.rx.take(min(have, n - len(got)))
                continue
            if self.broken:
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if (self.peer is None or self.peer.closed) and not self.rx.size:
                if got:
                    raise OSError("got end of file during message")
                raise EOFError
            if not self.blocking:
                w.stats.fault("read would block")
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            w.wait(lambda: self.rx.ready(w.now) or self._gone(), None, "read", hold=True,
                   timer=self.rx)
        return got

    def recv_bytes(self, maxlength=None):
        self._check()
        self.world.op("recv")
        (n,) = struct.unpack("!i", self._read(4))
        if n < 0 or (maxlength is not None and n > maxlength):
            raise OSError("bad message length")
        return self._read(n)

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def _pollable(self):
        return bool(self.rx.ready(self.world.now)) or self.broken or (
            (self.peer is None or self.peer.closed) and not self.rx.size)

    def poll(self, timeout=0.0):
        w = self.world
        self._check()
        w.op("poll")
        if self._pollable():
            return True
        if timeout is None or timeout > 0:
            w.wait(self._pollable, timeout, "poll", hold=True, timer=self.rx)
        return self._pollable()


class SimListener:
    """multiprocessing.connection.Listener"""

    def __init__(self, world, address, backlog=1):
        self.world = world
        self.proc = world.current.proc
        self.address = address
        world.op("listen")
        self.port = world.bind(self.proc, address[0], address[1], self)
        self.backlog = collections.deque()
        self.closed = False
        self.last_accepted = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def accept(self):
        w = self.world
        if self.closed:
            raise OSError("listener is closed")
        w.wait(lambda: self.backlog, None, "accept", hold=not self.proc.patched)
        conn = self.backlog.popleft()
        # gevent leaves the accepted descriptor in non-blocking mode
        conn.blocking = not self.proc.patched
        return conn

    def close(self):
        if not self.closed:
            self.closed = True
            self.world.unbind(self)


class _SocketFile(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.sock.recv(len(b))
        b[:len(data)] = data
        return len(data)


class FakeSocket:
    """socket.socket, as far as choosing or probing ports and fetching a page need it"""

    def __init__(self, world, fd=None):
        self.world = world
        self.name = None
        self.conn = None
        self.bound = False
        self.fd = fd
        self.timeout = _socket._GLOBAL_DEFAULT_TIMEOUT
        self.address = None
        self.asked = b""     # an HTTP request
        self.answer = None   # what is left of the answer
        if fd is not None:
            self.conn = world.fds[fd]

    def __deepcopy__(self, memo):
        return self

    def setsockopt(self, level, name, value=None, *a):
        if self.conn is not None and (level, name) == (_socket.SOL_SOCKET, _socket.SO_LINGER):
            self.conn.abort = bytes(value) == struct.pack("ii", 1, 0)

    def getsockopt(self, level, name, *a):
        return 0

    def setblocking(self, flag):
        if self.conn is not None:
            self.conn.blocking = bool(flag)

    def settimeout(self, value):
        if value is not None and value is not _socket._GLOBAL_DEFAULT_TIMEOUT and value < 0:
            raise ValueError("Timeout value out of range")
        self.timeout = value

    def gettimeout(self):
        return None if self.timeout is _socket._GLOBAL_DEFAULT_TIMEOUT else self.timeout

    def listen(self, *a):
        return None

    shutdown = listen

    def sendall(self, data, *a):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        self.asked += bytes(data)

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def recv(self, n, *a):
        if self.answer is None:
            if self.asked:
                self.answer = self._fetch()
            else:
                c, w = self.conn, self.world
                w.op("recv")
                if not c._pollable():
                    w.wait(c._pollable, self.gettimeout(), "read", hold=True, timer=c.rx)
                if c.broken:
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                have = c.rx.ready(w.now)
                if not have and not c._pollable():
                    raise _socket.timeout("timed out")
                return c.rx.take(min(have, n))
        data, self.answer = self.answer[:n], self.answer[n:]
        return data

    def _fetch(self):
        words = self.asked.split(None, 2)
        if len(words) < 3 or words[0] not in (b"GET", b"HEAD"):
            return b""
        url = "http://%s:%d%s" % (self.address[0] or "127.0.0.1", self.address[1],
                                  words[1].decode("latin1"))
        try:
            r = self.world.urlopen(url, self.timeout)
            status, body = r.status, r.read()
        except urllib.error.HTTPError as e:
            status, body = e.code, e.read()
        except urllib.error.URLError as e:
            raise e.reason
        except http.client.BadStatusLine as e:
            return b"" if isinstance(e, ConnectionError) else b"\x15\x03\x01"
        return (b"HTTP/1.0 %d X\r\nContent-Length: %d\r\n\r\n" % (status, len(body))
                + (body if words[0] == b"GET" else b""))

    def makefile(self, mode="r", buffering=None, **k):
        raw = io.BufferedReader(_SocketFile(self))
        return raw if "b" in mode else io.TextIOWrapper(raw, **k)

    def detach(self):
        fd, self.fd, self.conn = self.fd, None, None
        return FD_BASE - 2 if fd is None else fd

    def bind(self, address):
        w = self.world
        w.op("bind")
        host, port = address
        if not port:
            port = w.plan.free_port()
        w.bind(w.current.proc, host, port, self)
        self.bound = True
        self.name = (host or "0.0.0.0", port)

    def getsockname(self):
        if self.conn is not None:
            return self.conn.name
        return self.name or ("0.0.0.0", 0)

    def getpeername(self):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return self.conn.peer_name

    def connect(self, address):
        self.address = address
        self.conn = self.world.connect(address, self)
        self.fd = self.conn.fd

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno or errno.ECONNREFUSED
        return 0

    def fileno(self):
        return FD_BASE - 2 if self.fd is None else self.fd

    def close(self):
        if self.bound:
            self.world.unbind(self)
            self.bound = False
        if self.fd is not None:
            fd, self.fd = self.fd, None
            self.world.close_fd(fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Alien:
    """another program of this computer which listens on a port"""

    def __init__(self, kind, port):
        self.kind = kind  # http, silent, closer
        self.port = port
        self.conns = []


# ------------------------------------------------------------------ HTTP
class HttpServer:
    """what socketio.run() starts: a port whose requests run in tasks of the process"""

    def __init__(self, world, proc, sio, app):
        self.world, self.proc, self.sio, self.app = world, proc, sio, app
        self.queue = collections.deque()


class Request:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.status = None
        self.body = None
        self.error = None
        self.answered = False
        self.__dict__.update(kw)


class SimResponse(io.BytesIO):
    def __init__(self, url, status, body):
        io.BytesIO.__init__(self, body)
        self.url, self.status, self.code = url, status, status
        self.reason = "OK"
        self.headers = self.msg = http.client.HTTPMessage()

    def getcode(self):
        return self.status

    def geturl(self):
        return self.url

    def info(self):
        return self.headers


# ------------------------------------------------------------------ socket.io
def make_socketio(real_fs):
    class SimSocketIO(real_fs.SocketIO):
        def init_app(self, app, **kwargs):
            kwargs["async_mode"] = "threading"
            self.sim_world = w = WORLD
            self.sim_proc = p = w.current.proc
            real_fs.SocketIO.init_app(self, app, **kwargs)
            eio = self.server.eio
            eio.send = self._sim_send
            eio.disconnect = self._sim_disconnect
            eio.start_background_task = self._sim_spawn
            eio.sleep = lambda seconds=0: w.sleep(seconds)
            p.sio, p.app = self, app
            self.links = {}

        def _sim_spawn(self, target, *args, **kwargs):
            return self.sim_world.spawn(lambda: target(*args, **kwargs), self.sim_proc,
                                        "background task")

        def _sim_send(self, sid, data, binary=None):
            link = self.links.get(sid)
            if link is not None:
                link.push(data)

        def _sim_disconnect(self, sid=None):
            link = self.links.pop(sid, None)
            if link is not None:
                link.closed = True

        def run(self, app, host=None, port=None, **kwargs):
            w, p = self.sim_world, self.sim_proc
            w.op("run")
            srv = HttpServer(w, p, self, app)
            w.bind(p, host or "127.0.0.1", 5000 if port is None else port, srv)
            w.log("server %d serves pages on %s:%s" % (p.pid, host or "127.0.0.1", port))
            while True:
                w.wait(lambda: srv.queue, None, "serve")
                req = srv.queue.popleft()
                w.spawn(lambda req=req: w.handle(srv, req), p, "request")

        def stop(self):
            return None

    return SimSocketIO


class Link:
    """one engine.io session: ordered messages to one browser until it breaks"""

    def __init__(self, browser, sid):
        self.browser, self.sid = browser, sid
        self.closed = False
        self.last = 0.0

    def push(self, data):
        w = self.browser.world
        if self.closed:
            return
        when = max(self.last, w.now + w.plan.browser_latency(self.browser))
        self.last = when
        w.at(when, lambda: self._arrive(data))

    def _arrive(self, data):
        if not self.closed:
            self.browser.receive(self, data)


class Browser:
    """a page: connects, receives events, drops, reconnects"""

    def __init__(self, world, ident, port):
        self.world, self.ident, self.port = world, ident, port
        self.link = None
        self.sid_seq = 0
        self.connected = False     # CONNECT packet seen
        self.buffer = []
        self.sessions = []         # [(info, [states])]
        self.up = False
        self.slow = 0.0

    def connect(self):
        """runs in a browser task"""
        w = self.world
        srv = w.find_http(self.port)
        if srv is None:
            return False
        self.sid_seq += 1
        sid = "b%d-%d" % (self.ident, self.sid_seq)
        link = Link(self, sid)
        link.proc = srv.proc
        self.link = link
        self.connected = False
        self.buffer = []
        info = {"sid": sid, "asked": w.now, "joined": None, "first": None, "states": [],
                "ended": None, "last_at": None}
        self.sessions.append(info)
        link.info = info
        req = Request("connect", sid=sid, link=link, info=info)
        w.after(w.plan.latency(), lambda: srv.queue.append(req))
        return True

    def receive(self, link, data):
        from socketio import packet
        w = self.world
        pkt = packet.Packet(encoded_packet=data)
        if link is not self.link:
            return
        if pkt.packet_type == packet.CONNECT:
            self.connected = True
            for ev in self.buffer:
                self.event(link, ev)
            self.buffer = []
        elif pkt.packet_type == packet.EVENT:
            if self.connected:
                self.event(link, pkt.data)
            else:
                self.buffer.append(pkt.data)
        elif pkt.packet_type == packet.DISCONNECT:
            self.drop("server disconnected")

    def event(self, link, data):
        w = self.world
        if data[0] != "config":
            return
        link.info["states"].append(data[1] if len(data) > 1 else None)
        if link.info["first"] is None:
            link.info["first"] = w.now
        link.info["last_at"] = w.now
        if w.on_state is not None:
            w.on_state(self, link.info)

    def drop(self, why):
        w = self.world
        link = self.link
        if link is None:
            return
        link.closed = True
        link.info["ended"] = w.now
        self.link = None
        self.connected = False
        w.log("browser %d lost its connection (%s)" % (self.ident, why))
        srv = w.find_http(self.port)
        if srv is not None:
            # the server notices later
            w.after(w.plan.notice_delay(), lambda: srv.queue.append(
                Request("disconnect", sid=link.sid)))


# ------------------------------------------------------------------ the world
class World:
    MAX_STEPS = 600000   # in one run
    MAX_STILL = 20000    # without the clock advancing

    def __init__(self, tape, stats, log, plan):
        self.t = tape
        self.stats = stats
        self.lines = log
        self.plan = plan
        plan.world = self
        self.now = 0.0
        self.offset = 0.0         # wall clock error
        self.tick = 0.005
        self.hub = greenlet.getcurrent()
        self.current = None
        self.tasks = []
        self.timers = []
        self.timer_seq = 0
        self.procs = []
        self.atexit = []
        self.ports = {}           # port -> (proc or None, host, owner)
        self.fds = {}
        self.fd_seq = FD_BASE
        self.steps = 0
        self.on_state = None
        self.received = {}        # pid -> states the server has taken in (by its own emit)
        self.background_errors = []
        self.op_hook = None
        self.main = Proc(self, 1000, "game")
        self.procs.append(self.main)
        self.outside = Proc(self, 1, "browsers")
        self.outside.patched = True
        self.keep = []
        self.unwinding = []
        self.viewers = []
        self.context = "?"
        self.own_clash = False    # a server met a fresh connection to itself on its port

    # -- logging
    def log(self, text):
        self.lines.append("%.4f %s" % (self.now, text))

    def wall(self):
        self.op("clock")
        return EPOCH + self.now + self.offset

    # -- timers
    def at(self, when, func):
        import heapq
        self.timer_seq += 1
        item = [max(when, self.now), self.timer_seq, func]
        heapq.heappush(self.timers, item)
        return item

    def after(self, d, func):
        return self.at(self.now + d, func)

    # -- tasks
    def spawn(self, func, proc, name):
        t = Task(self, func, proc, name)
        proc.tasks.append(t)
        self.tasks.append(t)
        return t

    def op(self, name):
        """every simulated system call passes here"""
        cur = self.current
        if cur is None:
            return self
        p = cur.proc
        if p.dead:
            raise SimKilled()
        p.ops += 1
        self.stats.op(name)
        if p.crash_ops is not None and p is not self.main and self.plan.on:
            p.crash_ops -= 1
            if p.crash_ops <= 0:
                p.crash_ops = None
                p.injected_death = True
                self.stats.fault("server killed in %s" % name)
                self.log("server %d killed in %s" % (p.pid, name))
                self.die(p, -9)
                raise SimKilled()
        # a system call is a point where another process may run
        if name not in ("clock",) and self.plan.preempt():
            self.pause()
        return self

    def pause(self):
        cur = self.current
        cur.pred, cur.deadline, cur.hold = None, self.now + self.plan.slice(), True
        if cur.proc is self.main:
            self._switch()   # its threads are real ones, the others may run meanwhile
        elif cur.proc.holder is None:
            cur.proc.holder = cur
            self._switch()
            cur.proc.holder = None
        else:
            self._switch()
        cur.hold = False

    def _switch(self):
        self.hub.switch()
        if self.current is None or self.current.proc.dead:
            raise SimKilled()

    def wait(self, pred, timeout, what, hold=False, timer=None):
        """block the current task until pred() or the timeout; returns pred()'s value.
        hold: the whole process is blocked meanwhile"""
        cur = self.current
        if cur is None:
            raise RuntimeError("wait outside of a task")
        self.op(what)
        self.maybe_interrupt(what)
        v = pred()
        if v:
            return v
        cur.pred = pred
        cur.timer = timer
        cur.deadline = None if timeout is None else self.now + max(0.0, timeout)
        prev = cur.proc.holder
        hold = hold and cur.proc is not self.main
        if hold:
            cur.proc.holder = cur
        self._switch()
        if hold:
            cur.proc.holder = prev
        cur.pred = cur.deadline = cur.timer = None
        self.maybe_interrupt(what)
        return pred()

    def sleep(self, seconds):
        p = self.current.proc
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        d = max(seconds, self.tick if p is not self.main else 0.0)
        self.wait(lambda: False, d, "sleep", hold=not p.patched)

    def busy(self, seconds):
        """the process computes for a while"""
        if seconds > 0:
            self.wait(lambda: False, seconds, "busy", hold=True)

    def maybe_interrupt(self, what):
        if self.current is not None and self.current.proc is self.main and (
                not self.current.thread):
            self.plan.interrupt(what)

    def _can_run(self, t):
        p = t.proc
        if p.dead or p.stalled_until > self.now:
            return False
        if p.holder is not None and p.holder is not t:
            return False
        return True

    def _ready(self):
        out = []
        for t in self.tasks:
            if t.done or not self._can_run(t):
                continue
            if not t.started:
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                out.append(t)
            elif t.pred is not None and t.pred():
                out.append(t)
        return out

    def _next_time(self):
        best = None
        if self.timers:
            best = self.timers[0][0]
        for t in self.tasks:
            if t.done:
                continue
            cand = []
            if t.deadline is not None:
                cand.append(max(t.deadline, t.proc.stalled_until))
            if t.proc.stalled_until > self.now:
                cand.append(t.proc.stalled_until)
            pipe = getattr(t, "timer", None)
            if pipe is not None and pipe.segs:
                for when, _ in pipe.segs:
                    if when > self.now:
                        cand.append(when)
                        break
            for c in cand:
                if c > self.now and (best is None or c < best):
                    best = c
        return best

    def run(self, driver):
        """run until the driver task is done"""
        import heapq
        still = (self.now, 0)
        while not driver.done:
            self.steps += 1
            if self.unwinding:
                self._unwind()
            if self.now > still[0]:
                still = (self.now, self.steps)
            if self.steps - still[1] > self.MAX_STILL or self.steps > self.MAX_STEPS:
                raise Blocked("no end after %d scheduling steps at %.1f s (waiting in %s)" % (
                    self.steps, self.now, self.where(driver)))
            ready = self._ready()
            if ready:
                t = ready[0] if len(ready) == 1 else ready[self.t.draw(len(ready))]
                self._resume(t)
                if len(self.tasks) > 8:
                    self.tasks = [x for x in self.tasks if not x.done]
                continue
            nxt = self._next_time()
            if nxt is None:
                raise Blocked("nothing can happen any more (driver waits in %s)"
                              % self.where(driver))
            self.now = max(self.now, nxt)
            while self.timers and self.timers[0][0] <= self.now:
                heapq.heappop(self.timers)[2]()

    def where(self, task):
        fr = task.g.gr_frame
        names = []
        for _ in range(200):
            if fr is None:
                break
            fn = fr.f_code.co_filename
            if os.sep + "clubs" + os.sep in fn:
                names.append("%s:%d" % (os.path.basename(fn), fr.f_lineno))
            fr = fr.f_back
        return names[0] if names else "?"

    def _resume(self, t):
        self.current = t
        t.started = True
        t.g.switch()
        self.current = None
        if t.done:
            if t in t.proc.tasks:
                t.proc.tasks.remove(t)
            if t.error is not None and t.proc not in (self.main, self.outside):
                self.background_errors.append((t.proc.pid, t.name, t.error))
                self.log("server %d: %s failed: %s: %s" % (
                    t.proc.pid, t.name, type(t.error).__name__, str(t.error)[:120]))
                if isinstance(t.error, Violation):
                    raise t.error
            if t.error is not None and t.thread and t.proc is self.main:
                if isinstance(t.error, Violation):
                    raise t.error
                self.log("thread of the game failed: %s: %s" % (
                    type(t.error).__name__, str(t.error)[:120]))
            if t.proc.handle is not None and t is t.proc.first and not t.proc.dead:
                self.die(t.proc, 1 if t.error is not None else 0)

    # -- processes
    def fork(self, handle):
        p = Proc(self, 1001 + len(self.procs), "server")
        self.procs.append(p)
        p.handle = handle
        p.import_delay = self.plan.import_delay()
        self.plan.new_process(p)
        memo = {id(self): self}
        target = self._copy_target(handle._target, memo)
        args = copy.deepcopy(handle._args, memo)
        kwargs = copy.deepcopy(handle._kwargs, memo)
        start = self.plan.start_delay()

        def body():
            self.busy(start)
            return target(*args, **kwargs)

        p.first = self.spawn(body, p, "server function")
        self.log("server %d forked" % p.pid)
        return p

    def _copy_target(self, f, memo):
        """the function as the child process sees it: with its own copy of all data"""
        if isinstance(f, types.MethodType):
            child = copy.deepcopy(f.__self__, memo)
            quiet(child)
            self.keep.append(child)
            return types.MethodType(f.__func__, child)
        if isinstance(f, functools.partial):
            return functools.partial(self._copy_target(f.func, memo),
                                     *copy.deepcopy(f.args, memo),
                                     **copy.deepcopy(f.keywords, memo))
        if isinstance(f, types.FunctionType) and (f.__closure__ or f.__defaults__):
            def copied(v):
                if callable(v) and hasattr(v, "__code__"):
                    return self._copy_target(v, memo)
                return copy.deepcopy(v, memo)
            cells = []
            for c in f.__closure__ or ():
                try:
                    cells.append(types.CellType(copied(c.cell_contents)))
                except ValueError:
                    cells.append(types.CellType())
            g = types.FunctionType(f.__code__, f.__globals__, f.__name__,
                                   tuple(map(copied, f.__defaults__ or ())), tuple(cells))
            g.__kwdefaults__ = f.__kwdefaults__
            for m in memo.values():
                if type(m).__name__.endswith("Viewer"):
                    quiet(m)
                    self.keep.append(m)
            return g
        return f

    def die(self, p, code):
        if p.dead:
            return
        p.dead = True
        p.exitcode = code
        p.died_at = self.now
        self.log("server %d ended (%s)" % (p.pid, code))
        for port in [k for k, v in self.ports.items() if v[0] is p]:
            owner = self.ports.pop(port)[2]
            if isinstance(owner, SimListener):
                for c in owner.backlog:
                    self.reset(c)
                owner.closed = True
            if isinstance(owner, HttpServer):
                for r in owner.queue:
                    r.error = "dead"
                    r.answered = True
        for r in self.plan.inflight:
            if r.proc is p and not r.answered:
                r.error = "dead"
                r.answered = True
        for c in p.conns:
            if not c.closed:
                c.closed = True
                if c.peer is not None:
                    if c.rx.size:
                        c.peer.broken = True
                    else:
                        c.peer.late_sends = self.plan.late_sends()
        for b in self.plan.browsers:
            if b.link is not None and b.link.proc is p:
                b.drop("server gone")
        self.unwinding.append(p)

    def _unwind(self):
        """from the hub: unwind the tasks of dead processes, without simulated effects"""
        while self.unwinding:
            p = self.unwinding.pop()
            for t in list(p.tasks):
                if t.started and not t.done:
                    self.current = t
                    for _ in range(1000):
                        t.g.throw(SimKilled)
                        if t.done or t.g.dead:
                            break
                    self.current = None
                t.done = True
            p.tasks = []

    def signal(self, p, sig):
        if p.dead:
            return
        self.log("signal %d to server %d" % (sig, p.pid))

        def deliver():
            if not p.dead:
                if p.stalled_until > self.now and sig != _signal.SIGKILL:
                    self.at(p.stalled_until, deliver)
                    return
                self.die(p, -sig)
        self.after(self.plan.signal_delay(), deliver)

    def reset(self, conn):
        conn.broken = True
        if conn.peer is not None:
            conn.peer.broken = True

    # -- descriptors of connections
    def new_fd(self, conn):
        self.fd_seq += 1
        self.fds[self.fd_seq] = conn
        return self.fd_seq

    def dup(self, fd):
        conn = self.fds.get(fd)
        if conn is None or conn.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        conn.refs += 1
        return self.new_fd(conn)

    def close_fd(self, fd):
        conn = self.fds.pop(fd, None)
        if conn is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        conn.refs -= 1
        if conn.refs <= 0:
            conn.gone()

    # -- ports
    @staticmethod
    def norm(host):
        return {"localhost": "127.0.0.1", "": "0.0.0.0"}.get(host, host)

    def bind(self, proc, host, port, owner):
        if not 0 <= port <= 65535:
            raise OverflowError("bind(): port must be 0-65535.")
        if host not in LOCAL:
            raise OSError(errno.EADDRNOTAVAIL, "Cannot assign requested address")
        if port in self.ports:
            self.stats.probe("port already in use")
            held = self.ports[port][2]
            if isinstance(held, SimConn) and self.now - held.born < 0.05:
                self.own_clash = True
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.ports[port] = (proc, self.norm(host), owner)
        return port

    def unbind(self, owner):
        for k, v in list(self.ports.items()):
            if v[2] is owner:
                del self.ports[k]

    def lookup(self, host, port):
        if not 0 <= port <= 65535:
            raise OverflowError("connect(): port must be 0-65535.")
        ent = self.ports.get(port)
        if ent is None or isinstance(ent[2], SimConn):
            return None
        if host is not None and ent[1] != "0.0.0.0" and self.norm(host) != "0.0.0.0" and (
                ent[1] != self.norm(host)):
            return None
        if ent[1] == "192.168.7.5" and host is not None and self.norm(host) == "0.0.0.0":
            return None
        return ent[2]

    def find_http(self, port):
        o = self.lookup(None, port)
        return o if isinstance(o, HttpServer) else None

    def connect(self, address, page=None):
        """multiprocessing.connection.Client"""
        self.op("connect")
        self.maybe_interrupt("connect")
        host, port = address
        exc = self.plan.connect_fault()
        if exc is not None:
            raise exc
        own = page is None
        owner = self.lookup(host, port)
        if owner is None or isinstance(owner, FakeSocket):
            if page is None and port not in self.ports and self.plan.own_connection(port):
                # the system gave the connection the very port it leads to
                self.stats.fault("connection to itself")
                self.log("connection to port %d leads to itself" % port)
                pipe = Pipe(self.plan.capacity)
                mine = SimConn(self, self.current.proc, pipe, pipe)
                mine.peer, mine.own = mine, port
                mine.name = mine.peer_name = (self.norm(host), port)
                self.ports[port] = (self.current.proc, self.norm(host), mine)
                return mine
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        cap = self.plan.capacity
        a, b = Pipe(cap), Pipe(cap)
        mine = SimConn(self, self.current.proc, a, b)
        if isinstance(owner, Alien):
            proc = self.outside
        elif isinstance(owner, HttpServer):
            proc = owner.proc
        else:
            proc = owner.proc
        theirs = SimConn(self, proc, b, a)
        mine.peer, theirs.peer = theirs, mine
        near, far = (self.norm(host), 61000 + self.fd_seq % 4000), (self.norm(host), port)
        mine.name = theirs.peer_name = near
        mine.peer_name = theirs.name = far
        mine.service = owner
        if isinstance(owner, SimListener):
            owner.backlog.append(theirs)
            self.plan.connected(mine, theirs)
        elif isinstance(owner, Alien) and owner.kind == "closer":
            theirs.closed = True
        self.log("connection to port %d (%s)" % (port, type(owner).__name__))
        return mine

    def urlopen(self, url, timeout):
        self.op("http")
        self.maybe_interrupt("http")
        if hasattr(url, "full_url"):
            url = url.full_url
        rest = url.split("://", 1)[1]
        hostport, _, path = rest.partition("/")
        host, _, port = hostport.partition(":")
        port = int(port or 80)
        limit = None
        if timeout is not _socket._GLOBAL_DEFAULT_TIMEOUT and timeout is not None:
            limit = self.now + timeout
            if timeout < 0:
                raise ValueError("Timeout value out of range")
            if timeout == 0:
                raise urllib.error.URLError(BlockingIOError(
                    errno.EINPROGRESS, "Operation now in progress"))
        try:
            owner = self.lookup(host, port)
        except OverflowError:
            raise http.client.InvalidURL("bad port") if port < 0 else OverflowError(
                "getsockaddrarg: port must be 0-65535.")
        if owner is None or isinstance(owner, FakeSocket):
            raise urllib.error.URLError(
                ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"))
        fault = self.plan.http_fault()
        if fault == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if fault == "disconnected":
            raise http.client.RemoteDisconnected(
                "Remote end closed connection without response")
        if fault == "garbage":
            raise http.client.BadStatusLine("\x15\x03\x01")
        if fault == "unreachable":
            raise urllib.error.URLError(OSError(errno.EHOSTUNREACH, "No route to host"))
        req = Request("get", path="/" + path, proc=None)
        if isinstance(owner, Alien):
            if owner.kind == "http":
                req.status, req.body = 200, b"another program"
                self.after(self.plan.latency(), lambda: setattr(req, "answered", True))
            elif owner.kind == "closer":
                raise http.client.RemoteDisconnected(
                    "Remote end closed connection without response")
        elif isinstance(owner, HttpServer):
            req.proc = owner.proc
            self.plan.inflight.append(req)
            if fault == "lost":
                self.stats.fault("page request never answered")
            else:
                extra = self.plan.http_delay()
                self.after(self.plan.latency() + extra, lambda: owner.queue.append(req))
        else:  # the update port: it never answers HTTP
            req.proc = owner.proc
            self.plan.inflight.append(req)
        self.wait(lambda: req.answered, None if limit is None else limit - self.now, "http",
                  hold=self.current.proc is not self.outside)
        if not req.answered:
            raise _socket.timeout("timed out")
        if req.error == "dead":
            raise [ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"),
                   http.client.RemoteDisconnected(
                       "Remote end closed connection without response")][self.t.draw(2)]
        if req.status >= 400:
            raise urllib.error.HTTPError(url, req.status, "error", http.client.HTTPMessage(),
                                         io.BytesIO(req.body))
        return SimResponse(url, req.status, req.body)

    def handle(self, srv, req):
        """a request task of the server process"""
        from werkzeug.test import EnvironBuilder
        if req.kind == "get":
            self.busy(self.plan.request_time())
            b = EnvironBuilder(path=req.path, method="GET")
            env = b.get_environ()
            got = {}

            def start_response(status, headers, exc_info=None):
                got["status"] = int(status.split()[0])
            if self.plan.http_500(srv.proc):
                self.stats.fault("page request answered with an error")
                req.status, req.body = 500, b"error"
            else:
                body = b"".join(srv.app.wsgi_app(env, start_response))
                req.status, req.body = got["status"], body
                if req.status == 200 and srv.proc.http_ok is None:
                    srv.proc.http_ok = self.now
            self.after(self.plan.latency(), lambda: setattr(req, "answered", True))
        elif req.kind == "connect":
            if req.link.closed:
                return
            b = EnvironBuilder(path="/socket.io/", method="GET")
            env = b.get_environ()
            env["flask.app"] = srv.app
            srv.sio.links[req.sid] = req.link
            req.info["joined"] = self.now
            if self.op_hook is not None:
                self.op_hook("joined", srv, req)
            ok = srv.sio.server._handle_eio_connect(req.sid, env)
            if ok is not None and ok is not True:
                srv.sio.links.pop(req.sid, None)
                req.link.browser.drop("refused by the server")
        elif req.kind == "disconnect":
            if req.sid in srv.sio.links:
                srv.sio.links.pop(req.sid)
                srv.sio.server._handle_eio_disconnect(req.sid)

    def finish(self):
        """end the run: unwind every task deterministically"""
        for p in self.procs + [self.outside]:
            p.dead = True
            self.unwinding.append(p)
        self._unwind()
        for v in self.viewers:
            quiet(v)


def quiet(obj):
    """take the finaliser off an object (the operating system would not run it)"""
    cls = type(obj)
    if getattr(cls, "_sim_quiet", False):
        return
    sub = _quiet.get(cls)
    if sub is None:
        sub = _quiet[cls] = type(cls.__name__, (cls,), {
            "__del__": lambda self: None, "_sim_quiet": True})
    try:
        obj.__class__ = sub
    except TypeError:
        pass


_quiet = {}


def track(cls):
    """remember every viewer made in a simulated world"""
    def new(c, *a, **k):
        obj = object.__new__(c)
        if WORLD is not None:
            WORLD.viewers.append(obj)
        return obj
    if not getattr(cls, "_sim_tracked", False):
        cls.__new__ = staticmethod(new)
        cls._sim_tracked = True


def discard(viewer):
    """what the garbage collector does with a viewer nobody refers to any more"""
    try:
        d = getattr(type(viewer), "__del__", None)
        if d is not None:
            d(viewer)
        else:
            for f, info in list(weakref.finalize._registry.items()):
                if info.weakref() is viewer:
                    f()
    finally:
        quiet(viewer)


def collect(holder):
    """drop the last reference, in holder[0], and let the garbage collector find the viewer;
    false if somebody else still refers to it"""
    viewer = holder.pop()
    found = []
    cls = type(viewer)
    WORLD.viewers = [v for v in WORLD.viewers if v is not viewer]
    finaliser = getattr(cls, "__del__", None)
    # met by the collector it comes back to be finalised here, at a known moment
    viewer.__class__ = type(cls.__name__, (cls,), {"__del__": lambda self: found.append(self)})
    ref = weakref.ref(viewer)
    del viewer
    for _ in range(4):
        gc.collect()
        if found:
            break
    if not found:
        viewer = ref()
        if viewer is None:
            return True
        viewer.__class__ = cls
        WORLD.viewers.append(viewer)
        return False
    viewer = found.pop()
    viewer.__class__ = cls
    WORLD.viewers.append(viewer)
    try:
        if finaliser is not None:
            finaliser(viewer)
    finally:
        quiet(viewer)
    return True


class Output(io.StringIO):
    """standard output of the simulated processes"""

    def __init__(self, plan):
        super().__init__()
        self.plan = plan

    def write(self, text):
        if active() and WORLD.current.proc is WORLD.main:
            exc = self.plan.output_fault()
            if exc is not None:
                raise exc
        return super().write(text)


def run_world(plan, tape, stats, log, body, prop):
    """run body(world) as the driver task of a new world"""
    global WORLD
    import contextlib
    w = World(tape, stats, log, plan)
    WORLD = w
    sink = Output(plan)
    out0 = sys.stdout
    try:
        with contextlib.redirect_stdout(sink):
            driver = w.spawn(lambda: body(w), w.main, "driver")
            try:
                w.run(driver)
            except Blocked as e:
                if w.where(driver) == "?":
                    raise
                raise Violation(prop, "blocked", "%s: %s" % (w.context, e))
        if driver.error is not None:
            raise driver.error
    finally:
        try:
            w.finish()
        finally:
            WORLD = None
            sys.stdout = out0
            stats.sim_time = w.now
    return w


class PageHost:
    """the node process which runs the real page script"""

    def __init__(self):
        import subprocess
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8"}
        self.p = subprocess.Popen(
            ["node", "--stack-size=2000", os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                                       "page.js")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, **req):
        # no simulated time passes here: this is the browser's own computation
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the page host ended")
        out = json.loads(line.decode("utf8"))
        if "harness" in out:
            raise RuntimeError("page host: " + out["harness"])
        return out
