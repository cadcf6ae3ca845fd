"""Deterministic world around the real server: event loop, sockets, clients.  Everything the server executes above the
socket calls is the real code: mysql_mimic (instrumented or plain), asyncio streams and the selector transport."""
import asyncio
import contextvars
import gc
import logging
import os
import random
import sys
import weakref

from harness import pristine
from harness.base import ENV, StopPath, Violation, Hang

logging.disable(logging.CRITICAL)


def check(cond, msg, detail=None):
    if not cond:
        raise Violation(msg, detail)


def fail(msg, detail=None):
    raise Violation(msg, detail)


class FakeSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        return []

    def get_map(self):
        return {}

    def close(self):
        pass


class Loop(asyncio.base_events.BaseEventLoop):
    """Deterministic event loop: ready queue of BaseEventLoop, sockets polled by the harness, virtual clock."""

    def __init__(self):
        super().__init__()
        self.vt = 1000.0
        self._selector = FakeSelector(self)
        self.readers = {}
        self.writers = {}
        self.socks = {}
        self._transports = weakref.WeakValueDictionary()
        self.errors = []
        self.set_exception_handler(self._on_error)
        self.iterations = 0
        self.nextfd = 100

    def _on_error(self, loop, ctx):
        e = ctx.get("exception")
        if isinstance(e, KeyboardInterrupt):
            return
        self.errors.append(ctx.get("message", ""))

    def time(self):
        return self.vt

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    def _ensure_fd_no_transport(self, fd):
        pass

    def _add_reader(self, fd, cb, *args):
        h = asyncio.events.Handle(cb, args, self, None)
        old = self.readers.get(fd)
        if old is not None:
            old.cancel()
        self.readers[fd] = h
        return h

    def _remove_reader(self, fd):
        h = self.readers.pop(fd, None)
        if h is not None:
            h.cancel()
            return True
        return False

    def _add_writer(self, fd, cb, *args):
        h = asyncio.events.Handle(cb, args, self, None)
        old = self.writers.get(fd)
        if old is not None:
            old.cancel()
        self.writers[fd] = h
        return h

    def _remove_writer(self, fd):
        h = self.writers.pop(fd, None)
        if h is not None:
            h.cancel()
            return True
        return False

    def poll(self):
        """queue the callbacks of ready sockets; True when there were any"""
        hit = False
        for fd in list(self.readers):
            s = self.socks[fd]
            if s.readable() and fd in self.readers:
                self._ready.append(self.readers[fd])
                hit = True
        for fd in list(self.writers):
            s = self.socks[fd]
            if s.writable() and fd in self.writers:
                self._ready.append(self.writers[fd])
                hit = True
        return hit

    def step(self):
        """one loop iteration (poll + all currently ready callbacks). False when nothing was ready."""
        hit = self.poll()
        if not self._ready and not (self._scheduled and self._scheduled[0]._when <= self.vt):
            return False
        self.iterations += 1
        self._run_once()
        return True

    def run(self, max_iter=20000):
        """until quiescent"""
        n = 0
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        try:
            while self.step():
                n += 1
                if n > max_iter:
                    raise Hang("event loop does not come to rest")
        finally:
            asyncio._set_running_loop(old)
        return n

    def steps(self, k):
        """at most k iterations"""
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        n = 0
        try:
            while n < k and self.step():
                n += 1
        finally:
            asyncio._set_running_loop(old)
        return n

    def sleep(self, dt):
        self.vt += dt
        self.run()

    def spawn(self, coro):
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        try:
            return self.create_task(coro)
        finally:
            asyncio._set_running_loop(old)

    def complete(self, coro):
        t = self.spawn(coro)
        self.run()
        if not t.done():
            raise Hang("coroutine did not finish")
        return t.result()

    def tasks(self):
        return {t for t in asyncio.all_tasks(self) if not t.done()}

    def shutdown(self):
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        try:
            for t in asyncio.all_tasks(self):
                t.cancel()
                t._log_destroy_pending = False
            self.set_exception_handler(lambda *a: None)
            for _ in range(3):
                try:
                    n = 0
                    while self._ready and n < 50:
                        self._run_once()
                        n += 1
                    break
                except KeyboardInterrupt:
                    continue
        except BaseException:
            pass
        finally:
            self._ready.clear()
            self._scheduled.clear()
            asyncio._set_running_loop(old)
            self._closed = True


class Sock:
    """Server-side end of the connection; the peer is driven by the harness."""
    family = 1
    type = 1
    proto = 0

    def __init__(self, loop):
        self.loop = loop
        self.fd = loop.nextfd
        loop.nextfd += 1
        loop.socks[self.fd] = self
        self.inq = []              # segments the server can still read
        self.eof = False
        self.recv_error = None
        self.window = None         # bytes the peer still accepts; None: unlimited
        self.send_error = None     # raised by send
        self.fail_after = None     # number of successful sends before send_error_exc is raised
        self.fail_exc = None
        self.out = []              # byte strings handed to the peer
        self.sends = 0
        self.closed = False
        self.close_count = 0
        self.shut = False
        self.outn = 0
        self.on_send = None

    def fileno(self):
        return -1 if self.closed else self.fd

    def getsockname(self):
        return ("127.0.0.1", 3306)

    def getpeername(self):
        return ("127.0.0.1", 40000 + self.fd)

    def setsockopt(self, *a):
        pass

    def setblocking(self, b):
        pass

    def readable(self):
        return bool(self.inq) or self.eof or self.recv_error is not None

    def writable(self):
        return self.window is None or self.window > 0 or self._failing()

    def _failing(self):
        return self.fail_after is not None and self.sends >= self.fail_after

    def recv(self, n):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if self.inq:
            return self.inq.pop(0)
        if self.recv_error is not None:
            raise self.recv_error
        if self.eof:
            return b""
        raise BlockingIOError()

    def recv_into(self, buf):
        d = self.recv(0)
        d = bytes(d)
        n = min(len(d), len(buf))
        buf[:n] = d[:n]
        if n < len(d):
            self.inq.insert(0, d[n:])
        return n

    def send(self, data):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if self._failing():
            raise self.fail_exc
        n = len(data)
        if self.window is not None:
            if self.window <= 0:
                raise BlockingIOError()
            if n > self.window:
                n = self.window
            self.window -= n
        self.sends += 1
        self.out.append(bytes(data[:n]))
        self.outn += n
        if self.on_send is not None:
            self.on_send()
        return n

    def sendmsg(self, bufs):
        total = 0
        if self._failing():
            raise self.fail_exc
        for b in list(bufs):
            if self.window is not None and self.window <= 0 and total:
                break
            n = self.send(b)
            total += n
            if n != len(b):
                break
        return total

    def shutdown(self, how):
        self.shut = True

    def close(self):
        self.closed = True
        self.close_count += 1


class DetRandom:
    """os.urandom stand-in"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.calls = 0

    def __call__(self, n):
        self.calls += 1
        return self.r.randbytes(n)


class World:
    """A server and its clients."""
    current = None

    def __init__(self, seed=1, **server_kwargs):
        from mysql_mimic.server import MysqlServer
        if World.current is None:
            pristine.restore()
        self.loop = Loop()
        World.current = self
        self.saved_urandom = (os.urandom, random._urandom)
        self.rand = DetRandom(seed)
        os.urandom = self.rand
        random._urandom = self.rand
        random.seed(seed)
        self.conns = []
        self.cb = None
        self.server = None
        if server_kwargs is not None:
            self.serve(**server_kwargs)

    def serve(self, **kw):
        from mysql_mimic.server import MysqlServer
        saved = asyncio.start_server

        async def start_server(cb, *a, **k):
            self.cb = cb
            return None
        asyncio.start_server = start_server
        try:
            old = asyncio._get_running_loop()
            self.server = MysqlServer(**kw)
            self.loop.complete(self.server.start_server())
        finally:
            asyncio.start_server = saved
        return self.server

    def close(self):
        os.urandom, random._urandom = self.saved_urandom
        self.loop.shutdown()
        # drop cycles cheaply
        for c in self.conns:
            c.sock.closed = True
            c.transport._sock = None
        World.current = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def open(self, run=True):
        """accept one TCP connection"""
        c = Peer(self)
        self.conns.append(c)
        if run:
            self.run()
        return c

    def run(self):
        if ENV.budget is not None:
            ENV.budget(True)
        try:
            return self.loop.run()
        finally:
            if ENV.budget is not None:
                ENV.budget(False)

    def steps(self, k):
        if ENV.budget is not None:
            ENV.budget(True)
        try:
            return self.loop.steps(k)
        finally:
            if ENV.budget is not None:
                ENV.budget(False)


class Peer:
    """The network peer of one accepted connection (raw bytes)."""

    def __init__(self, world, cb=None):
        self.w = world
        loop = world.loop
        self.sock = Sock(loop)
        st = ENV.streams
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(loop)
        try:
            self.reader = st.StreamReader(limit=2 ** 16, loop=loop)
            self.protocol = st.StreamReaderProtocol(self.reader, cb or world.cb, loop=loop)
            self.transport = ENV.selector_events._SelectorSocketTransport(loop, self.sock, self.protocol)
        finally:
            asyncio._set_running_loop(old)
        self.read_pos = 0          # index into sock.out
        self.inbuf = b""

    # -- raw i/o
    def feed(self, data, run=True):
        """bytes arrive in one network read"""
        if len(data):
            self.sock.inq.append(data)
        if run:
            self.w.run()

    def eof(self, run=True):
        self.sock.eof = True
        if run:
            self.w.run()

    def reset(self, run=True):
        self.sock.recv_error = ConnectionResetError(104, "Connection reset by peer")
        self.sock.fail_after = 0
        self.sock.fail_exc = ConnectionResetError(104, "Connection reset by peer")
        if run:
            self.w.run()

    def raw(self):
        """new bytes sent by the server since last call"""
        out = self.sock.out[self.read_pos:]
        self.read_pos = len(self.sock.out)
        return b"".join(out)

    @property
    def task(self):
        return getattr(self.protocol, "_task", None)

    @property
    def closed(self):
        return self.sock.closed
