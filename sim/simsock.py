"""Socket and selector objects over the simulated host TCP stack, for server.py."""
import errno
import io
import select as _select
import struct
import socket as _socket
import selectors

from kernel import SimExit
from net import Cond, Listener

_real_socket = _socket.socket
_real_select = _select.select


def make_socket_class(k, stack, ch, knobs):
    class SimSocket:
        def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None,
                     _conn=None):
            self.family, self.type, self.proto = family, type, proto
            self.conn = _conn
            self.listener = None
            self.addr = None
            self.opts = {}
            self.timeout = _socket.getdefaulttimeout()
            self.closed = False
            self.shared = [1]           # how many descriptors there are of it
            self._fd = knobs.setdefault("next_fd", 50)
            knobs["next_fd"] += 1
            knobs.setdefault("open", []).append(self)

        def _check(self):
            if self.closed:
                raise OSError(errno.EBADF, "Bad file descriptor")

        def setsockopt(self, level, opt, val=None, *a):
            self._check()
            self.opts[(level, opt)] = val
            self._effect(level, opt, val)

        def _effect(self, level, opt, val):
            if self.conn is None:
                return              # accepted sockets inherit it
            if (level, opt) == (_socket.SOL_SOCKET, _socket.SO_SNDBUF):
                self.conn.sndbuf = max(int(val), 2304)
            elif (level, opt) == (_socket.IPPROTO_TCP, _socket.TCP_USER_TIMEOUT):
                self.conn.user_timeout = int(val) * 1000000

        def _limit(self, opt):
            """The time limit of a blocking call by SO_SNDTIMEO or SO_RCVTIMEO."""
            v = self.opts.get((_socket.SOL_SOCKET, opt))
            if self.timeout is None and isinstance(v, (bytes, bytearray)) and len(v) == 16:
                secs, us = struct.unpack("ll", v)
                return secs + us / 1e6 or None
            return None

        def getsockopt(self, level, opt, *a):
            return self.opts.get((level, opt), 0)

        def bind(self, addr):
            self._check()
            host, port = addr[0], addr[1]
            reuse = self.opts.get((_socket.SOL_SOCKET, _socket.SO_REUSEADDR), 0)
            k.point("bind")
            if port in stack.listeners or (stack.port_busy(port) and not reuse):
                raise OSError(errno.EADDRINUSE, "Address already in use")
            if host not in ("", "0.0.0.0", stack.ip):
                raise OSError(errno.EADDRNOTAVAIL, "Cannot assign requested address")
            self.addr = (host or "0.0.0.0", port)

        def listen(self, backlog=128):
            self._check()
            if self.addr[1] in stack.listeners:
                raise OSError(errno.EADDRINUSE, "Address already in use")
            self.listener = Listener(k, backlog)
            stack.listeners[self.addr[1]] = self.listener
            k.point("listen")

        def accept(self):
            self._check()
            k.point("accept")
            while not self.listener.queue:
                if self.timeout == 0:
                    raise BlockingIOError(errno.EAGAIN, "would block")
                if not self.listener.cond.wait("accept", self.timeout) and self.timeout:
                    raise _socket.timeout("timed out")
                self._check()
            if knobs.get("accept_fail") and ch.chance(1, knobs["accept_fail"], "accept-fail"):
                e = ch.pick((errno.EMFILE, errno.ECONNABORTED, errno.ENOBUFS), "accept-errno")
                knobs["run"].count("fault:accept:" + errno.errorcode[e])
                if e == errno.ECONNABORTED:
                    c = self.listener.queue.pop(0)
                    c.accepted = False
                    c.out("RA", c.nxt)
                    c.state = "CLOSED"
                    stack.gone(c)
                    knobs.setdefault("aborted", set()).add((c.peer, c.pport))
                raise OSError(e, "accept failed")
            c = self.listener.queue.pop(0)
            c.accepted = True
            knobs["accepts"] = knobs.get("accepts", 0) + 1
            s = SimSocket(self.family, self.type, self.proto, _conn=c)
            for (level, opt), v in self.opts.items():
                s.opts[level, opt] = v
                s._effect(level, opt, v)
            return s, (c.peer, c.pport)

        def send(self, data, flags=0):
            self._check()
            k.point("send")
            data = memoryview(bytes(data))
            if not data:
                return 0
            short = knobs.get("short_den") and ch.chance(1, knobs["short_den"], "short-send")
            n = len(data)
            if short:
                n = 1 + ch.draw(min(n, 4096), "short-by")
                knobs["run"].count("fault:short-send")
            done = 0
            timeout = 0 if flags & _socket.MSG_DONTWAIT else self.timeout
            limit = self._limit(_socket.SO_SNDTIMEO)
            while True:
                m = self.conn.app_send(data[done:n])
                done += m
                # a blocking socket takes everything, others what fits
                if done == n or done and timeout is not None:
                    return done
                if timeout == 0:
                    raise BlockingIOError(errno.EAGAIN, "would block")
                ok = self.conn.cond.wait("send", limit or timeout)
                if not ok and limit:
                    if done:
                        return done
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                if not ok and timeout:
                    raise _socket.timeout("timed out")
                self._check()

        def sendmsg(self, buffers, ancdata=(), flags=0, address=None):
            return self.send(b"".join(bytes(b) for b in buffers), flags)

        def sendall(self, data, flags=0):
            data = memoryview(bytes(data))
            i = 0
            total = self.timeout
            end = k.now + int((total or 0) * 1e9)
            try:
                while i < len(data):
                    if total:               # one time limit for all of it, as in CPython
                        self.timeout = (end - k.now) / 1e9
                        if self.timeout <= 0:
                            raise _socket.timeout("timed out")
                    i += self.send(data[i:i + 65536])
            finally:
                self.timeout = total

        def sendfile(self, file, offset=0, count=None):
            if offset:
                file.seek(offset)
            tot = 0
            while True:
                d = file.read(8192 if count is None else min(8192, count - tot))
                if not d:
                    return tot
                self.sendall(d)
                tot += len(d)

        def recv(self, n, flags=0):
            self._check()
            timeout = 0 if flags & _socket.MSG_DONTWAIT else self.timeout
            limit = self._limit(_socket.SO_RCVTIMEO)
            while True:
                if self.conn.rx:
                    d = bytes(self.conn.rx[:n])
                    if not flags & _socket.MSG_PEEK:
                        del self.conn.rx[:n]
                    return d
                if self.conn.error:
                    raise OSError(self.conn.error, "connection failed")
                if self.conn.peer_fin or self.conn.state == "CLOSED":
                    return b""
                if timeout == 0:
                    raise BlockingIOError(errno.EAGAIN, "would block")
                ok = self.conn.cond.wait("recv", limit or timeout)
                if not ok and limit:
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                if not ok and timeout:
                    raise _socket.timeout("timed out")

        def recv_into(self, buf, nbytes=0, flags=0):
            d = self.recv(nbytes or len(buf))
            buf[:len(d)] = d
            return len(d)

        def shutdown(self, how):
            self._check()
            if self.conn is not None:
                if self.conn.state == "CLOSED":
                    raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
                if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
                    self.conn.app_shutdown()

        def close(self):
            if self.closed:
                return
            self.closed = True
            if self in knobs["open"]:
                knobs["open"].remove(self)
            self.shared[0] -= 1
            if self.shared[0]:
                return
            if self.listener is not None:
                if stack.listeners.get(self.addr[1]) is self.listener:
                    del stack.listeners[self.addr[1]]
                for c in self.listener.queue:
                    c.out("RA", c.nxt)
                    c.state = "CLOSED"
                    stack.gone(c)
            if self.conn is not None:
                v = self.opts.get((_socket.SOL_SOCKET, _socket.SO_LINGER))
                if isinstance(v, (bytes, bytearray)) and len(v) == 8:
                    on, secs = struct.unpack("ii", v)
                    if on and secs == 0:
                        return self.conn.app_abort()
                    if on and not knobs.get("exiting") and not self.conn.rx:
                        # the connection stays ours until the peer has everything
                        end = k.now + secs * 1000000000
                        self.conn.app_shutdown()
                        while self.conn.state == "FIN_WAIT" and k.now < end:
                            if not self.conn.cond.wait("linger", (end - k.now) / 1e9):
                                break
                self.conn.app_close()

        def dup(self):
            self._check()
            s = type(self)(self.family, self.type, self.proto, _conn=self.conn)
            s.listener, s.addr, s.opts, s.timeout = self.listener, self.addr, self.opts, self.timeout
            s.shared = self.shared
            s.shared[0] += 1
            return s

        def detach(self):
            self.closed = True
            return self._fd

        def fileno(self):
            return -1 if self.closed else self._fd

        def getsockname(self):
            return self.addr or (stack.ip, self.conn.port)

        def getpeername(self):
            return (self.conn.peer, self.conn.pport)

        def settimeout(self, t):
            self.timeout = t

        def gettimeout(self):
            return self.timeout

        def setblocking(self, b):
            self.timeout = None if b else 0

        def getblocking(self):
            return self.timeout != 0

        def set_inheritable(self, b):
            pass

        def get_inheritable(self):
            return False

        def makefile(self, mode="r", buffering=None, **kw):
            raw = _RawSock(self, mode)
            if buffering == 0:
                return raw
            return io.BufferedWriter(raw) if "w" in mode else io.BufferedReader(raw)

        def readable(self):
            if self.listener is not None:
                return bool(self.listener.queue)
            return bool(self.conn.rx or self.conn.peer_fin or self.conn.error)

        def writable(self):
            if self.listener is not None:
                return False
            c = self.conn
            return bool(c.error or c.state != "ESTABLISHED" or len(c.buf) < c.sndbuf)

        def wait_cond(self):
            return self.listener.cond if self.listener is not None else self.conn.cond

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    SimSocket.__name__ = "socket"
    return SimSocket


class _RawSock(io.RawIOBase):
    def __init__(self, s, mode):
        self.s, self.m = s, mode

    def writable(self):
        return "w" in self.m

    def readable(self):
        return "r" in self.m

    def write(self, b):
        return self.s.send(bytes(b))

    def readinto(self, b):
        return self.s.recv_into(b)


def wait_any(k, ready, objs, timeout):
    k.point("select")
    end = None if timeout is None else k.now + int(max(0, timeout) * 1e9)
    while True:
        r = ready()
        if r:
            return r
        if end is not None and k.now >= end:
            return r
        t = k.current
        for o in objs:
            o.wait_cond().waiters.append(t)
        k.block("select", None if end is None else (end - k.now) / 1e9)
        for o in objs:
            c = o.wait_cond()
            if t in c.waiters:
                c.waiters.remove(t)


class _Three(tuple):
    def __bool__(self):
        return any(self)


def make_select(k, cls):
    def obj(f):
        while not isinstance(f, cls) and hasattr(f, "socket"):
            f = f.socket
        return f

    def select(rlist, wlist, xlist, timeout=None):
        objs = [obj(f) for f in list(rlist) + list(wlist)]
        if not any(isinstance(o, cls) for o in objs):
            return _real_select(rlist, wlist, xlist, timeout)
        return tuple(wait_any(k, lambda: _Three((
            [f for f in rlist if obj(f).readable()], [f for f in wlist if obj(f).writable()],
            [])), objs, timeout))
    return select


def make_selector_class(k):
    class SimSelector(selectors.BaseSelector):
        def __init__(self):
            self._map = {}

        @staticmethod
        def _obj(f):
            return f.socket if hasattr(f, "socket") and not hasattr(f, "conn") else f

        def register(self, fileobj, events, data=None):
            key = selectors.SelectorKey(fileobj, 0, events, data)
            self._map[id(fileobj)] = key
            return key

        def unregister(self, fileobj):
            return self._map.pop(id(fileobj))

        def modify(self, fileobj, events, data=None):
            self.unregister(fileobj)
            return self.register(fileobj, events, data)

        def select(self, timeout=None):
            def ready():
                out = []
                for key in self._map.values():
                    o = self._obj(key.fileobj)
                    e = (key.events & selectors.EVENT_READ and o.readable() and
                         selectors.EVENT_READ) | \
                        (key.events & selectors.EVENT_WRITE and o.writable() and
                         selectors.EVENT_WRITE)
                    if e:
                        out.append((key, e))
                return out
            return wait_any(k, ready, [self._obj(key.fileobj) for key in self._map.values()],
                            timeout)

        def close(self):
            self._map.clear()

        def get_map(self):
            return {v.fileobj: v for v in self._map.values()}

        def get_key(self, fileobj):
            return self._map[id(fileobj)]
    return SimSelector


def install(k, stack, ch, knobs):
    import socketserver
    cls = make_socket_class(k, stack, ch, knobs)
    _socket.socket = cls
    sel = make_selector_class(k)
    saved = [(socketserver, "_ServerSelector", sel), (selectors, "DefaultSelector", sel),
             (selectors, "SelectSelector", sel), (selectors, "PollSelector", sel),
             (selectors, "EpollSelector", sel), (_select, "select", make_select(k, cls))]
    saved = [(m, n, getattr(m, n), v) for m, n, v in saved]
    for m, n, old, v in saved:
        setattr(m, n, v)

    def undo():
        _socket.socket = _real_socket
        _socket.setdefaulttimeout(None)
        for m, n, old, v in saved:
            setattr(m, n, old)
    return undo
