"""The operating-system seam: files and child processes, with injected faults.

Files live in a real scratch directory (so any file API keeps working), but every call
that changes it passes a hook first: the hook may preempt, kill the whole simulated
process (it is a forked child, so a kill loses exactly what a SIGKILL loses: user-space
buffers, locks, threads), make the call fail with an errno, or shorten a write.
"""
import builtins
import errno
import io
import os
import subprocess
import threading

_real_open = io.open
_real_os = {n: getattr(os, n) for n in (
    "stat", "lstat", "mkdir", "remove", "unlink", "rename", "replace", "rmdir", "open", "write",
    "close", "fsync", "link", "symlink", "truncate", "system", "listdir", "scandir", "access",
    "sendfile", "ftruncate", "pwrite", "writev", "posix_fallocate") if hasattr(os, n)}
_real_popen = subprocess.Popen
_real_write = os.write

MUTATING = {"mkdir", "remove", "unlink", "rename", "replace", "rmdir", "link", "truncate",
            "open-w", "write", "fsync", "close-w"}


class OSSim:
    """root: only paths below it are faulted.  plan(op, path, n) -> None | action tuple.

    actions: ("kill",), ("err", errno), ("short", nbytes), ("exc", exception)
    """

    def __init__(self, root, kernel=None, run=None, plan=None, tools=None):
        self.root = os.path.realpath(root)
        self.k = kernel
        self.run = run
        self.plan = plan
        self.n = 0
        self.oplog = []
        self.tools = tools or {}
        self.enabled = True
        self.fired = []
        self.on_kill = None
        self.wfds = {}
        self.accessor = None
        self.gate = None        # called before every call: lets other simulated processes run
        self.bufsize = io.DEFAULT_BUFFER_SIZE

    def covers(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p.startswith(self.root + "/") or p == self.root

    def hook(self, op, path, size=None):
        """Returns None or a number of bytes to which a write is shortened."""
        if not self.enabled:
            return None
        if self.k is not None:
            self.k.point("fs-" + op)
        if self.gate is not None:
            self.gate(op)
        if op not in MUTATING and op != "spawn":
            return None
        i = self.n
        self.n += 1
        name = os.path.basename(os.fsdecode(path)) if not isinstance(path, int) else str(path)
        self.oplog.append((op, name))
        if self.plan is None:
            return None
        act = self.plan(op, name, i, size)
        if act is None:
            return None
        self.fired.append((i, op, name) + tuple(str(a) for a in act))
        if self.run is not None:
            self.run.count("fault:" + op + ":" + str(act[0]) + (
                ":" + errno.errorcode.get(act[1], str(act[1])) if act[0] == "err" else ""))
        if act[0] == "kill":
            if self.on_kill:
                self.on_kill()
            os._exit(97)
        if act[0] == "err":
            raise OSError(act[1], os.strerror(act[1]), os.fsdecode(path)
                          if not isinstance(path, int) else None)
        if act[0] == "exc":
            raise act[1]
        if act[0] == "short":
            return act[1]
        return None

    @staticmethod
    def fd_path(fd):
        """The path behind a file descriptor (or the descriptor, when it has none)."""
        try:
            p = os.readlink("/proc/self/fd/%d" % fd)
        except OSError:
            return fd
        return p if p.startswith("/") else fd

    # -- wrappers
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        writing = any(c in mode for c in "wax+")
        path = self.fd_path(file) if isinstance(file, int) and writing else file
        if isinstance(path, int) or not self.enabled or not self.covers(path):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if file is path:
            self.hook("open-w" if writing else "open-r", file)
        if not writing:
            f = _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if self.gate is not None:
                self.gate("opened-r")
            return f
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        raw = SimRaw(self, path, rawmode, file, closefd, opener)
        if self.gate is not None and file is path:
            self.gate("opened-w")
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else self.bufsize
        buf = io.BufferedRandom(raw, size) if "+" in rawmode else io.BufferedWriter(raw, size)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def install(self):
        s = self

        def wrap(name, nargs=1, op=None):
            real = _real_os[name]

            def f(path, *a, **kw):
                if not isinstance(path, int) and s.covers(path):
                    s.hook(op or name, path)
                return real(path, *a, **kw)
            f.__name__ = name
            return f
        for n in ("stat", "lstat", "mkdir", "remove", "unlink", "rename", "replace", "rmdir",
                  "link", "truncate"):
            setattr(os, n, wrap(n))
        real_osopen, real_oswrite, real_close = \
            _real_os["open"], _real_os["write"], _real_os["close"]

        def os_open(path, flags, *a, **kw):
            cov = not isinstance(path, int) and s.covers(path)
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if cov:
                s.hook("open-w" if w else "open-r", path)
            fd = real_osopen(path, flags, *a, **kw)
            if cov and w:
                s.wfds[fd] = path
            return fd

        def os_write(fd, data):
            if fd in s.wfds:
                n = s.hook("write", s.wfds[fd], len(data))
                if n is not None:
                    data = bytes(data)[:max(0, n)]
            return real_oswrite(fd, data)

        def os_close(fd):
            p = s.wfds.pop(fd, None)
            r = real_close(fd)
            if p is not None:
                s.hook("close-w", p)
            return r
        mkdir = os.mkdir

        def guarded_mkdir(path, *a, **kw):
            """An ordinary user cannot make directories in other places."""
            p = os.path.abspath(os.fsdecode(path))
            if s.enabled and not s.covers(path) and not p.startswith("/tmp/") \
                    and not p.startswith(os.path.dirname(s.root) + "/"):
                raise PermissionError(errno.EACCES, "Permission denied", p)
            return mkdir(path, *a, **kw)
        os.mkdir = guarded_mkdir

        def fd_call(name, data_arg=None):
            """A call that changes a file through its descriptor."""
            real = _real_os[name]

            def f(fd, *a, **kw):
                p = s.fd_path(fd) if isinstance(fd, int) else fd
                if not isinstance(p, int) and s.covers(p):
                    n = s.hook("write", p, a[2] if name == "sendfile" and len(a) > 2 else None)
                    if n is not None and name == "sendfile" and len(a) > 2:
                        a = a[:2] + (max(1, min(n, a[2])),) + a[3:]
                return real(fd, *a, **kw)
            f.__name__ = name
            return f
        for n in ("sendfile", "ftruncate", "pwrite", "writev", "posix_fallocate"):
            if n in _real_os:
                setattr(os, n, fd_call(n))
        os.open, os.write, os.close = os_open, os_write, os_close
        import pathlib
        acc = getattr(pathlib, "_NormalAccessor", None)
        if acc is not None:         # it took its own copies of the functions on import
            self.accessor = {}
            for n in ("stat", "lstat", "open", "mkdir", "unlink", "rmdir", "rename", "replace"):
                self.accessor[n] = acc.__dict__.get(n)
                setattr(acc, n, staticmethod(getattr(os, n)))
        builtins.open = s.open
        io.open = s.open
        subprocess.Popen = self.popen_class()

        def system(cmd):
            import shlex
            try:
                return self.popen_class()(shlex.split(cmd)).wait() << 8
            except FileNotFoundError:
                return 127 << 8
        os.system = system

    def uninstall(self):
        if self.accessor:
            import pathlib
            for n, v in self.accessor.items():
                setattr(pathlib._NormalAccessor, n, v)
            self.accessor = None
        for n, v in _real_os.items():
            setattr(os, n, v)
        builtins.open = _real_open
        io.open = _real_open
        subprocess.Popen = _real_popen

    def popen_class(self):
        s = self

        class Popen:
            def __init__(self, args, *a, **kw):
                if isinstance(args, str):
                    import shlex
                    args = shlex.split(args)
                self.args = [os.fspath(x) if not isinstance(x, str) else x for x in args]
                self.stdin = self.stdout = self.stderr = None
                self.pid = 4242
                self.returncode = None
                act = s.hook("spawn", self.args[0])
                tool = s.tools.get(self.args[0])
                if tool is None:
                    tool = s.tools.get(os.path.basename(self.args[0])) \
                        if "/" not in self.args[0] else None
                if tool is None:
                    raise FileNotFoundError(errno.ENOENT, "No such file or directory",
                                            self.args[0])
                self._tool = tool
                self._rc = None
                self._rc = tool(s, self.args, kw)

            def poll(self):
                if self.returncode is None:
                    self.returncode = self._rc
                return self.returncode

            def wait(self, timeout=None):
                if s.k is not None:
                    s.k.point("wait")
                return self.poll()

            def communicate(self, input=None, timeout=None):
                self.wait()
                return (b"", b"")

            def kill(self):
                pass
            terminate = kill

            def send_signal(self, sig):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()
        return Popen


class SimRaw(io.FileIO):
    def __init__(self, s, path, mode, file, closefd, opener):
        self._s = s
        self._path = path
        self._hooked_close = False
        s.wfds.pop(file if isinstance(file, int) else None, None)
        super().__init__(file, mode, closefd, opener)
        s.wfds.pop(self.fileno(), None)

    def write(self, b):
        n = self._s.hook("write", self._path, len(b))
        if n is not None:
            b = bytes(b)[:max(1, n)]
            super().write(b)
            return len(b)
        return super().write(b)

    def close(self):
        if not self._hooked_close and not self.closed:
            self._hooked_close = True
            try:
                self._s.hook("close-w", self._path)
            finally:
                super().close()
        else:
            super().close()


def tool_write(s, path, data, chunks):
    """A C program writing a file: one write(2) per chunk, faults at each."""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        i = 0
        while i < len(data):
            j = min(len(data), i + chunks)
            n = os.write(fd, data[i:j])
            i += n
    finally:
        os.close(fd)
