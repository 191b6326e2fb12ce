"""One simulated process = one forked child, so that a kill loses exactly what a SIGKILL loses."""
import json
import os
import select
import signal
import sys
import time

from core import Violation

_clock = time.monotonic
_write, _read, _close, _exit = os.write, os.read, os.close, os._exit
KILLED = 97


def run_child(fn, timeout=120, what="a run"):
    """fn() in a child; returns (exit status, its JSON result or None)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            _close(r)
            out = fn()
            data = json.dumps(out).encode()
            while data:
                data = data[_write(w, data):]
            code = 0
        except BaseException:
            import traceback
            try:
                data = json.dumps({"harness": traceback.format_exc()[-3000:]}).encode()
                _write(w, data)
            except BaseException:
                pass
        finally:
            _exit(code)
    _close(w)
    buf = b""
    end = _clock() + timeout
    try:
        while True:
            left = end - _clock()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Violation("hang", "%s does not end within %d s" % (what, timeout))
            b = _read(r, 65536)
            if not b:
                break
            buf += b
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
        raise
    finally:
        _close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    res = json.loads(buf) if buf else None
    if isinstance(res, dict) and "harness" in res:
        raise RuntimeError("in the child: " + res["harness"])
    if code not in (0, KILLED):
        raise RuntimeError("child ended with status %d" % code)
    return code, res
