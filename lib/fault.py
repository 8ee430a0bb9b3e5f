"""Run something in a forked process with a fault at one file operation."""

import ctypes
import json
import os
import select
import signal
import time

NONE, KILL_BEFORE, KILL_AFTER, FAIL, PARTIAL, PARTIAL_FAIL, PARTIAL_KILL, FAIL_FROM, INTERRUPT = range(9)
KINDS = ["none", "killed before", "killed after", "error", "partial", "partial, then error", "partial, then killed", "errors from there on", "interrupt"]
TYPES = ["open", "read", "write", "close", "stat", "rename", "unlink", "mode", "link", "sync", "seek", "truncate", "copy", "mkdir"]

_lib = []


def lib():
    if not _lib:
        so = ctypes.CDLL(os.environ["VF_FAULTSHIM"])
        _lib.append(
            (
                (ctypes.c_long * 8).in_dll(so, "VF_CTL"),
                (ctypes.c_long * 4096).in_dll(so, "VF_LOG"),
                (ctypes.c_char * 4096).in_dll(so, "VF_ROOT"),
            )
        )
    return _lib[0]


class Result:
    def __init__(self, killed, data):
        self.killed = killed
        self.data = data or {}
        self.ops = self.data.get("ops", [])
        self.hit = self.data.get("hit")
        self.value = self.data.get("value")
        self.exc = self.data.get("exc")

    def __repr__(self):
        if self.killed:
            return "killed"
        return "value %r, exception %r, fault hit %r" % (self.value, self.exc, self.hit)


def run(fn, root, target=-1, kind=NONE, errno=5, apart=False, timeout=100):
    """fn() in a child with the fault; its value has to be JSON"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            ctl, log, rootbuf = lib()
            rootbuf.value = os.fsencode(os.path.join(root, ""))
            for k, v in enumerate([0, 0, target, kind, errno, 0, -1, int(apart)]):
                ctl[k] = v
            out = {}
            try:
                ctl[0] = 1
                try:
                    out["value"] = fn()
                finally:
                    ctl[0] = 0
            except BaseException as e:
                out["exc"] = "%s: %s" % (type(e).__name__, e)
            n = ctl[1]
            out["n"] = n
            out["ops"] = [TYPES[t] for t in log[: min(n, 4096)]]
            out["hit"] = TYPES[ctl[6]] if ctl[5] else None
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data) :]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise TimeoutError("the process with a fault doesn't end")
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) != signal.SIGKILL or kind not in (KILL_BEFORE, KILL_AFTER, PARTIAL_KILL):
            raise AssertionError("process ended by signal %d" % os.WTERMSIG(status))
        return Result(True, None)
    if os.WEXITSTATUS(status) != 0:
        raise OSError("the process with a fault failed")
    return Result(False, json.loads(data))
