"""Runs a function in a forked process and returns what it returns."""
import os
import pickle
import traceback


class ChildError(Exception):
    pass


def in_child(fn, *args):
    """fn(*args) in a fork of this process, at its present state.  Raises
    ChildError when the child raises, exits or dies."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()[-3000:]))
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 24:
            os.kill(os.getpid(), 24)        # the CPU limit counts per process
        raise ChildError("the process ended with status %d inside the library" % st)
    s, v = pickle.loads(buf)
    if s == "err":
        raise ChildError(v)
    return v
