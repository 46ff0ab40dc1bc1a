"""Interception of the nondeterminism and effects of the code under test.

Everything is installed once, before vanillaplusjs is imported, and is inert until HOOK is set
(in a forked child).  HOOK(kind, path) is called *before* every file-system effect or observation
on a path, and after every open-for-writing (kind "opened"), i.e. when the file is already truncated
but nothing has been written yet.
"""
import builtins
import io
import os
import sys
import time

HOOK = None          # callable(kind, path)
SLEEP = None         # callable(seconds)
CLOCK = None         # callable() -> seconds, instead of the wall clock and the monotonic clock
ROOT = None          # only paths below this prefix are reported
_in_hook = False

_real_open = builtins.open
_real_sleep = time.sleep
_real = {}

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _norm(path):
    if isinstance(path, int):
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    # no os.path.abspath -> may call getcwd only; fine
    p = path if path.startswith("/") else os.path.join(os.getcwd(), path)
    return os.path.normpath(p)


def point(kind, path):
    global _in_hook
    if HOOK is None or _in_hook:
        return
    p = _norm(path)
    if p is None or ROOT is None or not (p == ROOT or p.startswith(ROOT + "/")):
        return
    _in_hook = True
    try:
        HOOK(kind, p[len(ROOT) + 1:])
    finally:
        _in_hook = False


_AUDIT = {
    "os.mkdir": "mkdir", "os.rmdir": "rmdir", "os.remove": "unlink", "os.rename": "rename",
    "os.symlink": "symlink", "os.link": "link", "os.listdir": "list", "os.scandir": "list",
    "os.truncate": "truncate", "os.chmod": "chmod", "os.utime": "utime",
}


def _audit(event, args):
    if HOOK is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            point("openw", path)
        else:
            point("openr", path)
        return
    k = _AUDIT.get(event)
    if k is not None:
        if event in ("os.symlink", "os.link"):
            point(k, args[1])
        elif event == "os.rename":
            point(k, args[1])
        else:
            if args and args[0] is not None:
                point(k, args[0])


def _open(file, mode="r", *a, **kw):
    f = _real_open(file, mode, *a, **kw)
    if HOOK is not None and not isinstance(file, int) and any(c in mode for c in "wax+"):
        point("opened", file)
    return f


def _wrap_stat(name):
    real = getattr(os, name)
    _real[name] = real

    def wrapped(path, *a, **kw):
        if HOOK is not None:
            point("stat", path)
        return real(path, *a, **kw)

    wrapped.__name__ = name
    setattr(os, name, wrapped)


def _sleep(seconds):
    if SLEEP is not None:
        return SLEEP(seconds)
    return _real_sleep(seconds)


def _clock(name):
    real = getattr(time, name)

    def clock():
        return real() if CLOCK is None else CLOCK()
    clock.__name__ = name
    setattr(time, name, clock)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_audit)
    builtins.open = _open
    io.open = _open
    for n in ("stat", "lstat", "access", "readlink"):
        _wrap_stat(n)
    time.sleep = _sleep
    _clock("time")
    _clock("monotonic")
