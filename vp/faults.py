"""Killing a build at a chosen file-system effect.

Effects are counted over the build process and all of its workers (which run one at a time, in the default
order).  KILL = (k, torn): everything is killed right before effect k - or, for the moment right after a file
was opened for writing, with that file empty; torn additionally cuts the file written last to half of its
size, as when only part of its data reached the disk."""
import mmap
import os
import signal
import struct

from . import hooks

WRITES = {"openw", "opened", "mkdir", "rmdir", "unlink", "rename", "symlink", "link", "truncate"}


class Killer:
    def __init__(self, root, kill=None):
        self.root = root
        self.kill = kill
        self.mem = mmap.mmap(-1, 4096 * 4)      # shared with the workers: counter, length and path of the last opened file
        self.main = os.getpid()
        self.trace = None

    def install(self):
        hooks.ROOT = self.root
        hooks.HOOK = self.hook

    def count(self):
        return struct.unpack("<I", self.mem[:4])[0]

    def effects(self):
        """per effect, whether it directly follows the opening of a file for writing"""
        return [bool(self.mem[8192 + k]) or k >= 4096 for k in range(self.count())]

    def last(self):
        n = struct.unpack("<I", self.mem[4:8])[0]
        return self.mem[8:8 + n].decode("utf-8", "surrogateescape") if n else None

    def hook(self, kind, path):
        if kind not in WRITES:
            return
        k = self.count()
        if self.kill is not None and k == self.kill[0]:
            if self.kill[1]:
                f = self.last()
                if f is not None:
                    try:
                        n = os.stat(os.path.join(self.root, f)).st_size
                        if n >= 2 and not os.path.islink(os.path.join(self.root, f)):
                            os.truncate(os.path.join(self.root, f), n // 2)
                    except OSError:
                        pass
            os.kill(self.main, signal.SIGKILL)
            os._exit(9)
        if k < 4096:
            self.mem[8192 + k] = self.last() is not None
        self.mem[:4] = struct.pack("<I", k + 1)
        b = path.encode("utf-8", "surrogateescape") if kind == "opened" else b""
        self.mem[4:8] = struct.pack("<I", len(b))
        self.mem[8:8 + len(b)] = b
