"""Make the calls by which the library reaches files and JSON raise errors."""

import builtins
import errno
import io
import json
import os
import sys

from . import boot

KINDS = ["EIO", "EACCES", "ENOSPC", "ENOENT", "KeyboardInterrupt", "ValueError", "RecursionError", "MemoryError"]


def make_error(kind):
    if kind.startswith("E") and hasattr(errno, kind):
        n = getattr(errno, kind)
        return OSError(n, os.strerror(n))
    return getattr(builtins, kind)("injected")


class FileProxy:
    """A file whose methods may raise."""

    def __init__(self, faults, file):
        self._faults = faults
        self._file = file

    def __enter__(self):
        self._file.__enter__()
        return self

    def __exit__(self, *exc):
        # Closing writes what is still buffered, which may fail; the file is closed all the same.
        try:
            return self._file.__exit__(*exc)
        finally:
            self._faults.event("close")

    def __iter__(self):
        self._faults.event("iterate")
        return iter(self._file)

    def __getattr__(self, name):
        attr = getattr(self._file, name)
        if callable(attr) and name in ("read", "readline", "readlines", "readinto", "write", "writelines", "flush",
                                       "seek", "truncate"):

            def call(*args, **kw):
                self._faults.event(name)
                return attr(*args, **kw)

            return call
        if name == "close":

            def close():
                attr()
                self._faults.event("close")

            return close
        return attr


class Faults:
    """Context manager: the call number `at` raises an error of the given kind.

    Without `at` the calls are only counted.
    """

    FUNCTIONS = {
        os: ["replace", "rename", "stat", "lstat", "remove", "unlink", "open", "write", "read", "fsync", "link", "makedirs", "mkdir"],
        os.path: ["exists", "getmtime", "getsize", "isfile"],
        json: ["loads", "dumps", "load", "dump"],
    }

    def __init__(self, at=None, kind="EIO", last=None):
        self.at = at
        self.last = last if last is not None else at
        self.kind = kind
        self.count = 0
        self.raised = []
        self.suspended = False

    def event(self, name):
        self.count += 1
        if self.at is not None and self.at <= self.count <= self.last:
            self.raised.append(name)
            raise make_error(self.kind)

    def from_library(self):
        # The caller itself, or a few levels below library code (json, pathlib, shutil ...).
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            if boot.is_lib_file(f.f_code.co_filename):
                return True
            f = f.f_back
        return False

    def __enter__(self):
        self.saved = []
        real_open = builtins.open

        def opener(*args, **kw):
            if not self.from_library():
                return real_open(*args, **kw)
            self.event("open")
            return FileProxy(self, real_open(*args, **kw))

        self.saved.append((builtins, "open", real_open))
        self.saved.append((io, "open", io.open))
        builtins.open = io.open = opener
        for module, names in self.FUNCTIONS.items():
            for name in names:
                real = getattr(module, name)
                self.saved.append((module, name, real))
                setattr(module, name, self.wrap(name, real))
        return self

    def wrap(self, name, real):
        def call(*args, **kw):
            if self.from_library():
                self.event(name)
            return real(*args, **kw)

        return call

    def __exit__(self, *exc):
        for module, name, real in reversed(self.saved):
            setattr(module, name, real)
