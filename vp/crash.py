"""Observe files at every point where the process could die.

Points are: every line executed outside of the harness, the start and the end of every call of a
C function, and the moments between the pieces into which all writes are divided.
"""

import builtins
import io
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PIECES = 48

_open = builtins.open
_os_open, _os_read, _os_close, _os_write = os.open, os.read, os.close, os.write
_current = None


class PieceIO(io.FileIO):
    """A raw file that is written piece by piece."""

    def write(self, data):
        view = memoryview(data).cast("B")
        size = max(1, -(-len(view) // PIECES))
        done = 0
        while done < len(view):
            done += super().write(view[done : done + size])
            if _current is not None:
                _current.point()
        return done


def piecewise_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not (set(mode) & set("wax+")):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw_mode = "".join(c for c in mode if c in "rwax+")
    raw = PieceIO(file, raw_mode, closefd=closefd, opener=opener)
    if "b" in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buffered = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if "b" in mode:
        return buffered
    text = io.TextIOWrapper(buffered, encoding, errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def piecewise_write(fd, data):
    view = memoryview(data).cast("B")
    size = max(1, -(-len(view) // PIECES))
    done = 0
    while done < len(view):
        done += _os_write(fd, view[done : done + size])
        if _current is not None:
            _current.point()
    return done


def read(path):
    try:
        fd = _os_open(path, os.O_RDONLY)
    except FileNotFoundError:
        return None
    try:
        parts = []
        while part := _os_read(fd, 1 << 20):
            parts.append(part)
        return b"".join(parts)
    finally:
        _os_close(fd)


class Observer:
    """Context manager recording all states of some files, or killing the process at a point."""

    def __init__(self, paths, kill_at=None):
        self.paths = paths
        self.kill_at = kill_at
        self.points = 0
        self.last = [read(p) for p in paths]
        self.states = [[b] for b in self.last]

    def point(self):
        self.points += 1
        if self.kill_at is not None:
            if self.points >= self.kill_at:
                os.kill(os.getpid(), signal.SIGKILL)
            return
        for i, p in enumerate(self.paths):
            b = read(p)
            if b != self.last[i]:
                self.last[i] = b
                self.states[i].append(b)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(HERE):
            return None
        if event == "call":
            frame.f_trace_opcodes = False
        self.point()
        return self.trace

    def profile(self, frame, event, arg):
        if event in ("c_call", "c_return", "c_exception") and not frame.f_code.co_filename.startswith(HERE):
            self.point()

    def __enter__(self):
        global _current
        _current = self
        builtins.open = io.open = piecewise_open
        os.write = piecewise_write
        sys.settrace(self.trace)
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *exc):
        global _current
        sys.settrace(None)
        sys.setprofile(None)
        builtins.open = io.open = _open
        os.write = _os_write
        _current = None
        if self.kill_at is None:
            self.point()


def in_child(fn):
    """Run fn in a forked process; return (signal number or 0, exit status or None, bytes returned by fn)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            out = fn() or b""
            _os_write(w, out)
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    parts = []
    while part := os.read(r, 1 << 16):
        parts.append(part)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return os.WTERMSIG(st), None, b"".join(parts)
    return 0, os.WEXITSTATUS(st), b"".join(parts)
