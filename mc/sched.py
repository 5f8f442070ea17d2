"""Controlled scheduler for two threads running library calls: a thread runs until a chosen step (a source line, or a bytecode in code that
touches shared state) of library code, then the other one runs.  Only one thread runs at a time unless one blocks on a lock of the library."""
from __future__ import annotations

import dis
import os
import sys
import threading
import time
import types

import numpy as np

import harness

SRC = os.path.realpath(harness.SRC)
_IMM = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, int, float, str, bytes, bool, tuple, frozenset, complex, np.generic,
        np.ufunc, type(None), types.GenericAlias)
_shared = {}
_attrs = None


def _class_state():
    """names of class attributes of library classes that hold mutable objects"""
    global _attrs
    if _attrs is None:
        _attrs = set()
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] != "pymap3d" or m is None:
                continue
            for o in list(vars(m).values()):
                if isinstance(o, type) and o.__module__ == n:
                    for k, v in vars(o).items():
                        if isinstance(v, (dict, list, set, np.ndarray, bytearray)) and not k.startswith("__") and k != "models":
                            _attrs.add(k)
    return _attrs


def mutable(v):
    return not isinstance(v, _IMM) and not callable(v) or hasattr(v, "cache_clear")


def shared_code(code, glob):
    """does this code object touch module-level or class-level mutable state?"""
    r = _shared.get(code)
    if r is None:
        r = False
        ca = _class_state()
        for i in dis.get_instructions(code):
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                r = True
            elif i.opname == "LOAD_GLOBAL" and i.argval in glob and mutable(glob[i.argval]):
                r = True
            elif i.opname in ("LOAD_ATTR", "STORE_ATTR", "LOAD_METHOD") and i.argval in ca:
                r = True
            elif i.opname == "LOAD_ATTR" and i.argval in ("cache_clear", "__dict__"):
                r = True
        _shared[code] = r
    return r


class Stuck(Exception):
    pass


_idle = []


class _Worker:
    """a thread that runs jobs one after another"""

    def __init__(self):
        self.job = None
        self.wake = threading.Lock()
        self.wake.acquire()
        self.pid = os.getpid()
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _loop(self):
        while True:
            self.wake.acquire()
            self.job._main()
            self.job = None


def _worker():
    while _idle:
        w = _idle.pop()
        if w.pid == os.getpid():
            return w
    return _Worker()


class Thread:
    def __init__(self, fn, stop, grain):
        self.fn, self.stop, self.grain = fn, stop, grain
        self.n = 0
        self.go = threading.Lock()
        self.go.acquire()
        self._ev = threading.Lock()      # released when paused or done
        self._ev.acquire()
        self.held = True
        self.done = False
        self.paused = False              # seen by the scheduler to be waiting at its stopping point
        self.result = None
        self.w = None

    def _main(self):
        if self.stop is not None:
            sys.settrace(self._glob)
        try:
            self.result = self.fn()
        except BaseException as e:  # noqa: BLE001
            self.result = ("!exc", type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
            self.done = True
            self._ev.release()

    def _glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(SRC):
            return None
        if self.grain == "shared" and not shared_code(frame.f_code, frame.f_globals):
            return None
        if self.grain in ("op", "shared") or (self.grain == "mixed" and shared_code(frame.f_code, frame.f_globals)):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event in ("line", "opcode"):
            n = self.n
            self.n = n + 1
            if n == self.stop:
                self._ev.release()
                self.go.acquire()
        return self._local

    def start(self):
        self.w = _worker()
        self.w.job = self
        self.w.wake.release()

    def resume(self, stop):
        self.paused = False
        self.stop = stop
        self.go.release()

    def _asleep(self):
        """neither running nor waiting for a processor"""
        try:
            with open(f"/proc/self/task/{self.w.t.native_id}/stat") as fh:
                return fh.read().rpartition(")")[2].split()[0] == "S"
        except OSError:
            return True

    def wait(self, limit=30.0):
        """until paused or done: True; blocked on something another thread holds: False"""
        if self.paused:
            return True
        if self._ev.acquire(timeout=0.004):
            self.paused = not self.done
            return True
        t0 = time.time()
        idle, last = 0, None
        while time.time() - t0 < limit:
            try:
                c = time.clock_gettime(time.pthread_getcpuclockid(self.w.t.ident))
            except (OSError, TypeError):
                c = None
            idle = idle + 1 if c == last and self._asleep() else 0
            last = c
            if self._ev.acquire(timeout=0.002):
                self.paused = not self.done
                return True
            if idle >= 3:
                return False
        raise Stuck

    def finish(self, limit=20.0):
        """run to the end, passing any stopping point left"""
        t0 = time.time()
        while not self.done:
            if self.paused or self._ev.acquire(timeout=0.05) and not self.done:
                self.resume(-1)      # blocked earlier, reached its stopping point meanwhile
            if time.time() - t0 > limit:
                raise Stuck
        while self.w.job is not None:
            time.sleep(0)
        _idle.append(self.w)


def solo(fn, grain):
    """number of steps of a call run alone, and its result"""
    t = Thread(fn, -1, grain)
    t.start()
    t.finish()
    return t.n, t.result


def run(fa, fb, k, m=None, grain="line"):
    """A runs k steps, B m steps (None: to its end), A to its end, B to its end -> (results of A and B, blocked)"""
    a = Thread(fa, k, grain)
    b = Thread(fb, m, grain)
    blocked = 0
    a.start()
    aw = a.wait()
    b.start()
    bw = b.wait()
    blocked += (not aw) + (not bw)
    if a.paused:
        a.resume(-1)
    if not a.done and not a.wait():
        blocked += 1
    if a.paused:                     # it was not blocked, only slow: run it to its end before the other one goes on
        a.resume(-1)
        if not a.done and not a.wait():
            blocked += 1
    if b.paused:
        b.resume(-1)
    a.finish()
    b.finish()
    return a.result, b.result, blocked
