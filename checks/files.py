"""Helpers of the checks of the file handler: what is on the disk, and which file operations overlap."""
import builtins
import os
import shutil
import threading

from mc import sched


def read(path):
    with sched.frozen():
        if not os.path.exists(path):
            return None
        with _open(path, encoding='utf-8', newline='') as f:
            return f.read()


def archives(folder):
    """Contents of the archives by name."""
    with sched.frozen():
        out = {}
        for base, dirs, names in os.walk(folder):
            for n in sorted(names):
                with _open(os.path.join(base, n), encoding='utf-8', newline='') as f:
                    out[os.path.relpath(os.path.join(base, n), folder)] = f.read()
        return out


def union(path, folder=None):
    """Everything that was written, archives first."""
    parts = list(archives(folder).values()) if folder and os.path.isdir(folder) else []
    last = read(path)
    return parts + ([last] if last is not None else [])


_open = builtins.open


def point(where):
    s = sched._managed()
    if s is not None and not s.frozen:
        s.point(where)


class Watch:
    """
    Observes the operations on the files below a folder by replacing open() and the moving functions with versions that
    stop at a scheduling point before and after they act, and notes operations on one file that overlap in time.
    Faults: self.faults maps an operation name to a list of outcomes for its successive calls (None: works).
    """
    MOVES = ((shutil, 'move'), (os, 'rename'), (os, 'replace'), (shutil, 'copy'), (shutil, 'copyfile'), (shutil, 'copy2'))

    def __init__(self, folder, points=True):
        self.folder = os.path.abspath(folder)
        self.points = points
        self.inside = {}
        self.overlaps = []
        self.log = []
        self.faults = {}
        self.depth = threading.local()

    def ours(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.folder)
        except TypeError:
            return False

    def fault(self, op):
        todo = self.faults.get(op)
        if todo:
            e = todo.pop(0)
            if e is not None:
                raise e

    def doing(self, op, key, fn):
        """Run fn as the named operation on the file."""
        if getattr(self.depth, 'n', 0):
            return fn()
        self.depth.n = 1
        me = threading.get_ident()
        try:
            if self.points:
                point(op)
            others = [x for x in self.inside.get(key, ()) if x[0] != me]
            if others:
                self.overlaps.append((op, others[0][1]))
            entry = (me, op)
            self.inside.setdefault(key, []).append(entry)
            try:
                if self.points:
                    point(op + ' inside')
                self.fault(op)
                self.log.append((op, os.path.basename(key)))
                return fn()
            finally:
                if self.points:
                    point(op + ' end')
                self.inside[key].remove(entry)
        finally:
            self.depth.n = 0

    def install(self):
        watch = self

        def opened(file, mode='r', *a, **k):
            if not isinstance(file, (str, os.PathLike)) or not watch.ours(file) or str(file).endswith('.lock') or mode[0] == 'r':
                return _open(file, mode, *a, **k)
            if not getattr(watch.depth, 'n', 0):
                watch.fault('open ' + mode[0])
            return Watched(watch, _open(file, mode, *a, **k), os.path.abspath(os.fspath(file)))
        builtins.open = opened
        for mod, name in self.MOVES:
            self.wrap(mod, name)
        return self

    def wrap(self, mod, name):
        real = getattr(mod, name)
        watch = self

        def moved(src, dst, *a, **k):
            if not watch.ours(src):
                return real(src, dst, *a, **k)
            return watch.doing('move', os.path.abspath(os.fspath(src)), lambda: real(src, dst, *a, **k))
        setattr(mod, name, moved)


class Watched:
    """A file object whose operations are observed."""

    def __init__(self, watch, real, key):
        self.watch, self.real, self.key = watch, real, key

    def write(self, text):
        return self.watch.doing('write', self.key, lambda: self.real.write(text))

    def writelines(self, lines):
        return self.watch.doing('write', self.key, lambda: self.real.writelines(lines))

    def flush(self):
        return self.watch.doing('flush', self.key, self.real.flush)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        return self.real.close()

    def __iter__(self):
        return iter(self.real)

    def __getattr__(self, name):
        return getattr(self.real, name)


class Slow:
    """A file object of the user that is not safe to be used by two threads at once: every character takes a while."""

    def __init__(self):
        self.text = ''
        self.users = 0
        self.overlaps = []

    def begin(self, what):
        if self.users:
            self.overlaps.append(what)
        self.users += 1

    def write(self, text):
        self.begin('write')
        half = len(text) // 2
        for part in (text[:half], text[half:]):
            point('half')
            self.text = self.text + part
        self.users -= 1

    def flush(self):
        self.begin('flush')
        point('flush')
        self.users -= 1

    def read(self):
        return self.text

    def close(self):
        pass
