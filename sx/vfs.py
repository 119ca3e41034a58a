"""In-memory files for symbolic runs (paths under /sxvfs)."""
import builtins
import io
import os

from .core import ST

ROOT = "/sxvfs/"


def is_vpath(p):
    return isinstance(p, str) and p.startswith(ROOT)


def files():
    return ST.path.vfs


class HangDetected(Exception):
    """A reader kept reading past the end of the file."""


class VText(io.StringIO):
    def __init__(self, path, mode):
        self._path, self._mode = path, mode
        self._iterating = False
        self._eof = 0
        w = "w" in mode or "x" in mode
        init = "" if w else files()[path] if path in files() else None
        if init is None:
            if "a" in mode:
                init = ""
            else:
                raise FileNotFoundError(2, "No such file or directory", path)
        if isinstance(init, bytes):
            init = init.decode()
        super().__init__(init, newline=None if False else "")
        if "a" in mode:
            self.seek(0, 2)
        if w:
            files()[path] = ""

    @property
    def name(self):
        return self._path

    @property
    def mode(self):
        return self._mode

    def readline(self, *a):
        s = super().readline(*a)
        if s == "" and (not a or a[0] != 0):
            self._eof += 1
            if self._eof > 2000:
                raise HangDetected("more than 2000 reads at end of file")
        return s

    def readlines(self, *a):
        out = []
        while True:
            s = super().readline()
            if not s:
                return out
            out.append(s)

    def __next__(self):
        self._iterating = True
        s = super().readline()
        if s == "":
            self._iterating = False
            raise StopIteration
        return s

    def __iter__(self):
        return self

    def tell(self):
        if self._iterating:
            raise OSError("telling position disabled by next() call")
        return super().tell()

    def seek(self, *a):
        self._iterating = False
        return super().seek(*a)

    def write(self, s):
        if "r" in self._mode and "+" not in self._mode:
            raise io.UnsupportedOperation("not writable")
        from .strs import has_ghost, resolve

        return super().write(resolve(s) if has_ghost(s) else s)

    def flush(self):
        if any(m in self._mode for m in "wax+") and not self.closed:
            files()[self._path] = self.getvalue()

    def close(self):
        if not self.closed:
            self.flush()
        super().close()

    def __exit__(self, *a):
        self.close()


class VBytes(io.BytesIO):
    def __init__(self, path, mode):
        self._path, self._mode = path, mode
        w = "w" in mode
        if not w and path not in files():
            raise FileNotFoundError(2, "No such file or directory", path)
        init = b"" if w else files()[path]
        if isinstance(init, str):
            init = init.encode("utf-8", "surrogatepass")
        super().__init__(init)

    @property
    def name(self):
        return self._path

    @property
    def mode(self):
        return self._mode

    def close(self):
        if not self.closed and "w" in self._mode:
            files()[self._path] = self.getvalue()
        super().close()

    def __exit__(self, *a):
        self.close()


def vopen(file, mode="r", *a, **k):
    if is_vpath(file):
        if "b" in mode:
            return VBytes(file, mode)
        return VText(file, mode)
    return builtins.open(file, mode, *a, **k)


def isfile(p):
    return p in files() if is_vpath(p) else os.path.isfile(p)


def remove(p):
    if is_vpath(p):
        files().pop(p)
    else:
        os.remove(p)


def vglob(pat, *a, **k):
    import fnmatch
    import glob as _g

    if is_vpath(pat):
        return [p for p in files() if fnmatch.fnmatch(p, pat)]
    return _g.glob(pat, *a, **k)
