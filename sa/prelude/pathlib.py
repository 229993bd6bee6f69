import _sa


class PurePath:
    def __init__(self, *parts):
        self._parts = tuple(p._p if isinstance(p, PurePath) else p for p in parts)

    @property
    def _p(self):
        if len(self._parts) == 1:
            return self._parts[0]
        return _sa.term("str", "path.join", *self._parts)

    @property
    def name(self):
        return _sa.path_fn("name", self._p)

    @property
    def stem(self):
        return _sa.path_fn("stem", self._p)

    @property
    def suffix(self):
        return _sa.path_fn("suffix", self._p)

    @property
    def parent(self):
        return type(self)(_sa.path_fn("parent", self._p))

    @property
    def parts(self):
        return tuple(_sa.path_fn("parts", self._p).split("/"))

    def __str__(self):
        return self._p

    def __fspath__(self):
        return self._p

    def as_posix(self):
        return self._p

    def __truediv__(self, other):
        return type(self)(*self._parts, other)

    def __eq__(self, other):
        return isinstance(other, PurePath) and self._p == other._p

    def __hash__(self):
        return hash(self._p)

    def __lt__(self, other):
        return self._p < other._p

    def read_bytes(self):
        with open(self, "rb") as fp:
            return fp.read()

    def read_text(self, encoding=None, errors=None):
        with open(self, "r", encoding=encoding, errors=errors) as fp:
            return fp.read()

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return open(self, mode, buffering, encoding, errors, newline)


class Path(PurePath):
    pass


class PurePosixPath(PurePath):
    pass


class PureWindowsPath(PurePath):
    pass


class PosixPath(Path):
    pass


class WindowsPath(Path):
    pass
