import _sa


class IOBase:
    def read(self, *args):
        return _sa.emit_value("read", self.label__, self.ty__)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class TextIOBase(IOBase):
    pass


class StringIO(TextIOBase):
    def __init__(self, text=""):
        self.text = text

    def read(self):
        return self.text

    def getvalue(self):
        return self.text

    def write(self, s):
        self.text = self.text + s


class BytesIO(IOBase):
    def __init__(self, data=b""):
        self.data = data

    def read(self):
        return self.data


class File(IOBase):
    def __init__(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        self.file = file
        self.mode = mode
        self.encoding = encoding
        self.errors = errors

    def read(self, *args):
        raw = _sa.term("bytes", "file-content", _sa.path_of(self.file))
        if "b" in self.mode:
            return raw
        return raw.decode(self.encoding or "locale", self.errors or "strict")

    def readlines(self):
        return self.read().splitlines(True)
