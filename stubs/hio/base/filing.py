"""Stand-in for hio Filer: names and an `opened` flag, no file system at all."""
import os
from contextlib import contextmanager

FILES = {}


@contextmanager
def openFiler(cls=None, name="test", temp=True, reopen=True, clear=False, **kwa):
    cls = cls or Filer
    f = cls(name=name, temp=temp, reopen=reopen, clear=clear, **kwa)
    try:
        yield f
    finally:
        f.close(clear=f.temp or clear)


class Filer:
    HeadDirPath = "/nonexistent"
    TailDirPath = "hio"
    def __init__(self, *, name="main", base="", temp=False, headDirPath=None, perm=None,
                 reopen=False, clear=False, reuse=False, clean=False, filed=False,
                 extensioned=False, mode="r+", fext="text", **kwa):
        self.name, self.base, self.temp = name, base, bool(temp)
        self.headDirPath = headDirPath
        self.perm = perm
        self.path = None
        self.file = None
        self.filed = filed
        self.extensioned = extensioned
        self.mode, self.fext = mode, fext
        self.opened = False
        if reopen:
            self.reopen(clear=clear, reuse=reuse, clean=clean, **kwa)

    def exists(self, name, base="", **kwa):
        return False

    def reopen(self, temp=None, headDirPath=None, clear=False, reuse=False, clean=False, **kwa):
        self.path = "mem:%s/%s/%s/%d" % (type(self).__name__, self.base, self.name, id(self))
        self.opened = True
        return self.opened

    def close(self, clear=False):
        self.opened = False
        return True
