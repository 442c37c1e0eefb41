"""Stand-in for hio doers: enough structure to import and to drive generators."""
from . import tyming
from .tyming import Tymee


def doify(f, *, name=None, tock=0.0, **opts):
    import types
    if isinstance(f, types.MethodType):
        g = f
    else:
        g = f
    try:
        g.__func__.tock = tock
    except AttributeError:
        pass
    return g


def doize(**kw):
    return lambda f: f


class Doer(Tymee):
    def __init__(self, *, tymth=None, tock=0.0, opts=None, **kwa):
        super().__init__(tymth=tymth)
        self.tock = tock
        self.done = None
        self.opts = opts or {}

    def __call__(self, **kwa): return self.do(**kwa)
    def do(self, tymth=None, *, tock=0.0, **opts):
        yield
    def enter(self, *a, **k): pass
    def recur(self, *a, **k): return False
    def exit(self, *a, **k): pass
    def close(self): pass
    def abort(self, *a): pass
    def clean(self): pass


class DoDoer(Doer):
    def __init__(self, doers=None, always=False, **kwa):
        super().__init__(**kwa)
        self.doers = list(doers) if doers is not None else []
        self.deeds = []
        self.always = always

    def extend(self, doers): self.doers.extend(doers)
    def remove(self, doers):
        for d in doers:
            if d in self.doers:
                self.doers.remove(d)


class Doist(tyming.Tymist):
    def __init__(self, *a, doers=None, **k):
        super().__init__(); self.doers = doers or []
    def do(self, *a, **k): pass
