"""Stand-in: loggers that do nothing (logging is not the subject)."""
import logging


class NoLog:
    level = 60
    def isEnabledFor(self, level): return False
    def _n(self, *a, **k): return None
    trace = debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = _n


class Ogler:
    level = 60
    def __init__(self, *a, **k): self.prefix = "keri"
    def getLogger(self, *a, **k): return NoLog()
    def resetLevel(self, *a, **k): pass
    def reopen(self, *a, **k): pass


def initOgler(*a, **k):
    return Ogler()
