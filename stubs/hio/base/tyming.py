class Tymist:
    def __init__(self, tyme=0.0, tock=0.0, **k): self.tyme, self.tock = tyme, tock
class Tymee:
    def __init__(self, tymth=None, **k): self._tymth = tymth
    @property
    def tyme(self): return self._tymth() if self._tymth else None
    @property
    def tymth(self): return self._tymth
    def wind(self, tymth): self._tymth = tymth
class Tymer(Tymee):
    def __init__(self, tymth=None, duration=0.0, start=None, **k):
        super().__init__(tymth); self.duration = duration; self._start = start or 0.0
    @property
    def expired(self): return False
    def start(self, *a, **k): return 0.0
