class Mict(dict):
    """Stand-in multidict: keeps insertion order, last value wins on []."""
    def __init__(self, *pa, **kwa):
        super().__init__()
        self._all = []
        for a in pa:
            it = a.items() if hasattr(a, "items") else a
            for k, v in it:
                self.add(k, v)
        for k, v in kwa.items():
            self.add(k, v)

    def add(self, k, v):
        self._all.append((k, v))
        dict.__setitem__(self, k, v)

    def __setitem__(self, k, v):
        self._all = [(a, b) for a, b in self._all if a != k] + [(k, v)]
        dict.__setitem__(self, k, v)

    def getall(self, k):
        return [b for a, b in self._all if a == k]


class Hict(Mict):
    def _k(self, k): return k.lower() if isinstance(k, str) else k
    def add(self, k, v): super().add(self._k(k), v)
    def __setitem__(self, k, v): super().__setitem__(self._k(k), v)
    def __getitem__(self, k): return dict.__getitem__(self, self._k(k))
    def __contains__(self, k): return dict.__contains__(self, self._k(k))
    def get(self, k, d=None): return dict.get(self, self._k(k), d)
