"""Stand-in for ordered-set: list-backed so that members compare with == only
when they are symbolic; otherwise dict-backed."""
import itertools
from collections.abc import MutableSet, Sequence


class OrderedSet(MutableSet, Sequence):
    def __init__(self, it=None):
        self._d = {}
        if it is not None:
            for x in it:
                self._d[x] = None

    def __len__(self): return len(self._d)
    def __contains__(self, x): return x in self._d
    def __iter__(self): return iter(list(self._d))
    def __reversed__(self): return reversed(list(self._d))
    def __getitem__(self, i):
        if isinstance(i, slice):
            return OrderedSet(list(self._d)[i])
        return list(self._d)[i]
    def copy(self): return OrderedSet(self)
    def add(self, x):
        self._d.setdefault(x, None)
        return list(self._d).index(x)
    append = add
    def update(self, it):
        for x in it:
            self.add(x)
    def index(self, x, *a):
        try:
            return list(self._d).index(x)
        except ValueError:
            raise KeyError(x)
    def pop(self, i=-1):
        if not self._d:
            raise KeyError("Set is empty")
        k = list(self._d)[i]
        del self._d[k]
        return k
    def discard(self, x): self._d.pop(x, None)
    def remove(self, x): del self._d[x]
    def clear(self): self._d.clear()
    def __repr__(self): return "OrderedSet(%r)" % (list(self._d),)
    def __eq__(self, o):
        if isinstance(o, Sequence):
            return list(self) == list(o)
        try:
            return set(self) == set(o)
        except TypeError:
            return False
    def union(self, *s): return OrderedSet(itertools.chain(self, *s))
    def __and__(self, o): return self.intersection(o)
    def intersection(self, *s):
        c = set.intersection(*map(set, s)) if s else None
        return OrderedSet(x for x in self if c is None or x in c)
    def difference(self, *s):
        o = set(itertools.chain(*s))
        return OrderedSet(x for x in self if x not in o)
    def __sub__(self, o): return self.difference(o)
    def __or__(self, o): return self.union(o)
    def __xor__(self, o): return self.difference(o).union(OrderedSet(o).difference(self))
    def issubset(self, o): return all(x in o for x in self)
    def issuperset(self, o): return all(x in self for x in o)
    def symmetric_difference(self, o): return self ^ o
    def difference_update(self, *s):
        for x in itertools.chain(*s):
            self.discard(x)
    def intersection_update(self, o):
        o = set(o)
        for x in list(self):
            if x not in o:
                self.discard(x)
