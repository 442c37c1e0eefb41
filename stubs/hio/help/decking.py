from collections import deque


class Deck(deque):
    """hio Deck: deque with push/pull; push ignores None, pull of empty returns None."""
    def push(self, elem):
        if elem is not None:
            self.append(elem)

    def pull(self, emptive=False):
        try:
            return self.popleft()
        except IndexError:
            if not emptive:
                raise
            return None

    def __repr__(self):
        return "Deck(%r)" % (list(self),)
