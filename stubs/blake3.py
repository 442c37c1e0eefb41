"""Stand-in digest (deterministic, collision-free on what a check feeds it)."""
import ideal


class blake3:
    def __init__(self, data=b"", **k): self._d = data
    def update(self, d): self._d = self._d + d; return self
    def digest(self, length=32): return ideal.digest("blake3", self._d, length)
    def hexdigest(self, length=32): return self.digest(length).hex()
