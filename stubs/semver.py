"""Stand-in: semantic version ordering (release and pre-release)."""
import re
_R = re.compile(r"^(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?(?:\+([0-9A-Za-z.-]+))?$")


class VersionInfo:
    def __init__(self, major, minor=0, patch=0, prerelease=None, build=None):
        self.major, self.minor, self.patch = int(major), int(minor), int(patch)
        self.prerelease, self.build = prerelease, build

    @classmethod
    def parse(cls, v):
        m = _R.match(v)
        if not m:
            raise ValueError("%s is not valid SemVer string" % v)
        return cls(*m.groups())

    def _key(self):
        pre = self.prerelease
        if pre is None:
            p = (1,)
        else:
            p = (0, tuple((0, int(x), "") if x.isdigit() else (1, 0, x) for x in pre.split(".")))
        return (self.major, self.minor, self.patch, p)

    def compare(self, o):
        o = VersionInfo.parse(o) if isinstance(o, str) else o
        return (self._key() > o._key()) - (self._key() < o._key())

    def __lt__(self, o): return self.compare(o) < 0
    def __le__(self, o): return self.compare(o) <= 0
    def __gt__(self, o): return self.compare(o) > 0
    def __ge__(self, o): return self.compare(o) >= 0
    def __eq__(self, o): return self.compare(o) == 0
    def __str__(self):
        return "%d.%d.%d" % (self.major, self.minor, self.patch) + ("-" + self.prerelease if self.prerelease else "") + ("+" + self.build if self.build else "")


Version = VersionInfo


def compare(a, b): return VersionInfo.parse(a).compare(b)
def parse(v): return vars(VersionInfo.parse(v))
