"""Loads keri from the current directory (/repo) with stand-ins for packages that are
not installed.  Plain import, nothing instrumented."""
import __future__
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "stubs"))


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        return compile(src, path, "exec", dont_inherit=True, flags=__future__.annotations.compiler_flag)


    def exec_module(self, module):
        super().exec_module(module)
        import dataclasses
        import typing
        for c in list(vars(module).values()):
            if isinstance(c, type) and c.__module__ == module.__name__ and dataclasses.is_dataclass(c):
                try:
                    hints = typing.get_type_hints(c)
                except Exception:
                    continue
                for f in dataclasses.fields(c):
                    if isinstance(f.type, str) and f.name in hints:
                        f.type = hints[f.name]


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        rel = name.split(".")
        if rel[0] != "keri":
            return None
        base = os.path.join(REPO, "src", *rel)
        if os.path.exists(os.path.join(base, "__init__.py")):
            fn, pk = os.path.join(base, "__init__.py"), [base]
        elif os.path.exists(base + ".py"):
            fn, pk = base + ".py", None
        else:
            return None
        return importlib.util.spec_from_file_location(name, fn, loader=Loader(name, fn), submodule_search_locations=pk)


sys.meta_path.insert(0, Finder())


def load(rel, name):
    fn = os.path.join(REPO, rel)
    ld = Loader(name, fn)
    spec = importlib.util.spec_from_file_location(name, fn, loader=ld)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    ld.exec_module(m)
    return m


class Done(Exception):
    pass


class Given:
    """feeds one recorded history to a scenario"""
    symbolic = False
    known_ids = {}

    def __init__(self, given):
        self.given, self.dup, self.memo = given, {}, {}

    def _name(self, name):
        n = self.dup.get(name, 0)
        self.dup[name] = n + 1
        return name if not n else "%s~%d" % (name, n)

    def choose(self, name, options):
        return list(options)[self.given.get(self._name(name), 0)]

    def boolean(self, name):
        return bool(self.given.get(self._name(name), False))

    def integer(self, name, lo, hi):
        return int(self.given.get(self._name(name), lo))

    def bytes_(self, name, n, ascii=False):
        return bytes(self.given.get(self._name(name), [0] * n))

    def str_(self, name, n, alphabet=None, maxcp=127):
        name = self._name(name)
        if name in self.given:
            return "".join(map(chr, self.given[name]))
        return (sorted(alphabet)[0] if alphabet else "\0") * n

    def assume(self, cond):
        if not cond:
            raise Done()

    def known(self, kid, cond, msg=""):
        if cond:
            raise Done()

    def check(self, cond, msg, info=None):
        if not cond:
            raise SystemExit(msg)

    def reach(self, label):
        pass

    def feasible(self):
        return True


def play(pid, case, given):
    """runs scenario case of scenarios/pid.py with the given choices; exits nonzero when it goes wrong"""
    sys.setrecursionlimit(20000)
    sys.path.insert(0, HERE)
    m = importlib.import_module("checks." + pid)
    for tier in ("quick", "thorough"):
        for c in m.cases(tier):
            if c["name"] == case:
                try:
                    c["fn"](Given(given), **c.get("params", {}))
                except Done:
                    pass
                raise SystemExit(0)
    raise SystemExit("no such scenario")
