"""Loads keri from /repo/src (never elsewhere), instrumented or plain, with the
stand-ins of /verif/stubs for third-party packages that are not installed."""
import __future__
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
STUBS = os.path.join(VERIF, "stubs")

LOADED = {}     # module name -> sha256 of the source used


class Instr(ast.NodeTransformer):
    """Routes calls, subscripts, membership tests and formatting through vt.rt."""

    def rt(self, name, args, keywords=()):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="_vt_rt_", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=args, keywords=list(keywords))

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "dir", "eval", "exec"):
            if f.id == "super" or not node.args:
                self.generic_visit(node)
                return node
        # skip logging entirely: formatting is not the subject
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "logger":
            if f.attr == "isEnabledFor":
                return ast.copy_location(ast.Constant(False), node)
            return ast.copy_location(ast.Constant(None), node)
        self.generic_visit(node)
        return ast.copy_location(self.rt("call", [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(x, (ast.Slice, ast.Starred)) for x in node.slice.elts):
                return node
            return ast.copy_location(self.rt("getitem", [node.value, node.slice]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, (ast.Slice, ast.Constant, ast.Tuple)):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.rt("setitem", [t.value, t.slice, node.value])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = "contains" if isinstance(node.ops[0], ast.In) else "notin"
            return ast.copy_location(self.rt(n, [node.left, node.comparators[0]]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.rt("mod", [node.left, node.right]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(self.rt("fstr", parts), node)

    # annotations and decorators stay as they are
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            c.body = [self.visit(s) for s in c.body]
            if c.guard is not None:
                c.guard = self.visit(c.guard)
        return node


def resolve_annotations(module):
    """Dataclass field types are classes, as with evaluated annotations (the loader defers them)."""
    import dataclasses
    import typing
    for c in list(vars(module).values()):
        if isinstance(c, type) and c.__module__ == module.__name__ and dataclasses.is_dataclass(c):
            try:
                hints = typing.get_type_hints(c)
            except Exception:
                continue
            for f in dataclasses.fields(c):
                if isinstance(f.type, str) and f.name in hints:
                    f.type = hints[f.name]
            for k in c.__dict__.get("__annotations__", {}):
                if k in hints:
                    c.__annotations__[k] = hints[k]


class KeriLoader(importlib.machinery.SourceFileLoader):
    instrument = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        if fullname.startswith("keri") or path.startswith(REPO):
            LOADED[fullname] = hashlib.sha256(src).hexdigest()[:16]
        tree = ast.parse(src, path)
        if self.instrument:
            tree = Instr().visit(tree)
            ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True,
                       flags=__future__.annotations.compiler_flag)

    def exec_module(self, module):
        if self.instrument:
            from . import rt
            module.__dict__["_vt_rt_"] = rt
        super().exec_module(module)
        resolve_annotations(module)


class Finder(importlib.abc.MetaPathFinder):
    """keri.* from SRC with stub replacements for modules named in `fake`."""

    def __init__(self, instrument, roots, plain):
        self.instrument = instrument
        self.roots = roots
        self.plain = plain

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        rel = name.split(".")
        base = os.path.join(self.roots[top], *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn, pk = os.path.join(base, "__init__.py"), [base]
        elif os.path.exists(base + ".py"):
            fn, pk = base + ".py", None
        else:
            return None
        ld = KeriLoader(name, fn)
        ld.instrument = self.instrument and name not in self.plain
        return importlib.util.spec_from_file_location(name, fn, loader=ld, submodule_search_locations=pk)


INSTALLED = None


def install(instrument=True, plain=()):
    """Call once per process before importing keri."""
    global INSTALLED
    sys.dont_write_bytecode = True
    if STUBS not in sys.path:
        sys.path.insert(0, STUBS)
    f = Finder(instrument, {"keri": SRC, "checks": VERIF, "msgpack": STUBS, "cbor2": STUBS, "symjson": STUBS}, set(plain))
    sys.meta_path.insert(0, f)
    INSTALLED = instrument
    return f


def load_file(name, path, instrument=True):
    """Loads one stand-alone file of the repository (tools/*.py, db/webdbing.py)."""
    ld = KeriLoader(name, path)
    ld.instrument = instrument
    spec = importlib.util.spec_from_file_location(name, path, loader=ld)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    ld.exec_module(m)
    return m
