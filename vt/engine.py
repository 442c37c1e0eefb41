"""Symbolic execution engine: path exploration with decision replay, z3 decides.

A *case* is a Python callable run many times; each run follows one path.  Symbolic
values (vt.sym) call Engine.fork(cond) whenever Python needs a concrete truth
value.  fork() asks z3 which outcomes are feasible under the path condition; if
both are, one is taken and the other queued.  A run is replayed from the start
with the recorded decisions, so the code under test needs no snapshotting.
"""
import time
import z3


class Control(BaseException):
    """Steering exceptions; BaseException so that code under test cannot catch."""


class PathDone(Control):
    """Current path ended by an assumption that cannot hold."""


class Violation(Control):
    def __init__(self, msg, inputs, info=None):
        super().__init__(msg)
        self.msg = msg
        self.inputs = inputs
        self.info = info


class Unsupported(Control):
    """Engine cannot interpret an operation."""


class Budget(Control):
    """Time or path budget used up."""


class Unknown(Control):
    """Solver answered unknown."""


class Hang(Control):
    """A path, or a replay of one, does not come to an end."""


CURRENT = None  # engine in force (None -> plain concrete execution)


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.forks = 0
        self.forced = 0
        self.obligations = 0
        self.discharged = 0
        self.concretized = 0
        self.solver_s = 0.0
        self.reached = {}
        self.samples = []
        self.incomplete = []

    def merge(self, o):
        for k in ("paths", "queries", "sat", "unsat", "forks", "forced",
                  "obligations", "discharged", "concretized", "solver_s"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:6]
        self.incomplete += o.incomplete


class Group:
    """Connected component of the path condition: variables that share constraints."""
    __slots__ = ("vs", "conds", "model")

    def __init__(self, vs, conds, model):
        self.vs = vs
        self.conds = conds
        self.model = model      # var id -> z3 value satisfying conds, or None


_ctx = z3.main_ctx().ref()
_VARS = {}


_id, _kind, _nargs, _arg, _toapp = [getattr(z3, "Z3_" + n).__defaults__[0].f for n in      # the plain C functions
                                    ("get_ast_id", "get_ast_kind", "get_app_num_args", "get_app_arg", "to_app")]


def varsof(e):
    """Uninterpreted constants of e: {id: expr} (cached; e is kept alive)."""
    k = e.get_id()
    h = _VARS.get(k)
    if h is not None:
        return h[1]
    out = {}
    seen = set()
    stack = [e.as_ast()]
    while stack:
        x = stack.pop()
        i = _id(_ctx, x)
        if i in seen:
            continue
        seen.add(i)
        kind = _kind(_ctx, x)
        if kind == z3.Z3_NUMERAL_AST:
            continue
        if kind != z3.Z3_APP_AST:
            raise Unsupported("quantifier")
        h = _VARS.get(i)
        if h is not None:
            out.update(h[1])
            continue
        ap = _toapp(_ctx, x)
        n = _nargs(_ctx, ap)
        if n == 0:
            w = z3.z3._to_expr_ref(x, e.ctx)
            if w.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = w
        else:
            for j in range(n):
                stack.append(_arg(_ctx, ap, j))
    _VARS[k] = (e, out)
    return out


def zero_of(v):
    return z3.BoolVal(False) if z3.is_bool(v) else z3.BitVecVal(0, v.size())


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += conjuncts(x)
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children():
            out += conjuncts(z3.simplify(z3.Not(x)))
        return out
    return [c]


class Engine:
    symbolic = True

    def __init__(self, deadline=None, max_paths=200000, seed=1, query_ms=60000):
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", seed)
        self.cache = {}
        self.work = [[]]
        self.known_ids = {}
        self.known_hit = {}
        self._reset([])

    # ---------------------------------------------------------------- path
    def _reset(self, prefix):
        self.prefix = prefix
        self.trail = []           # decisions taken this run
        self.inputs = {}          # name -> (kind, payload) in creation order
        self.fresh_n = 0
        self.groups = {}          # var id -> Group
        self.vexpr = {}           # var id -> expr
        self.memo = {}            # per-path scratch for ideal functions
        self.dup = {}
        self.labels = set()

    def explore(self, fn):
        """Runs fn() over all feasible paths. Raises Violation on the first one."""
        global CURRENT
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget used up with %d prefixes left" % len(self.work))
            if self.stats.paths >= self.max_paths:
                raise Budget("path budget used up")
            prefix = self.work.pop()
            self._reset(prefix)
            prev, CURRENT = CURRENT, self
            try:
                fn(self)
            except PathDone:
                pass
            except Unsupported as ex:
                self.stats.incomplete.append("unsupported: %s" % (ex,))
            finally:
                CURRENT = prev
            self.stats.paths += 1

    # ------------------------------------------------------------- solver
    def _related(self, vs):
        gs = []
        for i in vs:
            g = self.groups.get(i)
            if g is not None and g not in gs:
                gs.append(g)
        return gs

    def _solve(self, conds):
        """(sat, model dict) of a conjunction, cached by the set of conditions."""
        key = frozenset(c.get_id() for c in conds)
        h = self.cache.get(key)
        if h is not None:
            return h[1], h[2]
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget used up")
        t = time.time()
        self.solver.reset()
        self.solver.add(*conds)
        r = self.solver.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            m = self.solver.model()
            md = {}
            for c in conds:
                for i, v in varsof(c).items():
                    if i not in md:
                        md[i] = m.eval(v, model_completion=True)
            res = (conds, True, md)
        elif r == z3.unsat:
            self.stats.unsat += 1
            res = (conds, False, None)
        else:
            raise Unknown(self.solver.reason_unknown())
        self.cache[key] = res
        return res[1], res[2]

    def _check(self, cond):
        """Is cond satisfiable together with the path condition?  Returns
        (False, None) or (True, model of the related variables)."""
        if z3.is_or(cond) and cond.num_args() > 1 and False:
            pass
        vs = varsof(cond)
        conds = [cond]
        for g in self._related(vs):
            conds += g.conds
        return self._solve(conds)

    def _gmodel(self, g):
        if g.model is None:
            ok, m = self._solve(list(g.conds))
            if not ok:
                raise PathDone()       # only after an unchecked prefix
            g.model = m
        return g.model

    def _eval(self, e):
        """Value of term e in the current satisfying assignment of the path."""
        vs = varsof(e)
        if not vs:
            return z3.simplify(e)
        subs = []
        for i, v in vs.items():
            g = self.groups.get(i)
            val = self._gmodel(g).get(i) if g is not None else None
            subs.append((v, val if val is not None else zero_of(v)))
        return z3.simplify(z3.substitute(e, *subs))

    def _holds(self, cond):
        return z3.is_true(self._eval(cond))

    def add(self, cond, model=None):
        """Adds a constraint known to be consistent; model (optional) satisfies it
        and everything related to it."""
        for c in conjuncts(cond):
            vs = varsof(c)
            if not vs:
                continue
            gs = self._related(vs)
            if len(gs) == 1:
                g = gs[0]
                if any(x.eq(c) for x in g.conds):
                    continue
            elif gs:
                g = gs[0]
                models = [x.model for x in gs]
                for o in gs[1:]:
                    g.vs |= o.vs
                    g.conds = g.conds + o.conds
                if all(m is not None for m in models):
                    mm = {}
                    for m in models:
                        mm.update(m)
                    g.model = mm
                else:
                    g.model = None
            else:
                g = Group(set(), [], {})
            g.vs |= set(vs)
            for i in g.vs:
                self.groups[i] = g
            self.vexpr.update(vs)
            old = g.model
            g.conds = g.conds + [c]
            if model is not None and all(i in model for i in g.vs):
                g.model = {i: model[i] for i in g.vs}
            elif old is not None:
                subs = [(v, old[i] if i in old else zero_of(v)) for i, v in vs.items()]
                if z3.is_true(z3.simplify(z3.substitute(c, *subs))):
                    g.model = dict(old)
                    for (v, val), i in zip(subs, vs):
                        g.model[i] = val
                else:
                    g.model = None
            else:
                g.model = None

    def fork(self, cond):
        """Returns a Python bool for z3 Bool cond, splitting the path if needed."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d == "T" or d == "F":      # implied by the path condition
                self.trail.append(d)
                return d == "T"
            if d is not True and d is not False:
                raise RuntimeError("non-deterministic re-execution")
            self.trail.append(d)
            self.add(cond if d else z3.simplify(z3.Not(cond)))
            return d
        ncond = z3.simplify(z3.Not(cond))
        hint = self._holds(cond)
        tm = fm = None
        if hint:
            t_ok = True
            f_ok, fm = self._check(ncond)
        else:
            f_ok = True
            t_ok, tm = self._check(cond)
        if t_ok and f_ok:
            self.stats.forks += 1
            self.work.append(self.trail + [False])
            self.trail.append(True)
            self.add(cond, tm)
            return True
        self.stats.forced += 1
        self.trail.append("T" if t_ok else "F")
        return t_ok

    def pick(self, n, label="pick"):
        """Splits the path n ways; returns 0..n-1 (an unconstrained choice)."""
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.work.append(self.trail + [k])
            self.stats.forks += n - 1
            d = 0
        self.trail.append(d)
        return d

    def value(self, expr, limit=5000):
        """Concretises a bit-vector term by splitting on its feasible values."""
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        for _ in range(limit):
            i = len(self.trail)
            if i < len(self.prefix):      # ("v", val, taken)
                _, v, taken = self.prefix[i]
                self.trail.append(self.prefix[i])
                c = z3.simplify(expr == v)
                self.add(c if taken else z3.simplify(z3.Not(c)))
                if taken:
                    return v
                continue
            v = self._eval(expr).as_long()
            c = z3.simplify(expr == v)
            ok, m = self._check(z3.simplify(z3.Not(c)))
            if ok:
                self.stats.forks += 1
                self.work.append(self.trail + [("v", v, False)])
            self.trail.append(("v", v, True))
            self.add(c)
            return v
        raise Unsupported("too many values to concretise")

    def sample(self, expr):
        """One value of expr under the path condition, WITHOUT covering the others.
        Marks the run as incomplete."""
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            v = self._eval(expr).as_long()
            self.stats.concretized += 1
        self.trail.append(("s", v))
        self.add(z3.simplify(expr == v))
        return v

    # -------------------------------------------------------- harness api
    def feasible(self):
        try:
            for g in set(self.groups.values()):
                self._gmodel(g)
            return True
        except PathDone:
            return False

    def assume(self, cond):
        c = tobool(cond)
        if c is True:
            return
        if c is False:
            raise PathDone()
        if len(self.trail) >= len(self.prefix) and not self._holds(c):
            ok, m = self._check(c)
            if not ok:
                raise PathDone()
            self.add(c, m)
            return
        self.add(c)

    def check(self, cond, msg, info=None):
        """Obligation: cond holds for every value on this path."""
        self.stats.obligations += 1
        c = tobool(cond)
        if c is True:
            self.stats.discharged += 1
            return
        # while replaying a prefix, this obligation was already discharged by the
        # run that forked: there the path condition was weaker
        if len(self.trail) < len(self.prefix):
            self.stats.discharged += 1
            if c is not False:
                self.add(c)
            return
        if c is False:
            if self.feasible():
                raise Violation(msg, self.concrete_inputs(), info() if callable(info) else info)
            raise PathDone()
        for x in conjuncts(c):
            ok, m = self._check(z3.simplify(z3.Not(x)))
            if ok:
                self.add(z3.simplify(z3.Not(x)), m)
                if not self.feasible():
                    raise PathDone()
                raise Violation(msg, self.concrete_inputs(), info() if callable(info) else info)
        self.stats.discharged += 1

    def known(self, kid, cond, msg=""):
        """cond describes inputs that hit the listed known finding kid.  If the
        finding is listed they are reported as such and left out; if it is not
        listed nothing is left out."""
        if kid not in self.known_ids:
            return
        c = tobool(cond)
        if c is False:
            return
        if c is True or (len(self.trail) >= len(self.prefix) and self._check(c)[0]):
            self.known_hit[kid] = self.known_ids[kid]
        if c is True:
            raise PathDone()
        self.assume(z3.Not(c))

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1
        self.labels.add(label)
        if len(self.stats.samples) < 3 and self.stats.reached[label] == 1 and self.feasible():
            self.stats.samples.append({"label": label, "inputs": self.concrete_inputs()})

    # symbolic inputs ------------------------------------------------------
    def _name(self, name):
        n = self.dup.get(name, 0)
        self.dup[name] = n + 1
        return name if n == 0 else "%s~%d" % (name, n)

    def concrete_inputs(self):
        out = {}
        for name, (kind, payload) in self.inputs.items():
            if kind == "pick":
                out[name] = payload
            elif kind == "bool":
                out[name] = self._holds(payload)
            elif kind == "int":
                out[name] = self._eval(payload).as_signed_long()
            elif kind in ("bytes", "str"):
                out[name] = [e if isinstance(e, int) else self._eval(e).as_long() for e in payload]
        return out

    def choose(self, name, options):
        """Path-splitting choice among a finite list of alternatives."""
        name = self._name(name)
        options = list(options)
        k = 0 if len(options) == 1 else self.pick(len(options), name)
        self.inputs[name] = ("pick", k)
        return options[k]

    def boolean(self, name):
        from .sym import SymBool
        name = self._name(name)
        b = z3.Bool(name)
        self.inputs[name] = ("bool", b)
        return SymBool(b)

    def integer(self, name, lo, hi):
        from .sym import SymInt, width_for
        name = self._name(name)
        if lo == hi:
            self.inputs[name] = ("int", z3.BitVecVal(lo, width_for(lo, hi)))
            return lo
        w = width_for(lo, hi)
        v = z3.BitVec(name, w)
        self.inputs[name] = ("int", v)
        cs = []
        if lo != -(1 << (w - 1)):
            cs.append(v >= lo)
        if hi != (1 << (w - 1)) - 1:
            cs.append(v <= hi)
        if cs:
            self.add(z3.And(*cs) if len(cs) > 1 else cs[0])
        return SymInt(v, lo, hi)

    def bytes_(self, name, n, ascii=False):
        from .sym import SymBytes
        name = self._name(name)
        es = [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]
        self.inputs[name] = ("bytes", es)
        if ascii:
            for e in es:
                self.add(z3.ULT(e, 128))
        return SymBytes(es)

    def str_(self, name, n, alphabet=None, maxcp=127):
        """Symbolic text of n code points."""
        from .sym import SymStr, CW
        name = self._name(name)
        es = [z3.BitVec("%s[%d]" % (name, i), CW) for i in range(n)]
        self.inputs[name] = ("str", es)
        for e in es:
            if alphabet is not None:
                self.add(z3.simplify(in_alphabet(e, alphabet)))
            elif maxcp < (1 << CW) - 1:
                self.add(z3.ULE(e, maxcp))
        return SymStr(es)

    def fresh_bytes(self, tag, n):
        """Fresh symbolic bytes that are not an input (ideal function outputs)."""
        from .sym import SymBytes
        self.fresh_n += 1
        return SymBytes([z3.BitVec("!%s%d[%d]" % (tag, self.fresh_n, i), 8) for i in range(n)])


def in_alphabet(e, alphabet):
    """z3 condition: code point e is in alphabet (string), as ranges."""
    cps = sorted(set(ord(c) if isinstance(c, str) else c for c in alphabet))
    rs = []
    for c in cps:
        if rs and rs[-1][1] == c - 1:
            rs[-1][1] = c
        else:
            rs.append([c, c])
    cs = []
    for a, b in rs:
        if a == b:
            cs.append(e == a)
        else:
            cs.append(z3.And(z3.UGE(e, a), z3.ULE(e, b)))
    return z3.Or(*cs) if cs else z3.BoolVal(False)


def tobool(c):
    """bool | SymBool | z3 Bool -> True | False | z3 Bool (simplified)."""
    from .sym import SymBool, SymInt, SymSeq
    if isinstance(c, SymBool):
        c = c.e
    elif isinstance(c, SymInt):
        c = c.e != 0
    elif isinstance(c, SymSeq):
        return len(c) > 0
    elif not isinstance(c, z3.ExprRef):
        return bool(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


class Replay:
    """Concrete stand-in for Engine: feeds recorded inputs to a case."""
    symbolic = False

    def __init__(self, inputs):
        self.given = inputs
        self.dup = {}
        self.labels = set()
        self.failed = None
        self.memo = {}
        self.reached = {}
        self.fresh_n = 0

    _name = Engine._name

    def choose(self, name, options):
        name = self._name(name)
        return list(options)[self.given.get(name, 0)]

    def boolean(self, name):
        return bool(self.given.get(self._name(name), False))

    def integer(self, name, lo, hi):
        return int(self.given.get(self._name(name), lo))

    def bytes_(self, name, n, ascii=False):
        return bytes(self.given.get(self._name(name), [0] * n))

    def str_(self, name, n, alphabet=None, maxcp=127):
        name = self._name(name)
        if name in self.given:
            return "".join(map(chr, self.given[name]))
        return (sorted(alphabet)[0] if alphabet else "\0") * n

    def assume(self, cond):
        if not cond:
            raise PathDone()

    known_ids = {}

    def known(self, kid, cond, msg=""):
        if kid in self.known_ids and cond:
            raise PathDone()

    def check(self, cond, msg, info=None):
        if not cond:
            info = info() if callable(info) else info
            raise Violation(msg, self.given, info)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def feasible(self):
        return True
