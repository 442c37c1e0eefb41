"""Real Verifier, Schemer, Tevery and Reger: credentials of two issuers with claimed issuer, registry, schema, content, transaction state,
age (symbolic clock), chained credentials under every edge operator and edge schema, and orders of arrival. Oracle: a small model
of which credential is in force, which waits and which is refused."""
import itertools
from datetime import timedelta
from types import SimpleNamespace
from checks.kel import *
from checks import C29
from checks.C29 import World as Tels, DT, seal, vdr
from keri import Vrsn_1_0
from keri.core import scheming
from keri.core.coring import Number, Diger, Prefixer, Dater
from keri.core.scheming import Schemer
from keri.help import helping
from keri.vc.proving import credential
from keri.vdr import verifying
from keri.vdr.verifying import Verifier
from keri.kering import ValidationError, MissingRegistryError, MissingSchemaError, MissingChainError, RevokedChainError, FailedSchemaValidationError

verifying.print = lambda *pa: None
verifying.Dater = lambda: Dater(dts=DT)
EXPIRY, HOLD = 100000, 3600
BASE = helping.fromIso8601(DT)
S = lambda what: Schemer(sed={"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "type": "object",
                              "properties": {"a": {"type": "object", "properties": {"n": {"enum": what}}}}})
SCH = dict(near=S(["x"]), far=S(["x", "y"]), wide=S(["x", "y", "z"]), narrow=S(["x", "z"]), unknown=S(["x", "u"]))
THIRD = nosaid(45)


class Span:
    def __init__(self, s):
        self.s = s

    def __gt__(self, o):
        return self.s > int(o.total_seconds())

    def __ge__(self, o):
        return self.s >= int(o.total_seconds())

    def __lt__(self, o):
        return self.s < int(o.total_seconds())

    def __le__(self, o):
        return self.s <= int(o.total_seconds())


class Now:
    def __init__(self, s):
        self.s = s

    def __sub__(self, o):
        return Span(self.s - int((o - BASE).total_seconds()))


class World(Tels):
    def __init__(self, *schemas, baks=False):
        super().__init__()
        self.vry = None
        self.clock(0)
        self.vry = Verifier(hby=SimpleNamespace(db=self.db, name="vt", temp=True, inited=True, kvy=None, version=Vrsn_1_0), reger=self.reger, expiry=EXPIRY)
        for s in schemas:
            self.schema(s)
        self.baks = baks
        for n in (0, 1):
            self.open(n, **(dict(baks=[wit(n)], toad=1) if baks else {}))

    def clock(self, s):
        verifying.helping = SimpleNamespace(nowUTC=lambda: Now(s), fromIso8601=helping.fromIso8601)

    def schema(self, s):
        self.db.schema.pin(SCH[s].said, SCH[s])

    def cred(self, issuer, reg, n="x", schema="near", to=None, edge=None):
        d = dict(d="", n=n)
        return credential(issuer=issuer, schema=SCH[schema].said, data=d, recipient=to, status=reg, source=edge, version=Vrsn_1_0, kind=Kinds.json)

    def tel(self, reg, c, what, dt=DT):
        """issue / revoke in a registry"""
        t = ()
        r = self.regs[reg]
        if what and self.baks:
            t = [vdr.backerIssue(c.said, r.pre, 0, r.said, dt=dt, **JSON)]
            if what == "rev":
                t.append(vdr.backerRevoke(c.said, r.pre, 0, r.said, t[0].said, dt=dt, **JSON))
        elif what:
            t = [vdr.issue(c.said, self.regs[reg].pre, dt=dt, **JSON)]
            if what == "rev":
                t.append(vdr.revoke(c.said, self.regs[reg].pre, t[0].said, dt=dt, **JSON))
        for e in t:
            self.give(e, self.own[reg].put(self.own[reg].make(seal(e))), sigs=[0] if self.baks else ())

    def come(self, c):
        """presentation: name of what was raised"""
        try:
            self.vry.processCredential(creder=c, prefixer=Prefixer(qb64=c.said), seqner=Number(num=0), saider=Diger(qb64=nosaid(1)))
        except (ValidationError, MissingRegistryError, MissingSchemaError, MissingChainError, RevokedChainError, FailedSchemaValidationError) as ex:
            return type(ex)
        return None

    def saved(self):
        return sorted(k[0] for k, _ in self.reger.saved.getTopItemIter())

    def waits(self, c):
        return [n for n in ("mre", "mse", "mce") if getattr(self.reger, n).get(keys=c.said) is not None]

    def indices(self, ctx, *creds):
        """stores name exactly the credentials saved"""
        s = self.saved()
        ctx.check(all(c.said in [x.said for x in creds] for c in [self.reger.creds.get(keys=k) for k in s]), "saved credential is another")
        for sub, f in (("issus", lambda c: c.sad["i"]), ("schms", lambda c: c.sad["s"]), ("subjs", lambda c: c.sad["a"].get("i"))):
            want = sorted((f(c), c.said) for c in creds if c.said in s and f(c) is not None)
            got = sorted((k[0], v.qb64) for k, v in getattr(self.reger, sub).getTopItemIter())
            ctx.check(want == got, "index of saved credentials", lambda: (sub, want, got))
        for c in creds:
            if c.said in s:
                ctx.check(self.reger.creds.get(keys=c.said).raw == c.raw, "credential kept differs")


def one(ctx, tel, schema, baks=False):
    """a credential alone: whoever it says issued it, in whichever registry, whatever its state, content and age"""
    w = World("near", "far", baks=baks)
    who = ctx.choose("issuer", [0, 1])
    reg = ctx.choose("registry", [0, 1, 2])
    regk = w.regs[reg].pre if reg < 2 else nosaid(50)
    n = ctx.choose("content", ["x", "y"])
    to = ctx.choose("issuee", [None, 0, THIRD])
    to = w.own[0].pre if to == 0 else to
    c = w.cred(w.own[who].pre, regk, n=n, schema=schema, to=to)
    if reg < 2:
        w.tel(reg, c, tel)
    age = ctx.integer("age", 0, 2 * EXPIRY)
    w.clock(age)
    err = w.come(c)
    missing = reg == 2 or not tel or schema == "unknown"
    final = (schema != "near" or n == "x") and (who == reg or reg == 2)
    late = age > EXPIRY
    if err is None:
        ctx.check(not missing and final, "credential accepted", lambda: (who, reg, n, tel, schema))
        ctx.check(late == False, "credential accepted on a state out of date")
        ctx.check(w.saved() == [c.said] and not w.waits(c), "credential accepted is not saved")
        ctx.reach("accepted")
    else:
        ctx.check(w.saved() == [], "refused credential saved")
        ctx.check(late | missing | (not final), "valid credential refused", lambda: (err, who, reg, n, tel, schema))
        if final:
            ctx.check(len(w.waits(c)) == 1, "credential that lacks something does not wait", lambda: (err, w.waits(c)))
        elif not missing and not late:
            ctx.check(not w.waits(c), "credential that can never be valid waits", lambda: w.waits(c))
        ctx.reach("refused")
    w.indices(ctx, c)


def model(op, nissuer, nissuee, fissuee):
    """True: satisfied, False: not, None: never judged satisfied (unsupported)"""
    ops = [o for o in (op if isinstance(op, list) else [op]) if o in ("I2I", "NI2I", "DI2I", "E1E", "NOT")]
    deleg = [o for o in ops if o in ("I2I", "NI2I", "DI2I")]
    last = deleg[-1] if deleg else None
    if not ops:
        last = "NI2I" if fissuee is None else "I2I"
    if "NOT" in ops or last == "DI2I":
        return None
    ok = True
    if "E1E" in ops:
        ok = fissuee is not None and fissuee == nissuee
    if last == "I2I":
        ok = ok and fissuee is not None and fissuee == nissuer
    return ok


def chain(ctx, op, many):
    """a credential that builds on another"""
    far = ctx.choose("far", ["saved", "absent", "waiting", "rev", "bsaved", "brev"]) if not many else ctx.choose("far", ["saved", "rev"])
    w = World("near", "far", "wide", "narrow", baks=far[0] == "b")
    far = far.lstrip("b")
    ids = [w.own[0].pre, w.own[1].pre, THIRD, None]
    nissuer = ctx.choose("near issuer", [0, 1])
    nissuee = ids[ctx.choose("near issuee", [0, 1, 2, 3])]
    fissuee = ids[ctx.choose("far issuee", [0, 1, 2, 3])]
    es = ctx.choose("edge schema", [None, "far", "wide", "narrow", "unknown"]) if far == "saved" and not w.baks else "far"
    f = w.cred(w.own[1].pre, w.regs[1].pre, n="y", schema="far", to=fissuee)
    if far != "waiting":
        w.tel(1, f, "rev" if far == "rev" else "iss")
    if far != "absent":
        w.come(f)
    before = w.saved()
    ctx.check(before == ([f.said] if far in ("saved", "rev") else []), "chained credential")
    e = dict(n=f.said)
    if op is not None:
        e["o"] = op
    if es is not None:
        e["s"] = SCH[es].said
    good = dict(n=f.said, o="NI2I")
    if many == "list":
        edge = [dict(d="", a=good), dict(d="", b=e)]
    elif many == "group":
        edge = dict(d="", u="0ABB", o="AND", a=good, b=e)
    else:
        edge = dict(d="", a=e)
    c = w.cred(w.own[nissuer].pre, w.regs[nissuer].pre, to=nissuee, edge=edge)
    w.tel(nissuer, c, "iss")
    err = w.come(c)
    sat = model(op, w.own[nissuer].pre, nissuee, fissuee)
    sch = es in (None, "far", "wide")
    missing = far in ("absent", "waiting") or es == "unknown"
    ok = sat and far == "saved" and sch
    if err is None:
        ctx.check(ok, "chained credential accepted", lambda: (op, nissuer, nissuee, fissuee, far, es))
        ctx.check(w.saved() == sorted([f.said, c.said]), "credential accepted is not saved")
        ctx.reach("accepted")
    else:
        ctx.check(not ok, "chained credential refused", lambda: (err, op, nissuer, nissuee, fissuee, far, es))
        ctx.check(w.saved() == before, "refused credential saved")
        if sat and missing:
            ctx.check(len(w.waits(c)) == 1, "credential that lacks something does not wait", lambda: (err, w.waits(c)))
        if far == "rev" and sat:
            ctx.check(err is RevokedChainError and not w.waits(c), "revoked chain", lambda: err)
        ctx.reach("refused")
    w.indices(ctx, f, c)


def edge(ctx, lens, alone, has, rev):
    """every operator text, issuer and issuee against the far credential's issuee"""
    w = World("near", "far")
    fissuee = w.own[0].pre if has else None
    f = w.cred(w.own[1].pre, w.regs[1].pre, n="y", schema="far", to=fissuee)
    w.tel(1, f, rev)
    w.come(f)
    op = [ctx.str_("o%d" % j, n) for j, n in enumerate(lens)]
    iss = ctx.str_("issuer", 44)
    sue = ctx.str_("issuee", 44) if ctx.boolean("issuee?") else None
    pres = [w.own[0].pre] if has else []
    deleg, e1e, no, any_ = None, False, False, False
    for o in op:                # as its words say
        for x in ("I2I", "NI2I", "DI2I"):
            if o == x:
                deleg, any_ = x, True
        if o == "E1E":
            e1e = any_ = True
        if o == "NOT":
            no = any_ = True
    if not any_:
        deleg = "I2I" if has else "NI2I"
    want = (iss == pres[0] if pres else False) if deleg == "I2I" else True
    if e1e:
        want = (want & (sue == pres[0])) if pres and sue is not None else False
    try:
        st = w.vry.verifyChain(f.said, op[0] if alone else op, iss, sue)
    except ValidationError:
        ctx.check(no or deleg == "DI2I", "edge refused", lambda: (op, iss, sue))
        ctx.reach("refused")
        return
    ctx.check(not no and deleg != "DI2I", "edge with an operator not implemented judged", lambda: op)
    if st is None:
        ctx.check(want == False, "edge that holds is refused", lambda: (op, iss, sue))
        ctx.reach("refused")
    else:
        ctx.check(want, "edge accepted", lambda: (op, iss, sue))
        ctx.check(st.et == rev and st.i == f.said, "state of another credential")
        ctx.reach("accepted")


def aged(ctx, far):
    """the state of what a credential builds on is no older than allowed; what waits is dropped when it waited too long"""
    w = World("near", "far")
    f = w.cred(w.own[1].pre, w.regs[1].pre, n="y", schema="far", to=w.own[0].pre)
    c = w.cred(w.own[0].pre, w.regs[0].pre, to=THIRD, edge=dict(d="", a=dict(n=f.said)))
    if far:
        w.tel(1, f, "iss")
        w.come(f)
    which = ctx.choose("waits", ["mre", "mse", "mce"])
    getattr(w.reger, which).put(keys=c.said, val=Dater(dts=DT))
    w.reger.logCred(c, Prefixer(qb64=c.said), Number(num=0), Diger(qb64=nosaid(1)))
    w.tel(0, c, "iss")
    age = ctx.integer("age", 0, 2 * HOLD)
    w.clock(age)
    w.vry.processEscrows()
    if c.said in w.saved():
        ctx.check(far, "credential accepted")
        ctx.check(age <= HOLD, "accepted after it waited too long")
        ctx.reach("accepted")
    else:
        ctx.check((not far) | (age > HOLD), "valid credential that waited is lost")
        if not far:
            ctx.check((len(w.waits(c)) > 0) == (age <= HOLD), "what waits is kept until its time is over", lambda: w.waits(c))
        ctx.reach("refused")


def apart(ctx, rev):
    """both a credential's state and that of what it builds on are no older than allowed, and the issuer's registry holds it"""
    w = World("near", "far")
    near, far = [ctx.choose(x, [0, 40000, 90000]) for x in ("near at", "far at")]
    own = ctx.choose("registry", [0, 1])
    f = w.cred(w.own[1].pre, w.regs[1].pre, n="y", schema="far", to=w.own[0].pre)
    w.tel(1, f, "iss", dt=helping.toIso8601(BASE + timedelta(seconds=far)))
    w.clock(90000)
    w.come(f)
    ctx.check(w.saved() == [f.said], "chained credential")
    c = w.cred(w.own[0].pre, w.regs[own].pre, to=THIRD, edge=dict(d="", a=dict(n=f.said)))
    w.tel(own, c, rev, dt=helping.toIso8601(BASE + timedelta(seconds=near)))
    age = ctx.integer("age", 90000, 4 * EXPIRY)
    w.clock(age)
    ok = (age - near <= EXPIRY) & (age - far <= EXPIRY) & (own == 0)
    if w.come(c) is None:
        ctx.check(ok, "chained credential accepted")
        ctx.check(c.said in w.saved(), "credential accepted is not saved")
        ctx.reach("accepted")
    else:
        ctx.check(ok == False, "chained credential refused")
        ctx.check(w.saved() == [f.said], "refused credential saved")
        ctx.reach("refused")
    w.indices(ctx, f, c)


def order(ctx, perm, bad):
    """c near credential, i its issuance, n its schema, f far credential, t its issuance, s its schema; any order; bad: what never comes"""
    w = World()
    f = w.cred(w.own[1].pre, w.regs[1].pre, n="y", schema="far", to=w.own[0].pre)
    c = w.cred(w.own[0].pre, w.regs[0].pre, to=THIRD, edge=dict(d="", a=dict(n=f.said)))
    n = ctx.choose("between", [0, 1, 2])
    rounds = ctx.choose("again", [0, 1])
    for x in perm:
        if x in bad:
            continue
        for _ in range(1 + (rounds and x in "cf")):
            {"c": lambda: w.come(c), "f": lambda: w.come(f), "i": lambda: w.tel(0, c, "iss"), "t": lambda: w.tel(1, f, "iss"),
             "n": lambda: w.schema("near"), "s": lambda: w.schema("far")}[x]()
        for _ in range(n):
            w.vry.processEscrows()
    for _ in range(4):
        w.vry.processEscrows()
    fok = not set("fts") & set(bad)
    cok = fok and not set("cin") & set(bad)
    want = sorted([f.said] * fok + [c.said] * cok)
    ctx.check(w.saved() == want, "credentials in the end", lambda: (w.saved(), want, w.waits(c), w.waits(f)))
    for x, y, z in ((f, fok, "f"), (c, cok, "c")):
        ctx.check(len(w.waits(x)) == (not y and z not in bad), "what waits in the end", lambda: (z, w.waits(x)))
    w.indices(ctx, f, c)
    ctx.reach("same")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=expect, weight=weight))
    both = ["accepted", "refused"]
    for tel in (None, "iss", "rev"):
        for schema in ("near", "far", "unknown"):
            add("one-%s-%s" % (tel, schema), one, both if tel and schema != "unknown" else ["refused"], tel=tel, schema=schema, weight=3)
        if tel:
            add("one-backed-%s" % tel, one, both, tel=tel, schema="near", baks=True, weight=3)
    one_ops = [None, "I2I", "NI2I", "E1E", "DI2I", "NOT", "XX", [], ["E1E", "I2I"], ["I2I", "NI2I"], ["NI2I", "I2I"], ["XX", "E1E"], ["DI2I", "NI2I"], ["NI2I", "DI2I"], ["NOT", "I2I"], ["E1E", "NI2I"]]
    for j, op in enumerate(one_ops):
        e = ["refused"] if op in ("DI2I", "NOT") or isinstance(op, list) and (op[-1:] == ["DI2I"] or "NOT" in op) else both
        for many in ("", "list", "group") if T or j < 3 else ("",):
            add("chain-%d-%s" % (j, many), chain, e, op=op, many=many, weight=5 if not many else 3)
    for lens in ((3,), (4,), (2,), (3, 3), (3, 4), (4, 3), (4, 4), (3, 3, 3), (4, 3, 4), (3, 4, 3)) if T else ((3,), (4,), (2,), (3, 3), (3, 4), (4, 3), (4, 4)):
        for has in (True, False):
            for alone in (True, False) if len(lens) == 1 else (False,):
                add("edge-%s-%s-%s" % ("".join(map(str, lens)), has, alone), edge, both if has or lens != (2,) else ['accepted'], lens=lens, alone=alone, has=has, rev="iss" if alone else "rev", weight=2)
    for far in (False, True):
        add("aged-%s" % far, aged, both if far else ["refused"], far=far)
    for rev in ("iss", "rev"):
        add("apart-%s" % rev, apart, both, rev=rev, weight=3)
    perms = ["".join(p) for p in itertools.permutations("cinfts")]
    for p in perms if T else perms[::12]:
        add("order-%s" % p, order, ["same"], perm=p, bad="")
    for p in perms[::12] if T else perms[7::72]:
        for b in "cinfts":
            add("order-%s-%s" % (p, b), order, ["same"], perm=p, bad=b)
    return out


BOUNDS = ("two issuers with a registry each; claimed issuer, registry (or unknown one), three issuees, content and schema chosen, age of the "
          "state 0..200000 s against an expiry of 100000 s; states issued at three instants; registries with and without backers; one chained credential under 16 operators and lists of operators (and one more "
          "edge in a list or group, quick for 3 of them), each near and far issuee of four, six far states, five edge schemas; operators "
          "any texts (up to two of 2 to 4 characters, thorough three), near issuer and issuee any texts of 44 characters; time waited "
          "0..7200 s; arrival orders of credentials, issuances and schemas (quick 60 of 720, thorough all) with 0 to 2 looks at what "
          "waits between them and one of the six never coming")
OUTSIDE = "nested edge groups, aggregated credentials, the seal that comes attached to a credential (kept as given), JSON schema evaluation itself (jsonschema)"
ASSUMPTIONS = ["the transaction state is that of C29", "the clock is the one read by the verifier", "digests of distinct credentials differ"]
