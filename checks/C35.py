"""The real contact organizers over an event database, through histories of updating, replacing, setting, unsetting and removing fields of contacts, with pictures. Contents of pictures
and sizes are symbolic. Oracle: a table of contacts kept by itself, compared with every way of reading after every step, and with records changed under their signatures."""
import io
from checks.kel import *
from keri import kering
from keri.core.coring import Cigar
from keri.app.organizing import Organizer, IdentifierOrganizer
from checks.C27 import Hby

REFUSED = (ValueError, kering.KeriError)
PRES = [key(1).qb64, key(2, trans=False).qb64, nosaid(1)]
DATA = [dict(alias="sally"), dict(alias="Sally-direct", company="GLEIF"), {"alias": "", "a.b": "x"}, {"alias.": "bob", "ALIAS": "sally"}, dict(id=PRES[1], company="sally"), {"note": "two\nlines é", "alias": "sally"}]
FIELDS = ["alias", "company", "a.b", "alias.", "none"]


class Env(Hby):
    def __init__(self, db):
        self.db = db


def look(ctx, org, exp):
    """every way of reading gives what there is"""
    for p in PRES:
        e = exp.get(p)
        got = org.get(p)
        ctx.check(got == (dict(e, id=p) if e is not None else None), "contact", lambda: str((got, e)))
        for f in FIELDS:
            ctx.check(org.get(p, field=f) == (e or {}).get(f), "field of a contact", f)
    want = {p: dict(e, id=p) for p, e in exp.items() if e}
    ids = [c["id"] for c in org.list()]
    ctx.check({c["id"]: c for c in org.list() if len(c) > 1} == want and len(set(ids)) == len(ids) and set(ids) <= set(exp), "list of contacts", lambda: str((org.list(), want)))
    for f in FIELDS:
        have = {p: e[f] for p, e in exp.items() if f in e}
        ctx.check(sorted(org.values(f)) == sorted(set(have.values())), "values of a field", f)
        for v in ("sally", "Sally-direct", "bob", "x", ""):
            ctx.check(sorted(c["id"] for c in org.findExact(f, v)) == sorted(p for p, x in have.items() if x == v), "contacts found exactly", lambda: (f, v))
            ctx.check({c["id"]: c for c in org.findExact(f, v)} == {p: dict(exp[p], id=p) for p, x in have.items() if x == v}, "contacts found exactly")
            ctx.check(sorted(c["id"] for c in org.find(f, v)) == sorted(p for p, x in have.items() if v.lower() in x.lower()), "contacts found", lambda: (f, v))
            ctx.check(sorted(org.values(f, v)) == sorted({x for x in have.values() if v.lower() in x.lower()}), "values found")


def step(ctx, org, exp, i, ops):
    op, p = ctx.choose("op%d" % i, ops), PRES[ctx.choose("p%d" % i, [0, 1] if i else [0, 2])]
    if op in ("update", "replace"):
        d = dict(DATA[ctx.choose("d%d" % i, list(range(len(DATA))))])
        getattr(org, op)(p, dict(d))
        d.pop("id", None)
        exp[p] = d if op == "replace" else dict(exp.get(p) or {}, **d)
    elif op == "set":
        f = ctx.choose("f%d" % i, FIELDS)
        org.set(p, f, "bob")
        exp[p] = dict(exp.get(p) or {}, **{f: "bob"})
    elif op == "unset":
        f = ctx.choose("f%d" % i, FIELDS)
        if f in exp.get(p, {}):
            org.unset(p, f)
            exp[p] = {k: v for k, v in exp[p].items() if k != f}
    else:
        org.rem(p)
        exp.pop(p, None)


def histories(ctx, klas, first, n, ops):
    ideal.ORACLE = None
    db = open_db("vt")
    org = klas(Env(db))
    other = (IdentifierOrganizer if klas is Organizer else Organizer)(Env(db))
    other.update(PRES[0], dict(alias="other"))
    exp = {}
    for j, d in enumerate(first):
        org.update(PRES[j], dict(DATA[d]))
        exp[PRES[j]] = {k: v for k, v in DATA[d].items() if k != "id"}
    look(ctx, org, exp)
    for i in range(n):
        step(ctx, org, exp, i, ops)
        look(ctx, org, exp)
    ctx.check(other.list() == [dict(id=PRES[0], alias="other")], "other organizer's contacts changed")
    ctx.reach("done")


def tampered(ctx, klas):
    """nothing is given that was not signed"""
    ideal.ORACLE = None
    db = open_db("vt")
    org = klas(Env(db))
    for j in (0, 1):
        org.update(PRES[j], DATA[j])
    what = ctx.choose("what", ["data", "cig", "swap", "other"])
    if what == "data":
        org.datadb.pin(keys=(PRES[0],), val=b'{"alias": "mallory"}')
    elif what == "cig":
        org.cigsdb.pin(keys=(PRES[0],), val=Cigar(raw=bytes(64), verfer=Hby.signator.signer.verfer))
    elif what == "swap":
        org.datadb.pin(keys=(PRES[0],), val=org.datadb.get(keys=(PRES[1],)))
    else:
        org.datadb.pin(keys=(PRES[1],), val=b'{}')
    bad = PRES[1] if what == "other" else PRES[0]
    for p in PRES[:2]:
        try:
            got = org.get(p)
            ctx.check(p != bad, "contact given that was not signed")
            ctx.check(got["id"] == p, "contact of another")
        except REFUSED:
            ctx.check(p == bad, "signed contact refused")
    how = ctx.choose("how", ["find", "findExact", "update", "set"])
    before = (org.datadb.get(keys=(bad,)), org.list())
    try:
        if how == "update":
            org.update(bad, dict(company="x"))
        elif how == "set":
            org.set(bad, "company", "x")
        else:
            getattr(org, how)("alias", "sally" if bad == PRES[0] else "Sally-direct")
        ctx.check(False, "record that was not signed is used")
    except REFUSED:
        pass
    ctx.check((org.datadb.get(keys=(bad,)), org.list()) == before, "record that was not signed is signed")
    ctx.reach("done")


def pictures(ctx, sizes):
    """pictures come back whole, the last one given"""
    ideal.ORACLE = None
    db = open_db("vt")
    org = Organizer(Env(db))
    have = {}
    for i in range(3):
        p = PRES[ctx.choose("p%d" % i, [0, 1])]
        n = ctx.choose("n%d" % i, sizes)
        tail = ctx.bytes_("c%d" % i, min(n, 2))
        body_ = bytes([65 + i]) * (n - min(n, 2)) + tail
        typ = ctx.choose("t%d" % i, ["image/png", "image/jpeg"])
        org.setImg(p, typ, Stream(body_))
        have[p] = (typ, body_)
    for p in PRES:
        got = org.getImgData(p)
        if p not in have:
            ctx.check(got is None and list(org.getImg(p)) == [], "picture out of nothing")
            continue
        typ, body_ = have[p]
        ctx.check(got == dict(type=typ, length=len(body_)), "type and size of a picture", lambda: str(got))
        ctx.check(b"".join(org.getImg(p)) == body_, "content of a picture")
    ctx.reach("done")


class Stream:
    def __init__(self, b):
        self.b, self.i = b, 0

    def read(self, n):
        x = self.b[self.i:self.i + n]
        self.i += n
        return x


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(cname, fn, expect, weight=1, **params):
        out.append(dict(name=cname, fn=fn, params=params, expect=expect, weight=weight))
    OPS = ["update", "replace", "set", "unset", "rem"]
    for j in range(len(DATA)):
        for k in (0, 3) if not T else range(len(DATA)):
            add("contacts-%d-%d" % (j, k), histories, ["done"], klas=Organizer, first=[j, k], n=1 if not T else 2, ops=OPS, weight=3)
    add("contacts-two", histories, ["done"], klas=Organizer, first=[0], n=2, ops=OPS, weight=8)
    add("identifiers", histories, ["done"], klas=IdentifierOrganizer, first=[1, 2], n=1, ops=OPS, weight=3)
    for k in (Organizer, IdentifierOrganizer):
        add("tampered-" + k.__name__, tampered, ["done"], klas=k)
    add("pictures", pictures, ["done"], sizes=[0, 1, 4095, 4096, 4097, 8192] if T else [1, 4096, 4097], weight=6)
    return out


BOUNDS = ("2 contacts of 6 kinds of fields, then 1 or 2 (2 throughout) steps of updating, replacing, setting, unsetting and removing of 3 identifiers, every way of reading after each; records changed in 4 "
          "ways; 3 pictures of up to 4097 (8192) bytes, the last two of them any")
OUTSIDE = "whether a contact without fields is listed; values that are not text; regular expressions as search values; pictures of removed contacts, which stay"
ASSUMPTIONS = ["ideal signatures"]
