"""The real Mailboxer with the iterator that streams it to its owner, Noter and Notifier, and Signaler with its expiry loop, through histories of storing, reading, streaming, marking,
removing and expiring in every order. Slices and numbers taken out are symbolic. Oracle: lists of what was stored, kept by itself, and the stream taken apart by itself."""
import datetime
from checks.kel import *
from keri import kering
from keri.core.indexing import Siger
from keri.core.coring import Cigar
from keri.core.signing import Signer
from keri.app import storing, notifying, signaling
from keri.app.storing import Mailboxer
from keri.app.indirecting import MailboxIterable, QryRpyMailboxIterable
from keri.app.notifying import Noter, Notifier, Notice
from keri.app.signaling import Signaler
from hio.help import decking

REFUSED = (ValueError, kering.KeriError)
ME, YOU = key(1).qb64, key(2).qb64
TOPICS = [ME + "/a", ME + "/ab", ME + "/a/b", ME, YOU + "/a"]
TEXTS = [b'{"v":"KERI10JSON000000_","a":1}-AAB', b'{"v":"KERI10JSON000000_","a":2}', b"x", b'{"v":"KERI10JSON000000_","a":"\xc3\xa9"}']
BINARY = b"\x83\xa1v\xb1KERI10MGPK000012_\xff"


def content(box, store, ctx):
    for t in TOPICS:
        ctx.check(box.getTopicMsgs(t) == [m for m in store.get(t, [])], "messages of a topic", t)
        ctx.check([(on, bytes(m)) for on, _, m in box.cloneTopicIter(t)] == list(enumerate(store.get(t, []))), "numbered messages of a topic", t)


def mailbox(ctx, n, texts, form):
    """messages of each topic, in turn, from a number on"""
    ideal.ORACLE = None
    box = Mailboxer(name="vt", temp=True, reopen=True)
    store = {}
    for i in range(n):
        t, m = ctx.choose("t%d" % i, TOPICS if i < 2 else TOPICS[:2]), ctx.choose("m%d" % i, texts)
        box.storeMsg(t.encode() if form == "bytes" else t, m.decode() if form == "str" else m)
        store.setdefault(t, []).append(m)
    content(box, store, ctx)
    fn = ctx.choose("fn", list(range(n + 2)))
    t = ctx.choose("read", TOPICS[:2])
    have = list(enumerate(store.get(t, [])))
    got = [(on, bytes(m)) for on, _, m in box.cloneTopicIter(t, fn)]
    ctx.check(got == have[fn:], "messages from a number on")
    ctx.check(box.getTopicMsgs(t, fn) == [m for _, m in have[fn:]], "messages from a number on")
    ctx.reach("done")


def indexed(ctx):
    """entries put into and taken out of a topic"""
    ideal.ORACLE = None
    box = Mailboxer(name="vt", temp=True, reopen=True)
    box.storeMsg(TOPICS[0], TEXTS[0])
    on = box.appendToTopic(TOPICS[0], Diger(ser=TEXTS[0]).qb64b)
    ctx.check(on == 1 and box.getTopicMsgs(TOPICS[0]) == [TEXTS[0]] * 2, "entry added to a topic")
    box.storeMsg(TOPICS[0], TEXTS[1])
    gone = ctx.integer("gone", 0, 3)
    ctx.check(box.delTopic(TOPICS[0], gone) == (gone < 3), "entry taken out")
    ctx.check([on for on, _, _ in box.cloneTopicIter(TOPICS[0])] == [i for i in range(3) if i != gone], "entries left")
    ctx.reach("done")


def events(ctx, data):
    """a stream of events taken apart"""
    out = []
    for e in bytes(data).split(b"\n\n")[:-1]:
        f = dict(l.split(b": ", 1) for l in e.split(b"\n"))
        if b"data" in f:
            out.append((f[b"event"].decode(), int(f[b"id"]), f[b"data"]))
    return out


class Tick:
    t = 0.0

    def perf_counter(self):
        Tick.t += 1.0
        return Tick.t


def stream(ctx, n, wrap):
    """each message is streamed once, in turn, however storing and reading come about"""
    ideal.ORACLE = None
    import keri.app.indirecting as ind
    ind.time = Tick()
    Tick.t = 0.0
    box = Mailboxer(name="vt", temp=True, reopen=True)
    store = {"/a": [], "/ab": []}
    for t in ("/a", "/a", "/ab"):
        box.storeMsg(ME + t, TEXTS[0])
        store[t].append(TEXTS[0])
    if ctx.boolean("missing"):
        box.delTopic(ME + "/a", 0)
        lost = {("/a", 0)}
    else:
        lost = set()
    start = {"/a": ctx.choose("a", [0, 1, 2, 3]), "/ab": ctx.choose("ab", [0, 1])}
    if wrap:
        serder = eventing.query(route="mbx", query=dict(pre=ME, i=ME), **JSON)
        cues = decking.Deck([dict(kin="stream", serder=eventing.query(route="mbx", query=dict(pre=YOU, i=YOU), **JSON), pre=YOU, topics={}),
                             dict(kin="stream", serder=serder, pre=ME, topics=dict(start))])
        it = iter(QryRpyMailboxIterable(cues=cues, mbx=box, said=serder.said))
    else:
        it = iter(MailboxIterable(mbx=box, pre=ME, topics=dict(start)))
    got = []
    for i in range(n):
        op = ctx.choose("o%d" % i, ["/a", "/ab", "next", "other"])
        if op == "next":
            got += events(ctx, next(it))
        elif op == "other":
            box.storeMsg(YOU + "/a", TEXTS[2])
        else:
            m = TEXTS[1] if i % 2 else TEXTS[3]
            box.storeMsg(ME + op, m)
            store[op].append(m)
    for _ in range(5):
        got += events(ctx, next(it))
    for t in store:
        ctx.check([(i, d) for x, i, d in got if x == t] == [(i, d) for i, d in enumerate(store[t]) if i >= start[t] and (t, i) not in lost], "messages streamed", lambda: str((t, got)))
    ctx.check(all(x in store for x, _, _ in got), "messages of another topic")
    if wrap:
        ctx.check(len(cues) == 1 and cues[0]["pre"] == YOU, "request of another is lost")
    ctx.reach("done")


class Hby:
    name, temp = "vt", True

    class signator:
        signer = Signer(raw=bytes([7] * 32), transferable=False)

        @classmethod
        def sign(cls, ser):
            return cls.signer.sign(ser)

        @classmethod
        def verify(cls, ser, cigar):
            return cls.signer.verfer.verify(cigar.raw, ser)


DATES = ["2021-06-27T21:26:21.233257+00:00", "2021-06-27T21:26:21.233258+00:00", "2022-01-01T00:00:00.000000+00:00"]


def notes(ctx, n, tamper):
    """notices are kept in order of their dates, signed, until they are removed"""
    ideal.ORACLE = None
    clock = [DATES[0]]
    notifying.nowIso8601 = signaling.nowIso8601 = lambda: clock[0]
    noter = Noter(name="vt", temp=True, reopen=True)
    sg = Signaler()
    nf = Notifier(hby=Hby(), signaler=sg, noter=noter)
    have = []     # (date, attributes, read)
    for i in range(3):
        clock[0] = ctx.choose("d%d" % i, DATES if i < 2 else DATES[:1])
        ctx.check(nf.add(dict(n=i)) is True, "notice not added")
        have.append([clock[0], dict(n=i), False])
    rids = {note.attrs["n"]: note.rid for note, _ in noter.getNotes(0, -1)}
    ctx.check(len(set(rids.values())) == 3, "notices lost")

    def look():
        got = nf.getNotes(0, -1)
        ctx.check(sorted((x.datetime, x.attrs["n"], x.read) for x in got) == sorted((d, a["n"], r) for d, a, r in have), "notices", lambda: str(have))
        ctx.check([x.datetime for x in got] == sorted(x.datetime for x in got), "order of notices")
        ctx.check(nf.getNoteCnt() == len(have), "number of notices")
        return got
    look()
    for i in range(n):
        op, w = ctx.choose("o%d" % i, ["mar", "rem"]), ctx.choose("w%d" % i, [0, 1, 3])
        rid = rids.get(w, "0AAwMTIzNDU2Nzg5YWJjZGVm")
        e = next((h for h in have if h[1]["n"] == w), None)
        sg.signals.clear()
        if op == "mar":
            ctx.check(nf.mar(rid) is (e is not None and not e[2]), "notice marked or not")
            done = e is not None and not e[2]
            if e:
                e[2] = True
        else:
            ctx.check(nf.rem(rid) is (e is not None), "notice removed or not")
            done = e is not None
            if e:
                have.remove(e)
        ctx.check([(s.attrs["action"], s.attrs["note"]["i"]) for s in sg.signals] == ([(op, rid)] if done else []), "signal of it")
        look()
    start, end = ctx.integer("start", 0, 4), ctx.integer("end", 0, 4)
    ctx.assume(start <= end)
    all_ = look()
    got = nf.getNotes(start, end)
    want = [x.rid for i, x in enumerate(all_) if i >= start and i <= end]
    ctx.check([x.rid for x in got] == want, "slice of notices")
    if tamper and have:
        note, cig = noter.getNotes(0, 0)[0]
        pad = dict(note.pad)
        label = ctx.choose("what", ["r", "a", "cig"])
        if label == "cig":
            noter.ncigs.pin(keys=(note.rid,), val=Cigar(raw=bytes(64), verfer=Hby.signator.signer.verfer))
        else:
            pad[label] = dict(r=not pad["r"], a=dict(n=9))[label]
            noter.notes.pin(keys=(note.datetime, note.rid), val=Notice(pad=pad))
        try:
            nf.getNotes(0, -1)
            ctx.check(False, "notice given that was not signed")
        except REFUSED:
            pass
        ctx.check(nf.mar(note.rid) is False, "notice marked that was not signed")
        ctx.reach("tampered")
    ctx.reach("done")


def signals(ctx, n):
    """signals come one per key, the latest, until they are taken or too old, however the loop that drops old ones is interrupted"""
    old, new = "2020-01-01T00:00:00.000000+00:00", "2021-06-27T21:26:21.233257+00:00"
    signaling.nowUTC = lambda: datetime.datetime(2021, 6, 27, 21, 30, tzinfo=datetime.timezone.utc)
    sg = Signaler()
    loop = sg.expireDo(tymth=lambda: 0.0)
    next(loop)
    have = []
    for i in range(n):
        op = ctx.choose("o%d" % i, ["loop", "take", "one", "two", "plain"])
        if op == "loop":
            next(loop)
            # those that are too old may be gone
            left = [s.attrs["n"] for s in sg.signals]
            ctx.check([h for h in have if h[1] in left or h[2] == new] == [h for h in have if h[1] in left], "signal dropped in time", lambda: str((have, left)))
            have = [h for h in have if h[1] in left]
        elif op == "take":
            if have:
                ctx.check(sg.signals.popleft().attrs["n"] == have.pop(0)[1], "signal taken")
            else:
                ctx.check(not sg.signals, "signal out of nothing")
        else:
            dt = ctx.choose("d%d" % i, [old, new])
            ckey = None if op == "plain" else op
            sg.push(attrs=dict(n=i), topic="/t", ckey=ckey, dt=dt)
            j = next((j for j, h in enumerate(have) if ckey and h[0] == ckey), None)
            if j is None:
                have.append((ckey, i, dt))
            else:
                have[j] = (ckey, i, dt)
        ctx.check([s.attrs["n"] for s in sg.signals] == [h[1] for h in have], "signals", lambda: str(have))
    for _ in range(2 * n + 4):
        next(loop)
    ctx.check([s.attrs["n"] for s in sg.signals] == [h[1] for h in have if h[2] == new], "signals left", lambda: str(have))
    ctx.reach("done")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(cname, fn, expect, weight=1, **params):
        out.append(dict(name=cname, fn=fn, params=params, expect=expect, weight=weight))
    for form in ("bytes", "str"):
        add("mailbox-" + form, mailbox, ["done"], n=4 if T else 3, texts=TEXTS if T else TEXTS[:2], form=form, weight=5)
    add("mailbox-binary", mailbox, ["done"], n=2, texts=[TEXTS[0], BINARY], form="bytes", weight=2)
    add("indexed", indexed, ["done"])
    for wrap in (False, True):
        add("stream-%d" % wrap, stream, ["done"], n=4 if T else 3, wrap=wrap, weight=6)
    add("notes", notes, ["done"], n=2 if not T else 3, tamper=False, weight=6)
    add("notes-tamper", notes, ["done", "tampered"], n=1, tamper=True, weight=4)
    add("signals", signals, ["done"], n=5 if T else 4, weight=6)
    return out


BOUNDS = ("3 (4) messages of 2 (4) contents to 5 neighbouring topics, read from any number on; streams from any of 4 places of 2 topics with 3 (4) steps of storing and reading in any order; "
          "3 notices of 3 dates, then 2 (3) steps of marking and removing, any slice; 4 (5) steps of signalling, taking and the expiry loop")
OUTSIDE = "the transport; how forwarded messages are authenticated (C20, C28); numbers of entries taken out at the end of a topic, which are given again"
ASSUMPTIONS = ["digests never collide", "ideal signatures"]
