"""Threshold satisfaction, expression round trips and refusal of empty thresholds."""
import json
from fractions import Fraction
from keri.core.coring import Tholder

DENS = (2, 3, 4, 5)


def numeric(ctx, k, n):
    """k indices over n keys, any numeric threshold."""
    t = ctx.integer("thold", 0, n + 1)
    idx = [ctx.integer("i%d" % j, 0, n - 1) for j in range(k)]
    th = Tholder(thold=t)
    got = th.satisfy(list(idx))
    distinct = 0
    for key in range(n):
        here = False
        for i in idx:
            here = here | (i == key)
        distinct = distinct + here
    want = (t > 0) & (distinct >= t)
    ctx.check(bool(got) == bool(want), "numeric threshold decided wrongly", lambda: dict(t=t))
    ctx.reach("met" if got else "not met")


def numeric_text(ctx, bits):
    """Numeric thresholds keep their value through every form."""
    t = ctx.integer("thold", 0, 2 ** bits - 1)
    th = Tholder(thold=t)
    hexs = "%x" % t
    for a in (Tholder(sith=t), Tholder(sith=hexs), Tholder(limen=th.limen)):
        ctx.check(not a.weighted and a.num == t and a.thold == t, "threshold value changed")
        ctx.check(a.sith == hexs, "threshold text changed")
        ctx.check(a.limen == th.limen, "qualified form changed")
        ctx.check(a.size == t, "minimum number of keys changed")
    ctx.reach("text")


def negative(ctx):
    t = ctx.integer("thold", -40, -1)
    for kw in (dict(thold=t), dict(sith=t)):
        try:
            Tholder(**kw)
        except ValueError:
            continue
        ctx.check(False, "negative threshold accepted")
    ctx.reach("refused")


def weights(ctx, tag, n, den):
    """den: how many denominators are tried per weight, from a position dependent start"""
    out = []
    for j in range(n):
        start = sum(map(ord, tag)) + j
        d = ctx.choose("%s%d.d" % (tag, j), [DENS[(start + i) % 4] for i in range(den)])
        out.append((ctx.integer("%s%d.n" % (tag, j), 0, d), d))
    return out


def total(ws, on):
    """sum of the chosen weights in sixtieths"""
    s = 0
    for (n, d), o in zip(ws, on):
        s = s + n * (60 // d) * o
    return s


def weighted(ctx, shape, k, den):
    """shape: list of clauses, a clause is a list of element sizes, 0 = plain weight,
    m > 0 = nested group of m weights.  k indices, repeated or not."""
    clauses, pos = [], 0
    spec = []
    for ci, c in enumerate(shape):
        cl, sp = [], []
        for ei, m in enumerate(c):
            (top,) = weights(ctx, "w%d.%d." % (ci, ei), 1, den)
            if m:
                sub = weights(ctx, "v%d.%d." % (ci, ei), m, den)
                cl.append((Fraction(top[0], top[1]), [Fraction(a, b) for a, b in sub]))
                sp.append((top, sub, pos))
                pos += m
            else:
                cl.append(Fraction(top[0], top[1]))
                sp.append((top, None, pos))
                pos += 1
        clauses.append(cl)
        spec.append(sp)
    valid = True
    for sp in spec:
        valid = valid & (total([t for t, _, _ in sp], [1] * len(sp)) >= 60)
        for t, sub, p in sp:
            if sub:
                valid = valid & (total(sub, [1] * len(sub)) >= 60)
    try:
        th = Tholder(thold=clauses)
    except ValueError:
        ctx.check(not valid, "valid weighted threshold refused")
        ctx.reach("refused")
        return
    ctx.check(valid, "unsatisfiable weighted threshold accepted")
    ctx.check(th.weighted and th.size == pos, "number of keys expected by the threshold")
    idx = [ctx.integer("i%d" % j, 0, pos - 1) for j in range(k)]
    got = th.satisfy(list(idx))
    on = []
    for key in range(pos):
        here = False
        for i in idx:
            here = here | (i == key)
        on.append(here)
    want = k > 0
    for sp in spec:
        s = 0
        for (n, d), sub, p in sp:
            if sub:
                s = s + n * (60 // d) * (total(sub, on[p:p + len(sub)]) >= 60)
            else:
                s = s + n * (60 // d) * on[p]
        want = want & (s >= 60)
    ctx.check(bool(got) == bool(want), "weighted threshold decided wrongly")
    ctx.reach("met" if got else "not met")


SITHS = [
    ["1/2", "1/2"], ["1/2", "1/2", "1/2"], ["1/3", "1/3", "1/3", "1"], ["1", "0", "1/2", "2/4"],
    [["1/2", "1/2"], ["1"]], [["1/2", "1/2", "1/4"], ["1/5", "4/5"]],
    [{"1/2": ["1/2", "1/2"]}, "1/2"], [[{"1/2": ["1/2", "1/2", "1"]}, "1/2"], ["1", {"1": ["1", "1"]}]],
    ["1/1", "1/2", "0/1"], [{"1": ["1/2", "1/2"]}],
]


def val(w):
    f = Fraction(w)
    return (f.numerator * (60 // f.denominator))


def sithforms(ctx, s):
    """Every textual form of a weighted threshold accepts the same key sets."""
    sith = SITHS[s]
    clauses = sith if all(isinstance(c, list) for c in sith) else [sith]
    forms = [Tholder(sith=sith), Tholder(sith=json.dumps(sith))]
    forms += [Tholder(limen=forms[0].limen), Tholder(sith=forms[0].sith), Tholder(sith=forms[0].json),
              Tholder(thold=forms[0].thold)]
    n = sum(len(list(e.values())[0]) if isinstance(e, dict) else 1 for c in clauses for e in c)
    on = [ctx.boolean("on%d" % i) for i in range(n)]
    idx = [i for i in range(n) if on[i]]
    want, p = len(idx) > 0, 0
    for c in clauses:
        t = 0
        for e in c:
            if isinstance(e, dict):
                (k, vs), = e.items()
                if sum(val(v) for j, v in enumerate(vs) if on[p + j]) >= 60:
                    t += val(k)
                p += len(vs)
            else:
                if on[p]:
                    t += val(e)
                p += 1
        want = want and t >= 60
    for a in forms:
        ctx.check(a.weighted and a.num is None and a.size == n, "size of threshold")
        ctx.check(bool(a.satisfy(idx)) == want, "form decides differently")
        ctx.check(a.satisfy(list(reversed(idx)) + idx) == a.satisfy(idx), "order or repetition matters")
        ctx.check(a.limen == forms[0].limen and a.sith == forms[0].sith, "text forms differ")
    ctx.reach("met" if want else "not met")


BAD = [[], "", "[]", ["1/2"], ["1/2", "1/4"], [["1/2", "1/2"], ["1/2"]], ["3/2"], ["-1/2", "3/2"], [{"1/2": ["1/2"]}, "1/2"],
       [{"1/2": ["1/2", "1/2"], "1": ["1"]}], ["1", 1], [["1"], []], "-1", [{"1": ["1/2", "1/4"]}], ["0", "0"], ["1.5"], ["0.5", "0.5"], ["2"]]


def bad(ctx):
    b = ctx.choose("bad", BAD)
    try:
        th = Tholder(sith=b)
    except Exception:
        ctx.reach("refused")
        return
    ctx.check(False, "invalid threshold expression accepted", lambda: dict(sith=b))


def cases(tier):
    T = tier == "thorough"
    out = []
    for k in range(0, 5 if not T else 6):
        n = 3 if k >= 5 else 4
        out.append(dict(name="numeric-%d" % k, fn=numeric, params=dict(k=k, n=n), expect=["not met"] + (["met"] if k else []), weight=k))
    for bits in (4, 8, 16, 64) + ((128,) if T else ()):
        out.append(dict(name="text-%d" % bits, fn=numeric_text, params=dict(bits=bits), expect=["text"]))
    out.append(dict(name="negative", fn=negative, expect=["refused"]))
    shapes = [([[0]], 4), ([[0, 0]], 4), ([[2]], 2), ([[0], [0]], 4), ([[2, 0]], 1), ([[0, 0], [0]], 2), ([[0, 2]], 1),
              ([[0, 0, 0]], 1), ([[2], [0]], 1)]
    if T:
        shapes = [([[0]], 4), ([[0, 0]], 4), ([[2]], 4), ([[0], [0]], 4), ([[2, 0]], 2), ([[0, 0], [0]], 4), ([[0, 2]], 2),
                  ([[0, 0, 0]], 4), ([[3, 0]], 1), ([[2], [0]], 2), ([[2, 2]], 1), ([[0, 0], [0, 0]], 1)]
    for si, (sh, den) in enumerate(shapes):
        n = sum(m or 1 for c in sh for m in c)
        for k in range(0, min(n, 3) + 1):
            out.append(dict(name="weighted-%s-%d" % (json.dumps(sh).replace(" ", ""), k), fn=weighted, weight=10 * n + k,
                            params=dict(shape=sh, k=k, den=den), expect=["not met"] if n > 1 or k == 0 else []))
    for s in range(len(SITHS)):
        out.append(dict(name="sith-%d" % s, fn=sithforms, params=dict(s=s), expect=["met", "not met"]))
    out.append(dict(name="bad", fn=bad, expect=["refused"]))
    return out


BOUNDS = "numeric: up to 4 (thorough 5) indices over 4 keys, any threshold; weighted: up to two clauses, up to 3 (thorough 4) weights, nested groups of two (thorough three), numerators arbitrary over denominators drawn from 2..5 (one to four denominators tried per weight), up to 3 indices; ten textual expressions over every key subset"
OUTSIDE = "larger thresholds; denominators above 5; indices beyond the list of weights"
ASSUMPTIONS = []
