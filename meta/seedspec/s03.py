PROP="C03"; FILE="src/keri/core/counting.py"
OLD="                if code[1] != '-' and count > (64 ** 2 - 1):  # small code but large count\n"
NEW="                if code[1] != '-' and count > (64 ** 2):  # small code but large count\n"
NEEDS="a count of exactly 4096 quadlets given to a small count code"
BREAKS="the counter is refused instead of switching to the big code"
DEMO='''
from keri.core.counting import Counter, Codens
try:
    c = Counter(code=Counter.Codes[sorted(Counter.Codes)[-1]][0].ControllerIdxSigs, count=4096) if False else None
    from keri.kering import Vrsn_2_0
    c = Counter(Codens.ControllerIdxSigs, count=4096, version=Vrsn_2_0)
except Exception as ex:
    raise SystemExit("refused: %r" % ex)
raise SystemExit(0 if c.count == 4096 and Counter(qb64=c.qb64, version=Vrsn_2_0).count == 4096 else "count lost")
'''
