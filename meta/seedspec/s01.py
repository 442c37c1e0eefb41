PROP="C01"; FILE="src/keri/core/coring.py"
OLD="        li = int.from_bytes(qb2[bcs:bcs+ls], \"big\")  # lead as int\n"
NEW="        li = int.from_bytes(qb2[bcs:bcs+ls], \"big\") >> (8 * (ls - 1) if ls else 0)  # lead as int\n"
NEEDS="binary form of a primitive whose code has two lead bytes, with a nonzero second lead byte"
BREAKS="a non-canonical binary form decodes to a primitive that encodes differently"
DEMO='''
from keri.core.coring import Matter
m = Matter(raw=b"z", code="6AAA", rize=1) if False else Matter(raw=b"z", code="6A")
q = bytearray(m.qb2)
i = len(q) - 2
q[i] = 7
try:
    x = Matter(qb2=bytes(q))
except Exception:
    raise SystemExit(0)
raise SystemExit(0 if x.qb2 == bytes(q) else "alias decoded")
'''
