PROP="C02"; FILE="src/keri/core/indexing.py"
OLD="            ondex = b64ToInt(both[hs+ms:hs+ms+os]) if os else index\n"
NEW="            ondex = (b64ToInt(both[hs+ms:hs+ms+os]) if os else 0) or index\n"
NEEDS="binary form of a big dual-index signature whose prior index is zero while its current index is not"
BREAKS="the decoded prior-key index is the current index instead of zero"
DEMO='''
from keri.core.indexing import Indexer
x = Indexer(raw=bytes(64), code="2A", index=5, ondex=0)
y = Indexer(qb2=x.qb2)
raise SystemExit(0 if (y.index, y.ondex) == (5, 0) else "ondex became %r" % y.ondex)
'''
