PROP="C04"; FILE="src/keri/core/coring.py"
OLD="                        if vw >= 1:  # element true\n"
NEW="                        if vw > 0:  # element true\n"
NEEDS="a nested weighted threshold where only some members of a nested group sign"
BREAKS="a nested group counts although its members' weights do not reach one"
DEMO='''
from keri.core.coring import Tholder
t = Tholder(sith=[{"1/2": ["1/2", "1/2"]}, "1/2"])
raise SystemExit("under-signed group accepted" if t.satisfy([0, 2]) else 0)
'''
