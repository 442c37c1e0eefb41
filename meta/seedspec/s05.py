PROP='C12'; FILE='src/keri/core/eventing.py'
OLD='            kdig = Diger(ser=siger.verfer.qb64b, code=diger.code).qb64\n            if kdig == diger.qb64:'
NEW='            kdig = Diger(ser=siger.verfer.qb64b, code=diger.code).qb64\n            if kdig in [d.qb64 for d in ndigers]:'
NEEDS='a rotation key revealed at another position than the one it was committed at'
BREAKS="keys are accepted at any position of the prior next list, so a holder of one next key can count for another position's weight"
