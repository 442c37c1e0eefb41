PROP='C16'; FILE='src/keri/core/eventing.py'
OLD='            if bossn.said == bosso.said: # same delegating event'
NEW='            if bossn.sn == bosso.sn: # same delegating event'
NEEDS='two delegating events at one sequence number, one of which recovers the other'
BREAKS='superseding delegated event compared with the wrong delegating event'
