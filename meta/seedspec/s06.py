PROP='C11'; FILE='src/keri/core/eventing.py'
OLD='                if not pserder.compare(said=prior):  # bad recovery event'
NEW='                if not pserder.compare(said=prior) and psn >= self.lastEst.s + 1:  # bad recovery event'
NEEDS='a recovery rotation that names a wrong prior event and lies before the last event but at or below the last establishment number plus one'
BREAKS='a recovery rotation with a prior digest that is not of the log is accepted'
